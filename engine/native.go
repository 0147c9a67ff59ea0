package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// native builds the harness package with the ordinary compiler and runs single cases on it.
type native struct {
	l    *loaded
	dir  string
	mu   sync.Mutex
	bins map[string]*natBin
}

type natBin struct {
	once sync.Once
	path string
	err  string
}

func newNative(l *loaded) *native {
	d, err := os.MkdirTemp("", "vcsym")
	if err != nil {
		fatal("%v", err)
	}
	return &native{l: l, dir: d, bins: map[string]*natBin{}}
}

func (n *native) close() { os.RemoveAll(n.dir) }

func (n *native) prebuild(hs []*Harness) {
	for _, h := range hs {
		if !h.NoNative {
			n.bin(h)
		}
	}
}

func (n *native) bin(h *Harness) *natBin {
	n.mu.Lock()
	b := n.bins[h.PkgPath]
	if b == nil {
		b = &natBin{}
		n.bins[h.PkgPath] = b
	}
	n.mu.Unlock()
	b.once.Do(func() { n.build(h, b) })
	return b
}

func (n *native) build(h *Harness, b *natBin) {
	dir := strings.TrimPrefix(strings.TrimPrefix(h.PkgPath, n.l.eng.module), "/")
	if dir == "" {
		dir = "."
	}
	tag := strings.ReplaceAll(dir, "/", "_")
	rep := map[string]string{}
	put := func(name string, src []byte) {
		f := filepath.Join(n.dir, tag+"_"+name)
		os.WriteFile(f, src, 0o644)
		rep[filepath.Join(repoDir, dir, name)] = f
	}
	put("zz_verif_api.go", apiSource(dir))
	var reg strings.Builder
	fmt.Fprintf(&reg, "package %s\n\nfunc init() {\n", pkgName(dir))
	for _, u := range n.l.units {
		if u.dir != dir {
			continue
		}
		put("zz_verif_"+u.name+".go", u.src)
		for _, m := range harnessRe.FindAllSubmatch(u.src, -1) {
			nm := fmt.Sprintf("VF_%s_%s", m[1], m[2])
			fmt.Fprintf(&reg, "\tvfRegistry[%q] = %s\n", nm, nm)
		}
	}
	reg.WriteString("}\n")
	put("zz_verif_reg.go", []byte(reg.String()))
	// the repository's own tests are left out of the binary
	old, _ := filepath.Glob(filepath.Join(repoDir, dir, "*_test.go"))
	for _, f := range old {
		rep[f] = ""
	}
	put("zz_verif_run_test.go", []byte(fmt.Sprintf("package %s\n\nimport \"testing\"\n\nfunc TestVerifRun(t *testing.T) { vfNativeMain() }\n", pkgName(dir))))
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(n.dir, tag+".json")
	os.WriteFile(ov, j, 0o644)
	out := filepath.Join(n.dir, tag+".test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out, "./"+dir)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if o, err := cmd.CombinedOutput(); err != nil {
		b.err = fmt.Sprintf("%v: %s", err, o)
		return
	}
	b.path = out
}

type natCase struct {
	Harness string        `json:"harness"`
	Inputs  []ReplayInput `json:"inputs"`
	Tier    string        `json:"tier"`
}

func (n *native) run(b *natBin, cases []natCase, limit time.Duration) (string, error, bool) {
	f, err := os.CreateTemp(n.dir, "case*.json")
	if err != nil {
		return "", err, false
	}
	j, _ := json.Marshal(cases)
	f.Write(j)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 8000000; exec "+b.path+" -test.run '^TestVerifRun$' -test.timeout 0")
	cmd.Dir = n.dir
	cmd.Env = append(os.Environ(), "VERIF_CASES="+f.Name())
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err = cmd.Run()
	return buf.String(), err, ctx.Err() != nil
}

// replay runs a counterexample on the compiled code.
func (n *native) replay(h *Harness, v *Violation) (bool, string) {
	b := n.bin(h)
	if b.path == "" {
		return false, "native build failed: " + b.err
	}
	limit := 20 * time.Second
	for try := 0; try < 8; try++ {
		out, err, timeout := n.run(b, []natCase{{h.Name, v.Inputs, n.l.eng.tier}}, limit)
		switch {
		case v.Kind == "hang" || v.Kind == "deadlock" || v.Kind == "livelock":
			if timeout || strings.Contains(out, "all goroutines are asleep") {
				return true, "does not terminate"
			}
		case strings.Contains(out, "VFASSERT:"):
			return true, firstLine(out, "VFASSERT:")
		case strings.Contains(out, "VFASSUME:"):
			return false, "assumption violated natively: " + firstLine(out, "VFASSUME:")
		case strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:"):
			if v.Kind == "panic" || v.Kind == "fatal" || v.Kind == "stack" || v.Kind == "assert" {
				return true, firstLine(out, "panic:") + firstLine(out, "fatal error:")
			}
		case err != nil && v.Kind == "exit":
			return true, "process exited"
		}
		if timeout {
			return false, "native run timed out"
		}
		if strings.Contains(out, "no such harness") {
			return false, "native build does not contain the harness"
		}
		if try == 7 {
			return false, "native run passed: " + tail(out)
		}
	}
	return false, ""
}

func firstLine(s, key string) string {
	i := strings.Index(s, key)
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.IndexByte(s, '\n'); j >= 0 {
		s = s[:j]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func tail(s string) string {
	if len(s) > 300 {
		s = s[len(s)-300:]
	}
	return strings.ReplaceAll(s, "\n", " / ")
}

// validate runs completed paths natively and compares what the harness observed.
func (n *native) validate(h *Harness, ss []Sample) (ok, mism int, msgs []string) {
	b := n.bin(h)
	if b.path == "" {
		return 0, 0, []string{"native build failed: " + b.err}
	}
	if len(ss) > 24 {
		ss = ss[:24]
	}
	var cases []natCase
	for _, s := range ss {
		cases = append(cases, natCase{h.Name, s.Inputs, n.l.eng.tier})
	}
	out, _, timeout := n.run(b, cases, 60*time.Second)
	if timeout {
		msgs = append(msgs, "timed out")
	}
	got := map[int]map[string]string{}
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "VFCASE ") {
			var k int
			var rest string
			l = strings.TrimPrefix(l, "VFCASE ")
			if i := strings.IndexByte(l, ' '); i > 0 {
				fmt.Sscan(l[:i], &k)
				rest = l[i+1:]
			}
			var m map[string]string
			if json.Unmarshal([]byte(rest), &m) == nil {
				got[k] = m
			}
		}
	}
	for i, s := range ss {
		g, have := got[i]
		if !have {
			mism++
			if len(msgs) < 3 {
				msgs = append(msgs, fmt.Sprintf("MISMATCH case %d did not finish: inputs %v: %s", i, s.Inputs, tail(out)))
			}
			break
		}
		bad := ""
		for k, v := range s.Obs {
			if g[k] != v {
				bad = fmt.Sprintf("%s: symbolic %s, native %s", k, v, g[k])
			}
		}
		if bad != "" {
			mism++
			if len(msgs) < 3 {
				msgs = append(msgs, fmt.Sprintf("MISMATCH %s inputs %v", bad, s.Inputs))
			}
			continue
		}
		ok++
	}
	return
}
