package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

type unit struct {
	dir  string // package directory relative to the repository
	name string
	src  []byte
	path string // overlay path in the repository
	file string
	help bool
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vcsym: "+f+"\n", a...)
	os.Exit(2)
}

var harnessRe = regexp.MustCompile(`(?m)^func VF_([A-Z0-9]+)_(\w+)\(\)`)

// findUnits collects the harness files needed for a property.
func findUnits(prop string) []*unit {
	var out []*unit
	root := filepath.Join(verifDir, "harness")
	all := map[string][]*unit{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		if rel == "root" {
			rel = "."
		}
		name := strings.TrimSuffix(filepath.Base(p), ".go")
		u := &unit{dir: rel, name: name, src: src, file: p, path: filepath.Join(repoDir, rel, "zz_verif_"+name+".go"), help: strings.HasPrefix(name, "common")}
		all[rel] = append(all[rel], u)
		return nil
	})
	for _, us := range all {
		need := false
		for _, u := range us {
			if u.help {
				continue
			}
			hit := false
			for _, m := range harnessRe.FindAllSubmatch(u.src, -1) {
				if prop == "" || string(m[1]) == prop {
					hit = true
				}
			}
			if hit {
				out = append(out, u)
				need = true
			}
		}
		if need {
			for _, u := range us {
				if u.help {
					out = append(out, u)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].path < out[j].path })
	return out
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0", "GOWORK=off")
}

func pkgName(dir string) string {
	fs, _ := filepath.Glob(filepath.Join(repoDir, dir, "*.go"))
	re := regexp.MustCompile(`(?m)^package (\w+)`)
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, _ := os.ReadFile(f)
		if m := re.FindSubmatch(b); m != nil {
			return string(m[1])
		}
	}
	return filepath.Base(dir)
}

type loaded struct {
	eng     *Engine
	pkgs    map[string]*packages.Package
	units   []*unit
	dropped []string
}

func apiSource(dir string) []byte {
	b, err := os.ReadFile(filepath.Join(verifDir, "engine", "api.go.txt"))
	if err != nil {
		fatal("%v", err)
	}
	return []byte(strings.Replace(string(b), "package PKG", "package "+pkgName(dir), 1))
}

func load(units []*unit, tier string) *loaded {
	res := &loaded{pkgs: map[string]*packages.Package{}}
	for try := 0; try < 6; try++ {
		overlay := map[string][]byte{}
		dirs := map[string]bool{}
		for _, u := range units {
			overlay[u.path] = u.src
			dirs[u.dir] = true
		}
		var pats []string
		for d := range dirs {
			overlay[filepath.Join(repoDir, d, "zz_verif_api.go")] = apiSource(d)
			pats = append(pats, "./"+d)
		}
		sort.Strings(pats)
		if len(pats) == 0 {
			return res
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repoDir, Env: goEnv(), Overlay: overlay}
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			fatal("load: %v", err)
		}
		bad := map[string]string{}
		other := ""
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				hit := false
				for _, u := range units {
					if strings.Contains(e.Pos, "zz_verif_"+u.name+".go") && strings.HasPrefix(e.Pos, filepath.Dir(u.path)+"/") {
						bad[u.path] = e.Error()
						hit = true
					}
				}
				if !hit && strings.HasPrefix(e.Pos, repoDir) {
					other = e.Error()
				}
			}
		})
		if len(bad) > 0 {
			var keep []*unit
			for _, u := range units {
				if m, ok := bad[u.path]; ok {
					res.dropped = append(res.dropped, u.dir+"/"+u.name+": "+m)
					continue
				}
				keep = append(keep, u)
			}
			units = keep
			continue
		}
		if other != "" {
			fatal("the repository does not type-check: %s", other)
		}
		prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		e := &Engine{prog: prog, tier: tier, bin: "z3", sizes: types.SizesFor("gc", "amd64")}
		if b := os.Getenv("VCSYM_SOLVER"); b != "" {
			e.bin = b
		}
		for _, p := range pkgs {
			res.pkgs[p.PkgPath] = p
			if p.Module != nil {
				e.module = p.Module.Path
			}
		}
		// build only repository packages eagerly
		for _, sp := range prog.AllPackages() {
			if e.isUser(sp.Pkg.Path()) {
				sp.Build()
			}
		}
		find := func(path, name string) types.Type {
			p := prog.ImportedPackage(path)
			if p == nil {
				return nil
			}
			o := p.Pkg.Scope().Lookup(name)
			if o == nil {
				return nil
			}
			return o.Type()
		}
		if t := find("reflect", "rtype"); t != nil {
			e.rtypePtr = types.NewPointer(t)
		}
		e.structFieldT = find("reflect", "StructField")
		if t := find("errors", "errorString"); t != nil {
			e.errStrType = types.NewPointer(t)
		}
		if t := find("runtime", "errorString"); t != nil {
			e.rtErrType = t
		} else {
			e.rtErrType = types.NewNamed(types.NewTypeName(0, nil, "runtimeError", nil), types.Typ[types.String], nil)
		}
		res.eng = e
		res.units = units
		return res
	}
	fatal("harness units keep failing to type-check: %v", res.dropped)
	return nil
}

// harnesses lists the harness functions of a property.
func (l *loaded) harnesses(prop, tier, only string) []*Harness {
	var out []*Harness
	for _, u := range l.units {
		var pkg *packages.Package
		for _, p := range l.pkgs {
			for _, f := range p.GoFiles {
				_ = f
			}
			for _, f := range p.Syntax {
				if p.Fset.Position(f.Pos()).Filename == u.path {
					pkg = p
				}
			}
		}
		if pkg == nil {
			continue
		}
		for _, f := range pkg.Syntax {
			if pkg.Fset.Position(f.Pos()).Filename != u.path {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				m := regexp.MustCompile(`^VF_([A-Z0-9]+)_(\w+)$`).FindStringSubmatch(fd.Name.Name)
				if m == nil || (prop != "" && m[1] != prop) {
					continue
				}
				if only != "" && !regexp.MustCompile(only).MatchString(fd.Name.Name) {
					continue
				}
				h := &Harness{Name: fd.Name.Name, Prop: m[1], Unit: u.dir + "/" + u.name, PkgPath: pkg.PkgPath, Preempt: 2, TPreempt: -1, MaxSteps: 3000000}
				if fd.Doc != nil {
					var doc []string
					for _, c := range fd.Doc.List {
						t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
						if strings.HasPrefix(t, "vf:") {
							h.parse(strings.TrimPrefix(t, "vf:"))
						} else {
							doc = append(doc, strings.TrimSpace(t))
						}
					}
					h.Doc = strings.Join(doc, " ")
				}
				if tier == "thorough" && h.TPreempt >= 0 {
					h.Preempt = h.TPreempt
				}
				if tier == "thorough" && h.TDelays > 0 {
					h.Delays = h.TDelays
				}
				if h.Thorough && tier != "thorough" {
					continue
				}
				// labels that must be reached
				ast.Inspect(fd, func(n ast.Node) bool {
					if c, ok := n.(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "vfReach" && len(c.Args) == 1 {
							if b, ok := c.Args[0].(*ast.BasicLit); ok {
								s, _ := strconv.Unquote(b.Value)
								h.Reach = append(h.Reach, s)
							}
						}
					}
					return true
				})
				sp := l.eng.prog.ImportedPackage(pkg.PkgPath)
				h.fn = sp.Func(fd.Name.Name)
				out = append(out, h)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func (h *Harness) parse(s string) {
	for _, f := range strings.Fields(s) {
		k, v, _ := strings.Cut(f, "=")
		n, _ := strconv.Atoi(v)
		switch k {
		case "preempt":
			h.Preempt = n
		case "tpreempt":
			h.TPreempt = n
		case "seq":
			h.Sequential = true
		case "delays":
			h.Delays = n
		case "tdelays":
			h.TDelays = n
		case "steps":
			h.MaxSteps = n
		case "hang":
			h.HangCheck = true
		case "nofree":
			h.NoFree, h.Sequential = true, true
		case "concslice":
			h.ConcSlice = true
		case "maporder":
			h.MapOrder = true
		case "thorough":
			h.Thorough = true
		case "nonative":
			h.NoNative = true
		case "time":
			h.TimeLimit = time.Duration(n) * time.Second
		default:
			fatal("directive %q of %s", f, h.Name)
		}
	}
}

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fatal("usage: vcsym check PROP | list")
	}
	prop, tier, only := "", "quick", ""
	workers, dbg, noNative := 8, false, false
	budget := 0
	for i := 2; i < len(os.Args); i++ {
		a := os.Args[i]
		switch {
		case a == "-tier":
			i++
			tier = os.Args[i]
		case a == "-only":
			i++
			only = os.Args[i]
		case a == "-w":
			i++
			workers, _ = strconv.Atoi(os.Args[i])
		case a == "-budget":
			i++
			budget, _ = strconv.Atoi(os.Args[i])
		case a == "-repo":
			i++
			repoDir = os.Args[i]
		case a == "-debug":
			dbg = true
		case a == "-nonative":
			noNative = true
		default:
			prop = a
		}
	}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(prop, tier, only, workers, budget, dbg, noNative))
	default:
		fatal("unknown command")
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

// loadKnown reads the known findings (lines "known: {json}").
func loadKnown() []knownFinding {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: ") {
			var k knownFinding
			if err := json.Unmarshal([]byte(strings.TrimPrefix(l, "known: ")), &k); err == nil {
				out = append(out, k)
			}
		}
	}
	return out
}

func runCheck(prop, tier, only string, workers, budget int, dbg, noNative bool) int {
	t0 := time.Now()
	if budget == 0 {
		budget = 600
		if tier == "thorough" {
			budget = 3000
		}
	}
	units := findUnits(prop)
	if len(units) == 0 {
		fatal("no harness for property %s", prop)
	}
	l := load(units, tier)
	var notes []string
	for _, d := range l.dropped {
		notes = append(notes, "INCONCLUSIVE harness unit does not fit the current source: "+d)
		logf("note: %s", notes[len(notes)-1])
	}
	var hs []*Harness
	if l.eng != nil {
		l.eng.debug = dbg
		hs = l.harnesses(prop, tier, only)
	}
	logf("loaded in %.1fs, %d harnesses", time.Since(t0).Seconds(), len(hs))
	deadline := t0.Add(time.Duration(budget) * time.Second)
	nat := newNative(l)
	defer nat.close()
	if !noNative {
		go nat.prebuild(hs)
	}
	known := loadKnown()
	ev := newEvidence(prop, tier)
	exit := 0
	nviol := 0
	printedKnown := map[string]bool{}
	for _, h := range hs {
		if time.Now().After(deadline) {
			notes = append(notes, "not started within the time budget: "+h.Name)
			continue
		}
		r := l.eng.explore(h, workers, deadline)
		logf("%-44s paths=%d inf=%d unsup=%d bound=%d q=%d (%.1fs solver) steps=%d rounds=%d racy=%d wall=%.1fs complete=%v viol=%d", h.Name, r.Stats.Paths, r.Stats.Infeasible, r.Stats.Unsupported, r.Stats.StepLimited, r.Stats.Queries, float64(r.Stats.SolverNs)/1e9, r.Stats.Steps, r.Rounds, r.Racy, r.Wall.Seconds(), r.Complete, len(r.Viol))
		for _, n := range sortedNotes(r.Notes) {
			notes = append(notes, h.Name+": "+n)
			logf("   note: %s", n)
		}
		if dbg {
			type kv struct {
				k string
				n int
			}
			var ps []kv
			for k, n := range r.Prof {
				ps = append(ps, kv{k, n})
			}
			sort.Slice(ps, func(i, j int) bool { return ps[i].n > ps[j].n })
			for i := 0; i < len(ps) && i < 12; i++ {
				logf("   fork %d at %s", ps[i].n, ps[i].k)
			}
		}
		if r.Complete && len(r.Viol) == 0 {
			for _, lab := range h.Reach {
				if r.Reached[lab] == 0 {
					notes = append(notes, h.Name+": VACUOUS label never reached: "+lab)
					logf("   VACUOUS: %s", lab)
				}
			}
		}
		validated, mism := 0, 0
		if !noNative && !h.NoNative && len(r.Samples) > 0 && len(r.Viol) == 0 {
			var msgs []string
			validated, mism, msgs = nat.validate(h, r.Samples)
			for _, m := range msgs {
				notes = append(notes, h.Name+": native validation: "+m)
				logf("   native: %s", m)
			}
		}
		confirmed := 0
		for _, v := range r.Viol {
			if k := matchKnown(known, prop, v); k != nil {
				if !printedKnown[k.What] {
					printedKnown[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				}
				continue
			}
			ok := false
			switch {
			case noNative && only != "" && dbg:
				v.Status = "not replayed"
				ok = true
			case v.Conc || v.Kind == "alloc" || v.Kind == "memory" || h.NoNative:
				if rv := l.eng.rerun(h, v); rv != nil {
					v.Status = "confirmed by deterministic re-execution of the schedule on the compiled SSA"
					ok = true
				} else {
					v.Status = "not reproduced by re-execution"
				}
			default:
				var out string
				ok, out = nat.replay(h, v)
				if ok {
					v.Status = "confirmed by running the compiled Go code natively: " + out
				} else {
					v.Status = "not reproduced natively: " + out
				}
			}
			logf("   violation: [%s] %s\n      at %s\n      inputs %v\n      %s", v.Kind, v.Msg, v.Pos, v.Inputs, v.Status)
			if len(v.Sched) > 0 {
				logf("      schedule %s", strings.Join(v.Sched, " | "))
			}
			if !ok {
				notes = append(notes, h.Name+": UNCONFIRMED counterexample: "+v.Msg+" ("+v.Status+")")
				continue
			}
			confirmed++
			nviol++
			path := writeReplay(prop, h, v, nviol)
			if exit == 0 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			}
			exit = 1
		}
		ev.add(h, r, validated, mism, confirmed)
		if exit == 1 && only == "" {
			break // one confirmed violation decides the check
		}
	}
	ev.finish(notes, nviol, time.Since(t0), l)
	if exit == 0 {
		logf("%s: held on everything explored (%.1fs)", prop, time.Since(t0).Seconds())
	}
	return exit
}

func matchKnown(ks []knownFinding, prop string, v *Violation) *knownFinding {
	for i := range ks {
		k := &ks[i]
		if k.Property != prop || (k.Harness != "" && k.Harness != v.Harness) {
			continue
		}
		ok, _ := regexp.MatchString(k.Match, v.Msg+" "+v.Pos)
		if ok {
			return k
		}
	}
	return nil
}

func writeReplay(prop string, h *Harness, v *Violation, n int) string {
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, h.Name, n))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}
