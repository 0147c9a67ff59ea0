package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one SMT solver process; assertions live in one scope per path.
type Solver struct {
	p       *Pool
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	emitted map[*Term]bool
	decl    map[string]bool
	leaves  []*Term
	pathOn  bool
	timeout int // ms

	queries  int64
	sat      int64
	unsat    int64
	unknown  int64
	solverNs int64
	errs     []string
	tee      *strings.Builder
}

func newSolver(p *Pool, bin string, timeout int) *Solver {
	s := &Solver{p: p, bin: bin, timeout: timeout}
	if slowLog != "" {
		s.tee = &strings.Builder{}
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.raw("(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout)
	s.pathOn = false
	s.emitted = map[*Term]bool{}
	s.decl = map[string]bool{}
	s.leaves = nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) raw(f string, args ...interface{}) {
	t := f
	if len(args) > 0 {
		t = fmt.Sprintf(f, args...)
	}
	if s.tee != nil {
		s.tee.WriteString(t)
	}
	s.in.WriteString(t)
}

// newPath drops everything asserted so far.
func (s *Solver) newPath() {
	if s.pathOn {
		s.raw("(pop 1)\n")
	}
	s.pathOn = false
	if len(s.emitted) > 0 {
		s.emitted = map[*Term]bool{}
		s.decl = map[string]bool{}
		s.leaves = nil
	}
}

func (s *Solver) scope() {
	if !s.pathOn {
		if s.tee != nil {
			s.tee.Reset()
		}
		s.raw("(push 1)\n")
		s.pathOn = true
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return t.constText()
	case OVar:
		return symName(t.name)
	}
	return "t" + strconv.Itoa(int(t.id))
}

// emit defines t and everything below it in the path scope.
func (s *Solver) emit(t *Term) {
	if t.op == OConst || s.emitted[t] {
		return
	}
	for i := 0; i < int(t.n); i++ {
		s.emit(t.a[i])
	}
	s.emitted[t] = true
	switch t.op {
	case OVar:
		if !s.decl[t.name] {
			s.decl[t.name] = true
			s.raw("(declare-const %s %s)\n", symName(t.name), sortText(t.w))
		}
		s.leaves = append(s.leaves, t)
		return
	case OSelect, OUF:
		if !s.decl[t.name] {
			s.decl[t.name] = true
			s.raw("(declare-fun %s (%s) %s)\n", symName(t.name), sortText(t.a[0].w), sortText(t.w))
		}
		s.leaves = append(s.leaves, t)
		s.raw("(define-fun t%d () %s (%s %s))\n", t.id, sortText(t.w), symName(t.name), s.ref(t.a[0]))
		return
	case OExtract:
		s.raw("(define-fun t%d () %s ((_ extract %d %d) %s))\n", t.id, sortText(t.w), t.k+uint64(t.w)-1, t.k, s.ref(t.a[0]))
		return
	case OZext:
		s.raw("(define-fun t%d () %s ((_ zero_extend %d) %s))\n", t.id, sortText(t.w), t.w-t.a[0].w, s.ref(t.a[0]))
		return
	case OSext:
		s.raw("(define-fun t%d () %s ((_ sign_extend %d) %s))\n", t.id, sortText(t.w), t.w-t.a[0].w, s.ref(t.a[0]))
		return
	}
	var b strings.Builder
	fmt.Fprintf(&b, "(define-fun t%d () %s (%s", t.id, sortText(t.w), opText[t.op])
	for i := 0; i < int(t.n); i++ {
		b.WriteByte(' ')
		b.WriteString(s.ref(t.a[i]))
	}
	b.WriteString("))\n")
	s.raw("%s", b.String())
}

func (s *Solver) assert(t *Term) {
	s.scope()
	s.emit(t)
	s.raw("(assert %s)\n", s.ref(t))
}

type satResult int

const (
	rUnknown satResult = iota
	rSat
	rUnsat
)

// check asks whether the path constraints together with extra are satisfiable.
func (s *Solver) check(extra *Term, wantModel bool) (satResult, *Model) {
	s.scope()
	if extra != nil {
		s.emit(extra)
		s.raw("(push 1)\n(assert %s)\n", s.ref(extra))
	}
	s.raw("(check-sat)\n")
	if s.tee != nil && queryLog != nil {
		queryLog(s.tee.String())
	}
	t0 := time.Now()
	s.in.Flush()
	s.queries++
	line := s.readLine()
	res := rUnknown
	switch line {
	case "sat":
		res = rSat
		s.sat++
	case "unsat":
		res = rUnsat
		s.unsat++
	default:
		s.unknown++
		if strings.HasPrefix(line, "(error") || line == "" {
			s.errs = append(s.errs, line)
		}
	}
	var m *Model
	if res == rSat && wantModel {
		m = s.model()
	}
	if d := time.Since(t0); slowLog != "" && d > slowMin {
		slowN++
		os.WriteFile(fmt.Sprintf("%s/q%d_%s_%dms.smt2", slowLog, slowN, line, d.Milliseconds()), []byte(s.tee.String()), 0o644)
	}
	s.solverNs += int64(time.Since(t0))
	if extra != nil {
		s.raw("(pop 1)\n")
	}
	return res, m
}

var queryLog func(string)
var slowLog = os.Getenv("VCSYM_SLOWLOG")
var slowN int
var slowMin = 60 * time.Millisecond

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil && err != io.EOF {
			return ""
		}
		if t := strings.TrimSpace(l); t != "" || err != nil {
			return t
		}
	}
}

// readSexp reads one balanced s-expression.
func (s *Solver) readSexp() string {
	var b strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return b.String()
		}
		if c == '|' {
			inBar = !inBar
		}
		if !inBar {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		b.WriteByte(c)
		if depth == 0 && c == ')' {
			return b.String()
		}
	}
}

func parseVal(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		n, _ := strconv.ParseUint(v[2:], 16, 64)
		return n
	case strings.HasPrefix(v, "#b"):
		n, _ := strconv.ParseUint(v[2:], 2, 64)
		return n
	}
	panic("value " + v)
}

func (s *Solver) model() *Model {
	m := newModel()
	// values of leaves and of the indices of select/uf leaves
	var ask []*Term
	for _, l := range s.leaves {
		ask = append(ask, l)
		if l.op != OVar && !l.a[0].isConst() {
			ask = append(ask, l.a[0])
		}
	}
	if len(ask) == 0 {
		return m
	}
	val := map[*Term]uint64{}
	for len(ask) > 0 {
		n := len(ask)
		if n > 400 {
			n = 400
		}
		part := ask[:n]
		ask = ask[n:]
		s.raw("(get-value (")
		for _, t := range part {
			s.raw("%s ", s.ref(t))
		}
		s.raw("))\n")
		s.in.Flush()
		txt := s.readSexp()
		toks := tokenize(txt)
		// ( ( expr value ) ( expr value ) ... ); the solver may print expr expanded, so the value is the last token
		depth, k := 0, 0
		if len(toks) > 1 && toks[1] == "error" {
			panic("solver: " + txt)
		}
		for i, tk := range toks {
			switch tk {
			case "(":
				depth++
			case ")":
				depth--
				if depth == 1 && k < len(part) {
					val[part[k]] = parseVal(toks[i-1])
					k++
				}
			}
		}
		if k != len(part) {
			panic("solver: bad model text " + txt)
		}
	}
	for _, l := range s.leaves {
		v := val[l]
		switch l.op {
		case OVar:
			m.vars[l.name] = v
		default:
			i := l.a[0].k
			if !l.a[0].isConst() {
				i = val[l.a[0]]
			}
			tab := m.sel
			if l.op == OUF {
				tab = m.uf
			}
			if tab[l.name] == nil {
				tab[l.name] = map[uint64]uint64{}
			}
			tab[l.name][i] = v
		}
	}
	return m
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		switch c := s[i]; {
		case c == ' ' || c == '\n' || c == '\r' || c == '\t':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|') + i + 2
			out = append(out, s[i:j])
			i = j
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\r\t()", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}
