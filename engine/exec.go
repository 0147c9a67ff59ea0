package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type endKind int

const (
	endDone endKind = iota
	endInfeasible
	endViolation
	endUnsupported
	endSteps
	endUnknown
	endExit
)

type pathEnd struct {
	kind endKind
	msg  string
}

// goPanic is a Go-level panic raised by the interpreted program.
type goPanic struct{ v V }

type fnInfo struct {
	idx  map[ssa.Value]int
	intr intrinsic
	n    int
	name string
	user bool // repository or harness code
	vf   bool // harness code
}

type deferred struct {
	call *ssa.CallCommon
	fn   V
	args []V
	recv V
	pos  ssa.Instruction
}

type Frame struct {
	fn        *ssa.Function
	info      *fnInfo
	regs      []V
	blk, prev *ssa.BasicBlock
	pc        int
	defers    []deferred
	rundef    bool // running defers at normal exit
	deferOf   *Frame
	ret       func(V) // overrides storing the result into the caller
	calls     *ssa.Call
	free      []V
	nat       func(f *Frame) (V, stepAct) // engine-implemented body
}

type panicRec struct {
	val       V
	frame     *Frame
	recovered bool
	trace     string
}

type G struct {
	id        int
	bg        bool // descends from package initialisation
	frames    []*Frame
	done      bool
	wait      func() bool // nil: runnable
	waitWhy   string
	quiesce   int // >0: waits for the others to be idle
	granted   bool
	pendMap   *MapV
	pendWrite bool
	yielded   bool
	panics    []*panicRec
	cw        *condWaiter
	native    func()
	spin      int
	name      string
	vc        map[int]int
	locks     map[*Cell]bool
	blocked   *selState
	calls     int
}

func (g *G) top() *Frame { return g.frames[len(g.frames)-1] }

type input struct {
	name string
	kind string // u8.. u64 bool int bytes choose
	t    *Term
	n    *Term // bytes: length
	max  int
	base string
	con  uint64
}

type observation struct {
	name string
	t    *Term
	bs   []*Term
}

// Exec is the execution of one path.
type Exec struct {
	w         *Worker
	h         *Harness
	p         *Pool
	s         *Solver
	prefix    []uint64
	dec       []uint64
	newWork   []*Item
	pc        []*Term
	fixed     map[*Term]*Term // variables with a fixed value on this path
	substMemo map[*Term]*Term
	pcSet     map[*Term]bool // term -> value
	emitted   int
	started   bool
	model     *Model
	fresh     map[string]int
	inputs    []input
	obs       []observation

	globals map[*ssa.Global]*Cell
	gs      []*G
	main    *G
	initGs  int
	delays  int // schedule choices other than the first one
	idle    int // clock advances since a goroutine of the harness ran
	cur     *G
	preempt int
	steps   int
	objs    int
	conc    bool
	sched   []string
	trace   []string

	mutexes map[*Cell]*mutexState
	conds   map[*Cell]*condState
	wgs     map[*Cell]*wgState
	pools   map[*Cell][]poolItem
	atomVC  map[interface{}]map[int]int
	locals  map[string]V
	race    map[interface{}]*raceMeta
	timers  []*timerObj
	clock   *Term
	typeIDs map[string]uint64

	reached  map[string]bool
	asserts  int
	allocMax *Term
	viol     *Violation
	lastPos  token.Pos
	known    map[*Term]int8
	inInit   bool
}

type Item struct {
	dec   []uint64
	model *Model
}

type Violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Pos     string            `json:"pos"`
	Inputs  []ReplayInput     `json:"inputs"`
	Sched   []string          `json:"schedule,omitempty"`
	Trace   string            `json:"trace,omitempty"`
	Dec     []uint64          `json:"decisions,omitempty"`
	Conc    bool              `json:"concurrent"`
	Obs     map[string]string `json:"obs,omitempty"`
	Status  string            `json:"status,omitempty"`
	Kind    string            `json:"kind"`
}

type ReplayInput struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
	Hex  string `json:"hex,omitempty"`
	Len  int    `json:"len,omitempty"`
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := x.w.prog.Fset.Position(p)
	f := ps.Filename
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) where() string {
	if x.cur == nil || len(x.cur.frames) == 0 {
		return ""
	}
	var b strings.Builder
	for i := len(x.cur.frames) - 1; i >= 0 && i > len(x.cur.frames)-8; i-- {
		f := x.cur.frames[i]
		if f.fn == nil {
			continue
		}
		pos := token.NoPos
		if f.blk != nil && f.pc < len(f.blk.Instrs) {
			pos = f.blk.Instrs[f.pc].Pos()
			for k := f.pc; !pos.IsValid() && k >= 0; k-- {
				pos = f.blk.Instrs[k].Pos()
			}
		}
		fmt.Fprintf(&b, " @ %s (%s)", f.fn.String(), x.posStr(pos))
	}
	return b.String()
}

// ---- decisions ----

func (x *Exec) assume(c *Term) {
	c = x.subst(c)
	if c.isTrue() {
		return
	}
	if c.op == OAnd {
		x.assume(c.a[0])
		x.assume(c.a[1])
		return
	}
	x.pc = append(x.pc, c)
	if c.op == OEq && c.a[0].w > 0 {
		x.learn(c.a[0], c.a[1])
		x.learn(c.a[1], c.a[0])
	}
	if c.op == ONot {
		x.pcSet[c.a[0]] = false
	} else {
		x.pcSet[c] = true
	}
}

// learn records that a variable has a fixed value on this path.
func (x *Exec) learn(v, c *Term) {
	if !c.isConst() || !(v.op == OVar || v.op == OSelect && v.a[0].isConst()) {
		return
	}
	if x.fixed == nil {
		x.fixed = map[*Term]*Term{}
	}
	if x.fixed[v] == nil {
		x.fixed[v] = c
		x.substMemo = map[*Term]*Term{}
	}
}

// subst replaces variables which have a fixed value on this path.
func (x *Exec) subst(t *Term) *Term {
	if x.fixed == nil || t.op == OConst {
		return t
	}
	if c := x.fixed[t]; c != nil {
		return c
	}
	if t.n == 0 {
		return t
	}
	if r := x.substMemo[t]; r != nil {
		return r
	}
	var a [3]*Term
	same := true
	for i := 0; i < int(t.n); i++ {
		a[i] = x.subst(t.a[i])
		same = same && a[i] == t.a[i]
	}
	r := t
	if !same {
		r = x.p.rebuild(t, a)
	}
	x.substMemo[t] = r
	return r
}

func (x *Exec) flush() {
	if !x.started {
		x.s.newPath()
		x.started = true
	}
	for ; x.emitted < len(x.pc); x.emitted++ {
		x.s.assert(x.pc[x.emitted])
	}
}

func (x *Exec) query(extra *Term) (satResult, *Model) {
	x.flush()
	return x.s.check(extra, true)
}

// holdsNow evaluates c in the current model.
func (x *Exec) evalModel(c *Term) (v, ok bool) {
	if x.model == nil {
		return false, false
	}
	u, _ := x.model.Eval(c, true)
	return u == 1, true
}

func (x *Exec) inPrefix() bool { return len(x.dec) < len(x.prefix) }

func (x *Exec) lookupPC(c *Term) (v, ok bool) {
	if c.op == ONot {
		v, ok = x.pcSet[c.a[0]]
		return !v, ok
	}
	v, ok = x.pcSet[c]
	return
}

// branch decides a symbolic condition, forking when both sides are possible.
func (x *Exec) branch(c *Term) bool {
	c = x.subst(c)
	if c.isConst() {
		return c.k == 1
	}
	if v, ok := x.lookupPC(c); ok {
		return v
	}
	if x.inPrefix() {
		d := x.prefix[len(x.dec)]
		x.dec = append(x.dec, d)
		if d == 1 {
			x.assume(c)
		} else {
			x.assume(x.p.Not(c))
		}
		return d == 1
	}
	nc := x.p.Not(c)
	var first bool
	v, ok := x.evalModel(c)
	if ok {
		first = v
	} else {
		r, m := x.query(c)
		switch r {
		case rSat:
			x.model = m
			first = true
		case rUnsat:
			first = false
			// the path itself is feasible, so the other side is
			x.dec = append(x.dec, 0)
			x.assume(nc)
			return false
		default:
			x.w.stats.Unknown++
			r2, m2 := x.query(nc)
			if r2 == rSat {
				x.model = m2
				x.dec = append(x.dec, 0)
				x.assume(nc)
				return false
			}
			panic(pathEnd{kind: endUnknown, msg: "solver unknown on branch" + x.where()})
		}
	}
	other := nc
	if !first {
		other = c
	}
	r, m := x.query(other)
	if r == rSat {
		alt := append(append([]uint64(nil), x.dec...), b2u(!first))
		x.newWork = append(x.newWork, &Item{dec: alt, model: m})
		x.w.profile(x)
	} else if r == rUnknown {
		x.w.stats.Unknown++
	}
	x.dec = append(x.dec, b2u(first))
	if first {
		x.assume(c)
	} else {
		x.assume(nc)
	}
	return first
}

// knownTrue asks whether the path implies c (no fork).
func (x *Exec) knownTrue(c *Term) bool {
	if c.isConst() {
		return c.k == 1
	}
	if v, ok := x.lookupPC(c); ok {
		return v
	}
	if v, ok := x.evalModel(c); ok && !v {
		return false
	}
	if k, ok := x.known[c]; ok && k == 1 {
		return true
	} else if ok && int(k) == -1 {
		// could have become true with later constraints; ask again only rarely
		return false
	}
	r, _ := x.query(x.p.Not(c))
	if r == rUnsat {
		x.known[c] = 1
		return true
	}
	x.known[c] = -1
	return false
}
func (x *Exec) knownFalse(c *Term) bool { return x.knownTrue(x.p.Not(c)) }

// choose forks over n concrete alternatives without consulting the solver.
func (x *Exec) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if x.inPrefix() {
		d := x.prefix[len(x.dec)]
		x.dec = append(x.dec, d)
		return int(d)
	}
	for i := n - 1; i >= 1; i-- {
		alt := append(append([]uint64(nil), x.dec...), uint64(i))
		x.newWork = append(x.newWork, &Item{dec: alt, model: x.model})
	}
	x.dec = append(x.dec, 0)
	return 0
}

// concretize forks over all feasible values of t.
func (x *Exec) concretize(t *Term, limit int, why string) uint64 {
	t = x.subst(t)
	if t.isConst() {
		return t.k
	}
	if x.inPrefix() {
		d := x.prefix[len(x.dec)]
		x.dec = append(x.dec, d)
		x.assume(x.p.Eq(t, x.p.BV(t.w, d)))
		return d
	}
	var first uint64
	have := false
	if x.model != nil {
		if v, ok := x.model.Eval(t, true); ok {
			first, have = v, true
		}
	}
	excl := x.p.T
	if have {
		excl = x.p.Not(x.p.Eq(t, x.p.BV(t.w, first)))
	}
	n := 1
	for {
		if n > limit {
			x.w.stats.ConcCapped++
			x.w.note("concretisation capped at %d values (%s)%s", limit, why, x.where())
			break
		}
		x.flush()
		x.s.emit(t)
		r, m := x.query(excl)
		if r == rUnknown {
			x.w.stats.Unknown++
			break
		}
		if r == rUnsat {
			break
		}
		v, ok := m.Eval(t, true)
		if !ok {
			break
		}
		if !have {
			first, have = v, true
			x.model = m
		} else {
			alt := append(append([]uint64(nil), x.dec...), v)
			x.newWork = append(x.newWork, &Item{dec: alt, model: m})
			n++
		}
		excl = x.p.And(excl, x.p.Not(x.p.Eq(t, x.p.BV(t.w, v))))
	}
	if !have {
		panic(pathEnd{kind: endInfeasible})
	}
	x.dec = append(x.dec, first)
	x.assume(x.p.Eq(t, x.p.BV(t.w, first)))
	return first
}

// check decides an assertion of the property.
func (x *Exec) check(c *Term, msg string) {
	c = x.subst(c)
	x.asserts++
	if c.isTrue() {
		if !x.inPrefix() {
			x.w.stats.Trivial++
		}
		return
	}
	if x.inPrefix() {
		x.assume(c)
		return
	}
	nc := x.p.Not(c)
	if v, ok := x.evalModel(c); ok && !v {
		x.w.stats.Asserts++
		x.violation("assert", msg, x.model)
	}
	r, m := x.query(nc)
	x.w.stats.Asserts++
	switch r {
	case rSat:
		x.violation("assert", msg, m)
	case rUnknown:
		x.w.stats.Unknown++
		x.w.note("assertion %q undecided by the solver%s", msg, x.where())
	case rUnsat:
		x.w.stats.Discharged++
	}
	x.assume(c)
}

func (x *Exec) ensureModel() {
	x.flush()
	r, m := x.s.check(nil, true)
	if r == rSat {
		x.model = m
	} else if r == rUnsat {
		panic(pathEnd{kind: endInfeasible})
	} else {
		panic(pathEnd{kind: endUnknown, msg: "solver unknown on path"})
	}
}

// violation records a counterexample and ends the path.
func (x *Exec) violation(kind, msg string, m *Model) {
	if m == nil || len(x.pc) > 0 {
		// make sure the path constraints are satisfied by the model we report
		if m == nil {
			x.ensureModel()
			m = x.model
		}
	}
	pos := ""
	if kind != "deadlock" {
		pos = x.where()
	}
	v := &Violation{Harness: x.h.Name, Msg: msg, Pos: strings.TrimSpace(pos), Kind: kind, Conc: x.conc || len(x.gs) > x.initGs+1, Sched: append([]string(nil), x.sched...)}
	v.Dec = append([]uint64(nil), x.dec...)
	v.Inputs = x.replayInputs(m)
	v.Obs = x.obsValues(m)
	x.viol = v
	panic(pathEnd{kind: endViolation, msg: msg})
}

func (x *Exec) obsValues(m *Model) map[string]string {
	r := map[string]string{}
	for _, o := range x.obs {
		if o.bs != nil {
			s := ""
			for _, b := range o.bs {
				v, _ := m.Eval(b, true)
				s += fmt.Sprintf("%02x", v)
			}
			r[o.name] = "h" + s
			continue
		}
		v, _ := m.Eval(o.t, true)
		r[o.name] = fmt.Sprint(v)
	}
	return r
}

func (x *Exec) replayInputs(m *Model) []ReplayInput {
	var out []ReplayInput
	for _, in := range x.inputs {
		ri := ReplayInput{Name: in.name, Kind: in.kind}
		switch in.kind {
		case "bytes":
			n, _ := m.Eval(in.n, true)
			ri.Len = int(n)
			b := make([]byte, n)
			for i := range b {
				if v, ok := m.get(m.sel, in.base, uint64(i)); ok {
					b[i] = byte(v)
				}
			}
			ri.Hex = fmt.Sprintf("%x", b)
		case "choose":
			ri.Val = in.con
		default:
			ri.Val, _ = m.Eval(in.t, true)
		}
		out = append(out, ri)
	}
	return out
}

func (x *Exec) freshName(n string) string {
	k := x.fresh[n]
	x.fresh[n] = k + 1
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

// ---- running ----

func (x *Exec) throw(v V) { panic(goPanic{v}) }

// rtPanic raises a run-time panic with a message.
func (x *Exec) rtPanic(f string, args ...interface{}) {
	msg := fmt.Sprintf(f, args...)
	x.throw(Iface{t: x.w.eng.rtErrType, v: Str{s: "runtime error: " + msg}})
}

func (x *Exec) strPanic(msg string) { x.throw(Iface{t: types.Typ[types.String], v: Str{s: msg}}) }

func (x *Exec) info(fn *ssa.Function) *fnInfo { return x.w.eng.fnInfo(fn) }

func (e *Engine) fnInfo(fn *ssa.Function) *fnInfo {
	if v, ok := e.infos.Load(fn); ok {
		return v.(*fnInfo)
	}
	e.buildMu.Lock()
	if fn.Blocks == nil {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		} else if o := fn.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
	}
	e.buildMu.Unlock()
	in := &fnInfo{idx: map[ssa.Value]int{}, name: fn.String()}
	in.intr = e.findIntrinsic(fn)
	for _, p := range fn.Params {
		in.idx[p] = in.n
		in.n++
	}
	for _, p := range fn.FreeVars {
		in.idx[p] = in.n
		in.n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				in.idx[v] = in.n
				in.n++
			}
		}
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	pkg := f.Pkg
	if pkg == nil && f.Origin() != nil {
		pkg = f.Origin().Pkg
	}
	if pkg == nil && f.Signature.Recv() != nil {
		// wrappers
		if o := f.Object(); o != nil && o.Pkg() != nil && e.isUser(o.Pkg().Path()) {
			in.user = true
		}
	}
	if pkg != nil && e.isUser(pkg.Pkg.Path()) {
		in.user = true
		if p := f.Pos(); p.IsValid() {
			fnm := e.prog.Fset.Position(p).Filename
			if strings.Contains(fnm, "zz_verif_") {
				in.vf = true
			}
		}
	}
	v, _ := e.infos.LoadOrStore(fn, in)
	return v.(*fnInfo)
}

func (e *Engine) isUser(path string) bool {
	return path == e.module || strings.HasPrefix(path, e.module+"/")
}

func (x *Exec) newFrame(fn *ssa.Function, args []V, free []V) *Frame {
	in := x.info(fn)
	if len(fn.Blocks) == 0 {
		x.unsupported("function without body %s", fn)
	}
	if in.user {
		x.w.touch(fn)
	}
	f := &Frame{fn: fn, info: in, regs: make([]V, in.n), blk: fn.Blocks[0], free: free}
	if len(args) != len(fn.Params) {
		x.unsupported("arity %s: %d args for %d params", fn, len(args), len(fn.Params))
	}
	copy(f.regs, args)
	copy(f.regs[len(args):], free)
	return f
}

func (x *Exec) spawn(fn V, args []V, name string) *G {
	g := &G{id: len(x.gs), name: name, vc: map[int]int{}, locks: map[*Cell]bool{}}
	g.bg = x.inInit || x.cur != nil && x.cur.bg
	if x.cur != nil {
		for k, v := range x.cur.vc {
			g.vc[k] = v
		}
		x.cur.vc[x.cur.id]++
	}
	g.vc[g.id] = 1
	x.gs = append(x.gs, g)
	c := fn.(*Closure)
	if c == nil {
		x.rtPanic("go of nil func value")
	}
	if c.native != nil {
		g.native = func() { c.native(x, args) }
		return g
	}
	g.frames = []*Frame{x.makeFrame(g, c, args)}
	return g
}

// run executes the path until it ends.
func (x *Exec) run(main *ssa.Function) (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(pathEnd); ok {
				end = pe
				return
			}
			panic(r)
		}
	}()
	x.clock = x.p.Int(clockStart)
	if x.inPrefix() == false && x.model == nil {
		x.model = newModel()
	}
	x.initPackages()
	x.cur = nil
	g := x.spawn(&Closure{fn: main}, nil, "main")
	x.main = g
	x.cur = g
	x.schedLoop()
	return pathEnd{kind: endDone}
}

// runNested runs a function to completion on a private goroutine without scheduling (package initialisation).
func (x *Exec) runNested(fn *ssa.Function) {
	saved := x.cur
	g := &G{id: -1, name: "init", vc: map[int]int{}, locks: map[*Cell]bool{}}
	g.frames = []*Frame{x.newFrame(fn, nil, nil)}
	x.cur = g
	old := x.inInit
	x.inInit = true
	for len(g.frames) > 0 {
		x.slice(g)
		if g.wait != nil {
			x.unsupported("blocking in package initialisation")
		}
	}
	x.inInit = old
	x.cur = saved
}

func (x *Exec) schedLoop() {
	for {
		g := x.cur
		x.slice(g)
		if x.main.done {
			return
		}
		x.pick()
	}
}

// enabledList lists goroutines that can run.
func (x *Exec) enabledList() []*G {
	var out []*G
	for _, g := range x.gs {
		if g.done || g.quiesce > 0 {
			continue
		}
		if g.wait == nil || g.wait() {
			out = append(out, g)
		}
	}
	return out
}

const timerAlt = 1000

func (x *Exec) pick() {
	cur := x.cur
	for {
		E := x.enabledList()
		due := x.dueTimers()
		if len(E) == 0 && len(due) == 0 {
			// quiescent: wake a goroutine waiting for that, lowest level first
			var q *G
			for _, g := range x.gs {
				if !g.done && g.quiesce > 0 && (q == nil || g.quiesce < q.quiesce) {
					q = g
				}
			}
			if q != nil {
				q.quiesce = 0
				q.wait = nil
				q.granted = true
				x.switchTo(q)
				return
			}
			// timers of package-level goroutines go on forever: they do not count as progress
			if x.idle++; x.idle < 40 && x.idleAdvance() {
				continue
			}
			x.deadlock()
		}
		curOn := false
		for _, g := range E {
			if g == cur {
				curOn = true
			}
		}
		var alts []int
		if curOn && !cur.yielded {
			alts = append(alts, cur.id)
			if x.preempt < x.h.Preempt && !x.h.Sequential {
				for _, g := range E {
					if g != cur {
						alts = append(alts, g.id)
					}
				}
				for _, t := range due {
					alts = append(alts, timerAlt+t)
				}
			}
		} else {
			for _, g := range E {
				if g == cur && len(E)+len(due) > 1 {
					continue // yielded: let somebody else go first
				}
				alts = append(alts, g.id)
			}
			for _, t := range due {
				alts = append(alts, timerAlt+t)
			}
			if len(alts) > 1 && x.h.FreeSwitch >= 0 {
				// deterministic order, all alternatives explored
				sort.Ints(alts)
			}
		}
		if cur.yielded {
			if len(E)+len(due) <= 1 {
				cur.spin++
				if cur.spin > 200 {
					x.violation("livelock", "goroutine spins forever waiting for something that never happens", nil)
				}
			} else {
				cur.spin = 0
			}
		}
		k := 0
		if len(alts) > 1 && !x.h.NoFree && (x.h.Delays == 0 || x.delays < x.h.Delays) {
			if k = x.schedChoice(alts); k > 0 {
				x.delays++
			}
		}
		a := alts[k]
		if curOn && !cur.yielded && a != cur.id {
			x.preempt++
		}
		cur.yielded = false
		if a >= timerAlt {
			x.fireTimer(a - timerAlt)
			continue
		}
		g := x.gs[a]
		g.wait = nil
		g.granted = true
		x.switchTo(g)
		return
	}
}

// schedChoice introduces a schedule variable and forks over its values.
func (x *Exec) schedChoice(alts []int) int {
	x.w.stats.SchedVars++
	v := x.p.Var(x.freshName("sched"), 16)
	k := x.choose(len(alts))
	x.assume(x.p.Eq(v, x.p.BV(16, uint64(alts[k]))))
	return k
}

func (x *Exec) switchTo(g *G) {
	if !g.bg {
		x.idle = 0
	}
	if g != x.cur && !g.bg {
		x.sched = append(x.sched, fmt.Sprintf("%d:%s", g.id, x.gloc(g)))
	}
	x.cur = g
}

func (x *Exec) gloc(g *G) string {
	if len(g.frames) == 0 {
		return g.name
	}
	// innermost user frame
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		if f.fn == nil || !f.info.user {
			continue
		}
		pos := token.NoPos
		for k := f.pc; k >= 0 && !pos.IsValid(); k-- {
			if k < len(f.blk.Instrs) {
				pos = f.blk.Instrs[k].Pos()
			}
		}
		return f.fn.Name() + " " + x.posStr(pos)
	}
	return g.name
}

func (x *Exec) deadlock() {
	var b strings.Builder
	for _, g := range x.gs {
		if !g.done {
			fmt.Fprintf(&b, " [g%d %s blocked in %s at %s]", g.id, g.name, g.waitWhy, x.gloc(g))
		}
	}
	x.violation("deadlock", "deadlock: no goroutine can continue:"+b.String(), nil)
}

type stepAct int

const (
	actNext stepAct = iota
	actStay         // control transferred (frame pushed/popped, jump): pc already set
	actResched
)

// slice runs g until it must be rescheduled or ends.
func (x *Exec) slice(g *G) {
	for {
		if x.sliceOnce(g) {
			return
		}
	}
}

func (x *Exec) sliceOnce(g *G) (stop bool) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				x.startPanic(g, gp.v)
				stop = g.done
				return
			}
			panic(r)
		}
	}()
	if len(g.frames) == 0 {
		if n := g.native; n != nil {
			g.native = nil
			n()
		}
		g.done = true
		g.wait = nil
		return true
	}
	for {
		f := g.frames[len(g.frames)-1]
		if f.nat != nil {
			v, act := f.nat(f)
			switch act {
			case actNext:
				g.granted = false
				x.doReturn(g, f, v)
				if len(g.frames) == 0 {
					g.done = true
					return true
				}
			case actResched:
				return true
			}
			continue
		}
		if f.pc >= len(f.blk.Instrs) {
			panic("fell off block in " + f.fn.String())
		}
		ins := f.blk.Instrs[f.pc]
		x.steps++
		if x.steps > x.h.MaxSteps {
			x.stepLimit()
		}
		switch x.step(g, f, ins) {
		case actNext:
			f.pc++
			g.granted = false
		case actStay:
			g.granted = false
			if len(g.frames) == 0 {
				g.done = true
				return true
			}
		case actResched:
			return true
		}
	}
}

func (x *Exec) stepLimit() {
	if x.h.HangCheck && !x.conc {
		x.violation("hang", "no termination within the step bound (possible endless loop)", nil)
	}
	panic(pathEnd{kind: endSteps, msg: "step limit" + x.where()})
}

// ---- panics ----

func (x *Exec) startPanic(g *G, v V) {
	rec := &panicRec{val: v, trace: x.where()}
	g.panics = append(g.panics, rec)
	x.unwind(g)
}

// unwind continues the topmost panic of g from its current frame.
func (x *Exec) unwind(g *G) {
	rec := g.panics[len(g.panics)-1]
	for {
		if len(g.frames) == 0 {
			g.done = true
			x.uncaught(g, rec)
			return
		}
		f := g.top()
		rec.frame = f
		if rec.recovered {
			return
		}
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if x.runDeferred(g, f, d) {
				return // frame pushed; continues when it returns
			}
			if rec.recovered {
				x.resumeRecovered(g, f)
				return
			}
			continue
		}
		// drop the frame; a panic that was being handled by f's callee dies with it
		g.frames = g.frames[:len(g.frames)-1]
		if f.deferOf != nil {
			// the deferred call panicked: the older panic of the parent frame is superseded
			for i := 0; i < len(g.panics)-1; i++ {
				if g.panics[i].frame == f.deferOf {
					g.panics = append(g.panics[:i], g.panics[i+1:]...)
					break
				}
			}
		}
		if f.ret != nil && f.deferOf == nil {
			// engine-initiated call: nothing to clean up
		}
	}
}

func (x *Exec) panicText(v V) string {
	i, ok := v.(Iface)
	if !ok {
		return fmt.Sprint(v)
	}
	if s, ok := i.v.(Str); ok && s.mem == nil {
		return s.s
	}
	if i.t == nil {
		return "nil"
	}
	return i.t.String()
}

func (x *Exec) uncaught(g *G, rec *panicRec) {
	if x.inInit {
		x.unsupported("panic in package initialisation: %s", x.panicText(rec.val))
	}
	msg := "panic: " + x.panicText(rec.val)
	if x.viol == nil {
		x.ensureModel()
		v := &Violation{Harness: x.h.Name, Msg: msg, Pos: strings.TrimSpace(rec.trace), Kind: "panic", Conc: x.conc || len(x.gs) > x.initGs+1, Sched: append([]string(nil), x.sched...)}
		v.Dec = append([]uint64(nil), x.dec...)
		v.Inputs = x.replayInputs(x.model)
		x.viol = v
	}
	panic(pathEnd{kind: endViolation, msg: msg})
}

// runDeferred starts a deferred call; it returns true when a frame was pushed.
func (x *Exec) runDeferred(g *G, f *Frame, d deferred) bool {
	return x.invokeValue(g, f, d.call, d.fn, d.recv, d.args, d.pos, func(nf *Frame) { nf.deferOf = f; nf.ret = func(V) {} })
}

// afterDefer continues frame f after one of its deferred calls returned.
func (x *Exec) afterDefer(g *G, f *Frame) {
	// panicking?
	if n := len(g.panics); n > 0 && g.panics[n-1].frame == f {
		rec := g.panics[n-1]
		if rec.recovered {
			x.resumeRecovered(g, f)
			return
		}
		x.unwind(g)
		return
	}
	// normal RunDefers continues by re-executing the instruction (pc unchanged)
}

func (x *Exec) resumeRecovered(g *G, f *Frame) {
	// run the remaining defers, then return with the named results
	g.panics = g.panics[:len(g.panics)-1]
	if f.fn.Recover != nil {
		f.prev = f.blk
		f.blk = f.fn.Recover
		f.pc = 0
		if len(f.defers) > 0 {
			f.rundef = true
			x.pendingRecover(g, f)
		}
		return
	}
	if len(f.defers) > 0 {
		x.unsupported("recover with remaining defers and no recover block in %s", f.fn)
	}
	x.doReturn(g, f, x.zeroResults(f.fn))
}

// pendingRecover runs remaining defers of a recovered frame before its recover block.
func (x *Exec) pendingRecover(g *G, f *Frame) {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		if x.runDeferred(g, f, d) {
			return // afterDefer: the recover block contains no RunDefers; handled in doReturn path
		}
	}
	f.rundef = false
}

func (x *Exec) zeroResults(fn *ssa.Function) V {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return x.zero(r.At(0).Type())
	}
	return x.zero(r)
}

// doReturn pops f and delivers v.
func (x *Exec) doReturn(g *G, f *Frame, v V) {
	g.frames = g.frames[:len(g.frames)-1]
	if f.deferOf != nil {
		if f.deferOf.rundef && len(f.deferOf.defers) > 0 && f.deferOf.blk == f.deferOf.fn.Recover {
			x.pendingRecover(g, f.deferOf)
			return
		}
		x.afterDefer(g, f.deferOf)
		return
	}
	if f.ret != nil {
		f.ret(v)
		return
	}
	if len(g.frames) == 0 {
		return
	}
	c := g.top()
	if f.calls != nil {
		if i, ok := c.info.idx[f.calls]; ok {
			c.regs[i] = v
		}
	}
	c.pc++
}

// ---- race tracking: finds the memory accesses that need a scheduling point ----

type acc struct {
	g, c int
	ins  ssa.Instruction
}
type raceMeta struct {
	w     acc
	r     []acc
	hasW  bool
	atomW bool
}

var racyMu sync.Mutex

func (x *Exec) ordered(a acc) bool { return x.cur.vc[a.g] >= a.c }

func (x *Exec) access(obj interface{}, write, atomic bool, ins ssa.Instruction) {
	if len(x.gs) < 2 || x.inInit {
		return
	}
	if mv, ok := obj.(*MapV); ok && x.h.racy != nil {
		x.mapAccess(mv, write)
	}
	m := x.race[obj]
	if m == nil {
		m = &raceMeta{}
		x.race[obj] = m
	}
	g := x.cur
	me := acc{g.id, g.vc[g.id], ins}
	if m.hasW && m.w.g != g.id && !x.ordered(m.w) && !(atomic && m.atomW) {
		x.racy(m.w.ins)
		x.racy(ins)
	}
	if write {
		for _, r := range m.r {
			if r.g != g.id && !x.ordered(r) {
				x.racy(r.ins)
				x.racy(ins)
			}
		}
		m.w, m.hasW, m.atomW = me, true, atomic
		m.r = m.r[:0]
	} else if !atomic {
		for i := range m.r {
			if m.r[i].g == g.id {
				m.r[i] = me
				return
			}
		}
		m.r = append(m.r, me)
	}
}

func (x *Exec) racy(ins ssa.Instruction) {
	if ins == nil {
		return
	}
	if !x.h.racy[ins] {
		x.w.racyNew[ins] = true
	}
}

// vc helpers
func joinVC(dst, src map[int]int) {
	for k, v := range src {
		if dst[k] < v {
			dst[k] = v
		}
	}
}
func copyVC(a map[int]int) map[int]int {
	r := make(map[int]int, len(a))
	for k, v := range a {
		r[k] = v
	}
	return r
}
func (x *Exec) release(vc map[int]int) map[int]int {
	if vc == nil {
		vc = map[int]int{}
	}
	joinVC(vc, x.cur.vc)
	x.cur.vc[x.cur.id]++
	return vc
}

// point marks a visible operation: returns true when the goroutine must be rescheduled first.
func (x *Exec) point(g *G) bool {
	if g.granted || x.inInit || x.h.Sequential || x.preempt >= x.h.Preempt {
		return false
	}
	for _, o := range x.gs {
		if o != g && !o.done && o.quiesce == 0 && (o.wait == nil || o.wait()) {
			return true
		}
	}
	return len(x.timers) > 0 && len(x.dueTimers()) > 0
}

// poolItem is a value in a sync.Pool, with what happened before it was put there
type poolItem struct {
	v  V
	vc map[int]int
}
