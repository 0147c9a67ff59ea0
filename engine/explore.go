package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Engine is the loaded program.
type Engine struct {
	prog    *ssa.Program
	module  string
	infos   sync.Map
	buildMu sync.Mutex
	sizes   types.Sizes
	tier    string

	rtErrType    types.Type
	rtypePtr     types.Type
	errStrType   types.Type
	structFieldT types.Type

	idMu  sync.Mutex
	ids   typeutil.Map
	idN   uint64
	idc   sync.Map
	debug bool
	bin   string
}

func (e *Engine) typeID(t types.Type) uint64 {
	if v, ok := e.idc.Load(t); ok {
		return v.(uint64)
	}
	e.idMu.Lock()
	defer e.idMu.Unlock()
	if v := e.ids.At(t); v != nil {
		e.idc.Store(t, v.(uint64))
		return v.(uint64)
	}
	e.idN++
	e.ids.Set(t, e.idN)
	e.idc.Store(t, e.idN)
	return e.idN
}

type Stats struct {
	Paths, Infeasible, Unsupported, StepLimited, UnknownEnds int64
	Unknown, ConcCapped, Trivial, Asserts, Discharged        int64
	SchedVars, Steps                                         int64
	Queries, Sat, Unsat, SolverUnknown, SolverNs             int64
}

func (s *Stats) add(o *Stats) {
	s.Paths += o.Paths
	s.Infeasible += o.Infeasible
	s.Unsupported += o.Unsupported
	s.StepLimited += o.StepLimited
	s.UnknownEnds += o.UnknownEnds
	s.Unknown += o.Unknown
	s.ConcCapped += o.ConcCapped
	s.Trivial += o.Trivial
	s.Asserts += o.Asserts
	s.Discharged += o.Discharged
	s.SchedVars += o.SchedVars
	s.Steps += o.Steps
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.SolverUnknown += o.SolverUnknown
	s.SolverNs += o.SolverNs
}

type Harness struct {
	Name       string
	Prop       string
	Unit       string
	PkgPath    string
	fn         *ssa.Function
	Preempt    int
	TPreempt   int
	Sequential bool
	FreeSwitch int
	MaxSteps   int
	HangCheck  bool
	NoFree     bool // one order of goroutines only
	Delays     int  // bound on scheduling choices other than the first one, 0 none
	TDelays    int
	ConcSlice  bool // slice bounds are enumerated instead of staying symbolic
	MapOrder   bool
	Thorough   bool
	NoNative   bool
	TimeLimit  time.Duration
	Reach      []string // labels that must be reached
	Doc        string
	racy       map[ssa.Instruction]bool
}

// Worker owns a term pool and a solver.
type Worker struct {
	eng        *Engine
	prog       *ssa.Program
	pool       *Pool
	solver     *Solver
	stats      Stats
	consts     map[*ssa.Const]V
	fnvals     map[*ssa.Function]V
	methods    map[methKey]*ssa.Function
	stdGlobals map[*ssa.Global]*Cell
	stdInit    map[string]bool
	racyNew    map[ssa.Instruction]bool
	notes      map[string]int
	touched    map[*ssa.Function]bool
	prof       map[string]int
}

func newWorker(e *Engine) *Worker {
	w := &Worker{eng: e, prog: e.prog, notes: map[string]int{}, touched: map[*ssa.Function]bool{}, racyNew: map[ssa.Instruction]bool{}, methods: map[methKey]*ssa.Function{}, prof: map[string]int{}}
	w.reset()
	return w
}

// reset drops all terms.
func (w *Worker) reset() {
	if w.solver != nil {
		w.collect()
		w.solver.close()
	}
	w.pool = newPool()
	w.solver = newSolver(w.pool, w.eng.bin, 20000)
	w.consts = map[*ssa.Const]V{}
	w.fnvals = map[*ssa.Function]V{}
	w.stdGlobals = map[*ssa.Global]*Cell{}
	w.stdInit = map[string]bool{}
}

func (w *Worker) collect() {
	s := w.solver
	w.stats.Queries += s.queries
	w.stats.Sat += s.sat
	w.stats.Unsat += s.unsat
	w.stats.SolverUnknown += s.unknown
	w.stats.SolverNs += s.solverNs
	for _, e := range s.errs {
		w.note("solver: %s", e)
	}
	s.queries, s.sat, s.unsat, s.unknown, s.solverNs, s.errs = 0, 0, 0, 0, 0, nil
}

func (w *Worker) note(f string, a ...interface{}) { w.notes[fmt.Sprintf(f, a...)]++ }
func (w *Worker) touch(fn *ssa.Function)          { w.touched[fn] = true }
func (w *Worker) profile(x *Exec) {
	if w.eng.debug {
		w.prof[x.where()]++
	}
}

func (w *Worker) newExec(h *Harness, it *Item) *Exec {
	x := &Exec{w: w, h: h, p: w.pool, s: w.solver, prefix: it.dec,
		pcSet: map[*Term]bool{}, fresh: map[string]int{}, globals: map[*ssa.Global]*Cell{},
		mutexes: map[*Cell]*mutexState{}, conds: map[*Cell]*condState{}, wgs: map[*Cell]*wgState{},
		pools: map[*Cell][]poolItem{}, atomVC: map[interface{}]map[int]int{}, locals: map[string]V{},
		race: map[interface{}]*raceMeta{}, typeIDs: map[string]uint64{}, reached: map[string]bool{}, known: map[*Term]int8{}}
	if it.model != nil {
		x.model = &Model{vars: it.model.vars, sel: it.model.sel, uf: it.model.uf, memo: map[*Term]uint64{}}
	}
	return x
}

// initPackages runs the initialisers of the repository's packages.
func (x *Exec) initPackages() {
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			if x.w.eng.isUser(q.Path()) {
				visit(q)
			}
		}
		if sp := x.w.prog.Package(p); sp != nil {
			order = append(order, sp)
		}
	}
	visit(x.h.fn.Pkg.Pkg)
	for _, p := range order {
		if fn := p.Func("init"); fn != nil {
			x.w.eng.buildMu.Lock()
			p.Build()
			x.w.eng.buildMu.Unlock()
			x.runNested(fn)
		}
	}
	// goroutines started by initialisers run until they block
	for i := 0; i < len(x.gs); i++ {
		g := x.gs[i]
		x.cur = g
		x.inInit = true
		for k := 0; k < 50 && !g.done && g.wait == nil; k++ {
			x.slice(g)
		}
		x.inInit = false
	}
	x.steps = 0
	x.initGs = len(x.gs)
}

type Sample struct {
	Inputs []ReplayInput
	Obs    map[string]string
}

type Result struct {
	H        *Harness
	Stats    Stats
	Viol     []*Violation
	Notes    map[string]int
	Touched  map[*ssa.Function]bool
	Complete bool
	Rounds   int
	Wall     time.Duration
	Reached  map[string]int64
	Samples  []Sample
	Racy     int
	Left     int
	MaxGs    int
	Prof     map[string]int
}

// explore runs all paths of h.
func (e *Engine) explore(h *Harness, workers int, deadline time.Time) *Result {
	t0 := time.Now()
	res := &Result{H: h, Notes: map[string]int{}, Touched: map[*ssa.Function]bool{}, Reached: map[string]int64{}, Prof: map[string]int{}}
	h.racy = map[ssa.Instruction]bool{}
	if lim := t0.Add(h.TimeLimit); h.TimeLimit > 0 && lim.Before(deadline) {
		deadline = lim
	}
	for round := 1; round <= 8; round++ {
		res.Rounds = round
		res.Complete = true
		newRacy := e.round(h, workers, deadline, res)
		if len(res.Viol) > 0 || !res.Complete {
			break // the violation is re-executed under the same scheduling points
		}
		for i := range newRacy {
			h.racy[i] = true
		}
		res.Racy = len(h.racy)
		if len(newRacy) == 0 {
			break
		}
	}
	res.Wall = time.Since(t0)
	return res
}

func (e *Engine) round(h *Harness, workers int, deadline time.Time, res *Result) map[ssa.Instruction]bool {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := []*Item{{}}
	active := 0
	stop := false
	newRacy := map[ssa.Instruction]bool{}
	seenViol := map[string]bool{}
	var firstViol time.Time
	var nsamp int64
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(e)
			defer func() {
				w.collect()
				w.solver.close()
				mu.Lock()
				res.Stats.add(&w.stats)
				for k, v := range w.notes {
					res.Notes[k] += v
				}
				for f := range w.touched {
					res.Touched[f] = true
				}
				for f := range w.racyNew {
					newRacy[f] = true
				}
				for k, v := range w.prof {
					res.Prof[k] += v
				}
				mu.Unlock()
			}()
			mu.Lock()
			for {
				for len(stack) == 0 && active > 0 && !stop {
					cond.Wait()
				}
				if stop || len(stack) == 0 {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				it := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				active++
				mu.Unlock()
				x := w.newExec(h, it)
				end := x.run(h.fn)
				w.stats.Steps += int64(x.steps)
				switch end.kind {
				case endDone:
					w.stats.Paths++
				case endViolation:
					w.stats.Paths++
				case endInfeasible:
					w.stats.Infeasible++
				case endUnsupported:
					w.stats.Unsupported++
					w.note("unsupported: %s", end.msg)
				case endSteps:
					w.stats.StepLimited++
					w.note("bound: %s", end.msg)
				default:
					w.stats.UnknownEnds++
					w.note("undecided: %s", end.msg)
				}
				if w.pool.all > 2500000 {
					w.reset()
				}
				mu.Lock()
				active--
				stack = append(stack, x.newWork...)
				for l := range x.reached {
					res.Reached[l]++
				}
				if len(x.gs)-x.initGs > res.MaxGs {
					res.MaxGs = len(x.gs) - x.initGs
				}
				if end.kind == endDone && len(res.Samples) < 40 && !x.conc && len(x.gs) == x.initGs+1 && x.model != nil {
					nsamp++
					if nsamp < 8 || nsamp%7 == 0 {
						res.Samples = append(res.Samples, Sample{x.replayInputs(x.model), x.obsValues(x.model)})
					}
				}
				if x.viol != nil {
					key := x.viol.Msg + x.viol.Pos
					if !seenViol[key] {
						seenViol[key] = true
						res.Viol = append(res.Viol, x.viol)
					}
					if firstViol.IsZero() {
						firstViol = time.Now()
					}
					if len(res.Viol) >= 4 {
						stop = true
					}
				}
				if !firstViol.IsZero() && time.Since(firstViol) > 5*time.Second {
					stop = true // enough to report
				}
				if time.Now().After(deadline) && (len(stack) > 0 || active > 0) {
					stop = true
					res.Complete = false
					res.Left = len(stack)
				}
				if len(stack) > 400000 {
					stop = true
					res.Complete = false
					res.Left = len(stack)
				}
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	return newRacy
}

// rerun executes one path again from its decisions.
func (e *Engine) rerun(h *Harness, v *Violation) *Violation {
	w := newWorker(e)
	defer w.solver.close()
	x := w.newExec(h, &Item{dec: v.Dec})
	end := x.run(h.fn)
	if end.kind == endViolation && x.viol != nil {
		return x.viol
	}
	return nil
}

func sortedNotes(m map[string]int) []string {
	var out []string
	for k, n := range m {
		if len(k) > 900 {
			k = k[:900]
		}
		out = append(out, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(out)
	return out
}

func logf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, strings.TrimRight(f, "\n")+"\n", a...)
}
