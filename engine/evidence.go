package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type evidence struct {
	prop, tier string
	hs         []map[string]interface{}
	tot        Stats
	fns        map[string]bool
	samples    []interface{}
	validated  int
	mismatch   int
	incomplete int
}

func newEvidence(prop, tier string) *evidence {
	return &evidence{prop: prop, tier: tier, fns: map[string]bool{}}
}

func (e *evidence) add(h *Harness, r *Result, validated, mism, confirmed int) {
	e.tot.add(&r.Stats)
	e.validated += validated
	e.mismatch += mism
	if !r.Complete {
		e.incomplete++
	}
	if covFile != "" {
		writeCover(r.Touched)
	}
	var fns []string
	for f := range r.Touched {
		if strings.Contains(h.fn.Prog.Fset.Position(f.Pos()).Filename, "zz_verif_") {
			continue
		}
		n := f.String()
		e.fns[n] = true
		fns = append(fns, n)
	}
	sort.Strings(fns)
	m := map[string]interface{}{
		"harness": h.Name, "what": h.Doc, "paths": r.Stats.Paths, "infeasible": r.Stats.Infeasible, "unsupported_paths": r.Stats.Unsupported,
		"bound_hits": r.Stats.StepLimited, "undecided_paths": r.Stats.UnknownEnds, "assertions_checked_by_solver": r.Stats.Asserts, "assertions_discharged": r.Stats.Discharged,
		"assertions_true_by_simplification": r.Stats.Trivial, "queries": r.Stats.Queries, "sat": r.Stats.Sat, "unsat": r.Stats.Unsat, "unknown": r.Stats.SolverUnknown,
		"solver_s": float64(r.Stats.SolverNs) / 1e9, "schedule_variables": r.Stats.SchedVars, "ssa_steps": r.Stats.Steps, "preemption_bound": h.Preempt, "schedule_deviation_bound": h.Delays, "max_goroutines": r.MaxGs,
		"interleaved_memory_accesses": r.Racy, "rounds": r.Rounds, "complete_within_bounds": r.Complete, "violations": confirmed, "wall_s": r.Wall.Seconds(), "functions": len(fns),
		"step_bound": h.MaxSteps,
	}
	if !r.Complete {
		m["unexplored_branches"] = r.Left
	}
	e.hs = append(e.hs, m)
	if len(r.Samples) > 0 {
		s := r.Samples[len(r.Samples)-1]
		e.samples = append(e.samples, map[string]interface{}{"harness": h.Name, "inputs": s.Inputs, "observed": s.Obs})
	} else if len(e.samples) < 6 {
		e.samples = append(e.samples, map[string]interface{}{"harness": h.Name, "paths": r.Stats.Paths, "schedule_variables": r.Stats.SchedVars})
	}
}

func (e *evidence) finish(notes []string, viol int, wall time.Duration, l *loaded) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range e.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	if len(e.samples) > 8 {
		e.samples = e.samples[:8]
	}
	cov := map[string]interface{}{
		"states": e.tot.Paths, "transitions": e.tot.Steps, "traces_validated_against_impl": e.validated, "samples": e.samples,
		"explanation":           "states = feasible execution paths of the harnesses, each deciding its assertions for all symbolic values on the path; transitions = SSA instructions executed symbolically; traces_validated = completed paths whose solver model was run through the natively compiled code with the same observations",
		"exhaustive":            false,
		"queries":               e.tot.Queries,
		"sat":                   e.tot.Sat,
		"unsat":                 e.tot.Unsat,
		"unknown":               e.tot.SolverUnknown,
		"solver_s":              float64(e.tot.SolverNs) / 1e9,
		"assertions":            e.tot.Asserts,
		"discharged":            e.tot.Discharged,
		"functions_encoded":     fns,
		"harnesses":             e.hs,
		"native_mismatches":     e.mismatch,
		"harnesses_cut_by_time": e.incomplete,
		"notes":                 notes,
	}
	ev := map[string]interface{}{
		"property": e.prop, "tier": e.tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": []string{"the symbolic engine's model of Go (SSA semantics, reflect, sync, channels, time) is faithful; sampled paths are re-run natively", "bounds stated per harness; schedules up to the preemption bound", "z3 4.8.12 answers correctly"},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", e.prop+".json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
	_ = fmt.Sprint
}
