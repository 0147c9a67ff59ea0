package main

import (
	"fmt"
	"go/types"
)

// Harness primitives (functions of the generated zz_verif_api.go).
var vfIntrinsics = map[string]intrinsic{}

func vreg(name string, f intrinsic) { vfIntrinsics[name] = f }

func (x *Exec) scalarInput(name, kind string, w uint8) *Term {
	n := x.freshName(name)
	t := x.p.Var(n, w)
	x.inputs = append(x.inputs, input{name: n, kind: kind, t: t})
	return t
}

// bytesInput makes a symbolic byte array object.
func (x *Exec) bytesInput(name string, n *Term, max int) (*Arr, string) {
	nm := x.freshName(name)
	base := nm + "[]"
	x.inputs = append(x.inputs, input{name: nm, kind: "bytes", n: n, max: max, base: base})
	x.objs++
	a := &Arr{elem: types.Typ[types.Uint8], sc: true, w: 8, id: x.objs}
	if n.isConst() {
		a.n = int(n.k)
		a.dense = make([]*Term, n.k)
		for i := range a.dense {
			a.dense[i] = x.p.Select(base, 8, x.p.Int(int64(i)))
		}
	} else {
		a.nt = n
		a.mem = &Mem{kind: mBase, w: 8, name: base}
	}
	return a, nm
}

func init() {
	for _, s := range []struct {
		n string
		w uint8
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}, {"I8", 8}, {"I16", 16}, {"I32", 32}, {"I64", 64}, {"Int", 64}, {"F32", 32}, {"F64", 64}} {
		s := s
		vreg("vf"+s.n, func(x *Exec, c *callCtx) stepAct {
			c.ret = x.scalarInput(c.str(0), "bv", s.w)
			return actNext
		})
	}
	vreg("vfBool", func(x *Exec, c *callCtx) stepAct {
		t := x.scalarInput(c.str(0), "bv", 1)
		c.ret = x.p.Eq(t, x.p.BV(1, 1))
		return actNext
	})
	vreg("vfIntn", func(x *Exec, c *callCtx) stepAct {
		lo, hi := c.term(1), c.term(2)
		if lo.isConst() && hi.isConst() && lo.k == hi.k {
			t := x.scalarInput(c.str(0), "bv", 64)
			x.mustAssume(x.p.Eq(t, lo))
			c.ret = lo
			return actNext
		}
		t := x.scalarInput(c.str(0), "bv", 64)
		x.mustAssume(x.p.And(x.p.Sle(lo, t), x.p.Sle(t, hi)))
		c.ret = t
		return actNext
	})
	vreg("vfChoose", func(x *Exec, c *callCtx) stepAct {
		n := x.concretize(c.term(1), 64, "choose")
		k := x.choose(int(n))
		x.inputs = append(x.inputs, input{name: x.freshName(c.str(0)), kind: "choose", con: uint64(k)})
		return c.retInt(x.p.Int(int64(k)))
	})
	vreg("vfConc", func(x *Exec, c *callCtx) stepAct {
		return c.retInt(x.p.Int(int64(x.concretize(c.term(0), 600, "vfConc"))))
	})
	vreg("vfBytesN", func(x *Exec, c *callCtx) stepAct {
		n := x.concretize(c.term(1), 600, "vfBytesN")
		nt := x.p.Int(int64(n))
		a, _ := x.bytesInput(c.str(0), nt, int(n))
		c.ret = Slice{a, x.p.Int(0), nt, nt}
		return actNext
	})
	vreg("vfBytes", func(x *Exec, c *callCtx) stepAct {
		max := c.term(1)
		n := x.p.Var(x.freshName(c.str(0)+".len"), 64)
		x.mustAssume(x.p.Ule(n, max))
		a, _ := x.bytesInput(c.str(0), n, int(max.k))
		c.ret = Slice{a, x.p.Int(0), n, n}
		return actNext
	})
	vreg("vfStringN", func(x *Exec, c *callCtx) stepAct {
		n := x.concretize(c.term(1), 600, "vfStringN")
		nt := x.p.Int(int64(n))
		a, _ := x.bytesInput(c.str(0), nt, int(n))
		c.ret = x.bytesToStr(Slice{a, x.p.Int(0), nt, nt})
		return actNext
	})
	vreg("vfAssume", func(x *Exec, c *callCtx) stepAct {
		x.mustAssume(c.term(0))
		return actNext
	})
	vreg("vfAssert", func(x *Exec, c *callCtx) stepAct {
		x.check(c.term(0), c.str(1))
		return actNext
	})
	vreg("vfReach", func(x *Exec, c *callCtx) stepAct {
		x.reached[c.str(0)] = true
		return actNext
	})
	vreg("vfObserve", func(x *Exec, c *callCtx) stepAct {
		x.obs = append(x.obs, observation{name: x.freshName("obs:" + c.str(0)), t: c.term(1)})
		return actNext
	})
	vreg("vfObserveBytes", func(x *Exec, c *callCtx) stepAct {
		s := c.slice(1)
		if !s.len.isConst() {
			x.obs = append(x.obs, observation{name: x.freshName("obs:" + c.str(0)), t: s.len})
			return actNext
		}
		bs := make([]*Term, s.len.k)
		for i := range bs {
			bs[i] = x.arrGet(s.a, x.p.Add(s.off, x.p.Int(int64(i))))
		}
		x.obs = append(x.obs, observation{name: x.freshName("obs:" + c.str(0)), bs: bs})
		return actNext
	})
	vreg("vfAnd", func(x *Exec, c *callCtx) stepAct { return c.retInt(x.p.And(c.term(0), c.term(1))) })
	vreg("vfOr", func(x *Exec, c *callCtx) stepAct { return c.retInt(x.p.Or(c.term(0), c.term(1))) })
	vreg("vfImp", func(x *Exec, c *callCtx) stepAct { return c.retInt(x.p.Implies(c.term(0), c.term(1))) })
	vreg("vfIte", func(x *Exec, c *callCtx) stepAct { return c.retInt(x.p.Ite(c.term(0), c.term(1), c.term(2))) })
	vreg("vfEqBytes", func(x *Exec, c *callCtx) stepAct {
		return c.retInt(x.strEq(x.bytesToStr(c.slice(0)), x.bytesToStr(c.slice(1))))
	})
	vreg("vfAllocMax", func(x *Exec, c *callCtx) stepAct {
		x.allocMax = c.term(0)
		if x.allocMax.isConst() && sext64(x.allocMax.k, 64) < 0 {
			x.allocMax = nil
		}
		return actNext
	})
	vreg("vfThorough", func(x *Exec, c *callCtx) stepAct { return c.retInt(x.p.Bool(x.w.eng.tier == "thorough")) })
	vreg("vfSymbolic", func(x *Exec, c *callCtx) stepAct { return c.retInt(x.p.T) })
	quiesce := func(level int) intrinsic {
		return func(x *Exec, c *callCtx) stepAct {
			if c.g.granted {
				return actNext
			}
			c.g.quiesce = level
			c.g.wait = never
			c.g.waitWhy = "quiesce"
			return actResched
		}
	}
	vreg("vfQuiesce", quiesce(1))
	vreg("vfClockAdd", func(x *Exec, c *callCtx) stepAct {
		x.clock = x.p.Add(x.clock, c.term(0))
		x.conc = true
		return actNext
	})
	vreg("vfLive", func(x *Exec, c *callCtx) stepAct {
		n := 0
		for i, g := range x.gs {
			if !g.done && !g.bg && i >= x.initGs && g != x.main {
				n++
			}
		}
		return c.retInt(x.p.Int(int64(n)))
	})
	vreg("vfPendingTimers", func(x *Exec, c *callCtx) stepAct {
		n := 0
		for _, t := range x.timers {
			if t.active {
				n++
			}
		}
		return c.retInt(x.p.Int(int64(n)))
	})
}

// mustAssume restricts the path and keeps its model valid.
func (x *Exec) mustAssume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{kind: endInfeasible})
	}
	x.assume(c)
	if x.inPrefix() {
		return
	}
	if v, ok := x.evalModel(c); ok && v {
		return
	}
	x.model = nil
	x.ensureModel()
}

var _ = fmt.Sprint
