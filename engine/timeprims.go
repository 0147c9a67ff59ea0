package main

import (
	"go/types"
	"time"
)

// The clock is moved by the harness only (or when nothing else can happen).

type timerObj struct {
	when   *Term
	active bool
	ch     *ChanV
	fn     V
	period *Term
	sleep  *G
	cell   *Cell
	woke   bool
	bg     bool
}

var clockStart = time.Date(2014, 1, 1, 0, 0, 0, 0, time.UTC).UnixNano()

func (x *Exec) dueTimers() []int {
	var r []int
	for i, t := range x.timers {
		if t.active && x.branch(x.p.Sle(t.when, x.clock)) {
			r = append(r, i)
		}
	}
	return r
}

// idleAdvance moves the clock to the earliest timer.
func (x *Exec) idleAdvance() bool {
	var best *timerObj
	for _, t := range x.timers {
		if !t.active {
			continue
		}
		if best == nil || x.branch(x.p.Slt(t.when, best.when)) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	x.clock = best.when
	return true
}

func (x *Exec) fireTimer(i int) {
	t := x.timers[i]
	if !x.branch(x.p.Slt(t.when, x.clock)) {
		x.clock = x.p.Add(x.clock, x.p.Int(1)) // time passes
	}
	if t.period != nil {
		t.when = x.p.Add(t.when, t.period)
		if x.branch(x.p.Sle(t.when, x.clock)) {
			t.when = x.p.Add(x.clock, t.period)
		}
	} else {
		t.active = false
	}
	switch {
	case t.sleep != nil:
		t.woke = true
	case t.fn != nil:
		cur := x.cur
		x.cur = &G{id: len(x.gs), bg: t.bg, vc: map[int]int{}, locks: map[*Cell]bool{}}
		x.spawn(t.fn, nil, "timer func")
		x.cur = cur
	default:
		if x.canSend(t.ch) {
			cur := x.cur
			x.cur = &G{id: -2, vc: map[int]int{}}
			x.doSend(t.ch, TimeV{x.clock})
			x.cur = cur
		}
	}
}

func (x *Exec) timeArg(v V) TimeV {
	t, _ := v.(TimeV)
	return t
}

func init() {
	ret := func(f func(x *Exec, c *callCtx) V) intrinsic {
		return func(x *Exec, c *callCtx) stepAct { c.ret = f(x, c); return actNext }
	}
	reg("time.Now", ret(func(x *Exec, c *callCtx) V { return TimeV{x.clock} }))
	reg("time.Unix", ret(func(x *Exec, c *callCtx) V {
		return TimeV{x.p.Add(x.p.bin(OMul, c.term(0), x.p.Int(1e9)), c.term(1))}
	}))
	reg("time.Date", ret(func(x *Exec, c *callCtx) V {
		var a [7]int
		for i := range a {
			a[i] = int(sext64(x.concretize(c.term(i), 4, "date"), 64))
		}
		return TimeV{x.p.Int(time.Date(a[0], time.Month(a[1]), a[2], a[3], a[4], a[5], a[6], time.UTC).UnixNano())}
	}))
	sub := func(x *Exec, a, b TimeV) *Term {
		switch {
		case a.ns == nil && b.ns == nil:
			return x.p.Int(0)
		case a.ns == nil:
			return x.p.Int(-1 << 63)
		case b.ns == nil:
			return x.p.Int(1<<63 - 1)
		}
		return x.p.Sub(a.ns, b.ns)
	}
	reg("(time.Time).Sub", ret(func(x *Exec, c *callCtx) V { return sub(x, x.timeArg(c.args[0]), x.timeArg(c.args[1])) }))
	reg("time.Since", ret(func(x *Exec, c *callCtx) V { return sub(x, TimeV{x.clock}, x.timeArg(c.args[0])) }))
	reg("time.Until", ret(func(x *Exec, c *callCtx) V { return sub(x, x.timeArg(c.args[0]), TimeV{x.clock}) }))
	reg("(time.Time).Add", ret(func(x *Exec, c *callCtx) V {
		t := x.timeArg(c.args[0])
		if t.ns == nil {
			x.unsupported("arithmetic on the zero time")
		}
		return TimeV{x.p.Add(t.ns, c.term(1))}
	}))
	cmp := func(x *Exec, a, b TimeV) *Term { // a < b
		switch {
		case a.ns == nil:
			return x.p.Bool(b.ns != nil)
		case b.ns == nil:
			return x.p.F
		}
		return x.p.Slt(a.ns, b.ns)
	}
	reg("(time.Time).Before", ret(func(x *Exec, c *callCtx) V { return cmp(x, x.timeArg(c.args[0]), x.timeArg(c.args[1])) }))
	reg("(time.Time).After", ret(func(x *Exec, c *callCtx) V { return cmp(x, x.timeArg(c.args[1]), x.timeArg(c.args[0])) }))
	reg("(time.Time).Equal", ret(func(x *Exec, c *callCtx) V { return x.equal(x.timeArg(c.args[0]), x.timeArg(c.args[1]), nil) }))
	reg("(time.Time).IsZero", ret(func(x *Exec, c *callCtx) V { return x.p.Bool(x.timeArg(c.args[0]).ns == nil) }))
	reg("(time.Time).UnixNano", ret(func(x *Exec, c *callCtx) V {
		t := x.timeArg(c.args[0])
		if t.ns == nil {
			return x.p.Int(-6795364578871345152)
		}
		return t.ns
	}))
	reg("(time.Time).Unix", ret(func(x *Exec, c *callCtx) V {
		t := x.timeArg(c.args[0])
		if t.ns == nil {
			return x.p.Int(-62135596800)
		}
		return x.p.bin(OSDiv, t.ns, x.p.Int(1e9))
	}))
	reg("(time.Time).UTC", ret(func(x *Exec, c *callCtx) V { return c.args[0] }))
	reg("(time.Time).Round", ret(func(x *Exec, c *callCtx) V { return c.args[0] }))
	reg("(time.Time).String", ret(func(x *Exec, c *callCtx) V { return Str{s: "time"} }))
	reg("(time.Duration).String", ret(func(x *Exec, c *callCtx) V { return Str{s: "duration"} }))

	newTimer := func(x *Exec, d *Term) *timerObj {
		t := &timerObj{when: x.p.Add(x.clock, d), active: true, bg: x.inInit || x.cur != nil && x.cur.bg}
		x.timers = append(x.timers, t)
		return t
	}
	structOf := func(x *Exec, c *callCtx) (types.Type, Ptr, *StructV) {
		pt := c.fn.Signature.Results().At(0).Type()
		st := pt.Underlying().(*types.Pointer).Elem()
		cell := &Cell{}
		s := x.get(cell, st).(*StructV)
		return st, Ptr{c: cell}, s
	}
	find := func(x *Exec, p Ptr) *timerObj {
		for _, t := range x.timers {
			if t.cell == p.c {
				return t
			}
		}
		x.unsupported("unknown timer")
		return nil
	}
	mk := func(periodic bool) intrinsic {
		return func(x *Exec, c *callCtx) stepAct {
			d := c.term(0)
			if periodic && !x.branch(x.p.Slt(x.p.Int(0), d)) {
				x.strPanic("non-positive interval for NewTicker")
			}
			st, p, s := structOf(x, c)
			t := newTimer(x, d)
			if periodic {
				t.period = d
			}
			t.cell = p.c
			x.objs++
			t.ch = &ChanV{cap: 1, id: x.objs, et: st.Underlying().(*types.Struct).Field(0).Type().Underlying().(*types.Chan).Elem()}
			s.f[0].v = t.ch
			c.ret = p
			return actNext
		}
	}
	reg("time.NewTicker", mk(true))
	reg("time.NewTimer", mk(false))
	reg("time.AfterFunc", func(x *Exec, c *callCtx) stepAct {
		_, p, _ := structOf(x, c)
		t := newTimer(x, c.term(0))
		t.cell = p.c
		t.fn = c.args[1]
		c.ret = p
		return actNext
	})
	reg("time.After", func(x *Exec, c *callCtx) stepAct {
		t := newTimer(x, c.term(0))
		x.objs++
		t.ch = &ChanV{cap: 1, id: x.objs, et: c.fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem()}
		c.ret = t.ch
		return actNext
	})
	reg("time.Tick", func(x *Exec, c *callCtx) stepAct {
		t := newTimer(x, c.term(0))
		t.period = c.term(0)
		x.objs++
		t.ch = &ChanV{cap: 1, id: x.objs, et: c.fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem()}
		c.ret = t.ch
		return actNext
	})
	stop := func(x *Exec, c *callCtx) stepAct {
		if x.point(c.g) {
			return actResched
		}
		t := find(x, c.ptr(0))
		was := t.active
		t.active = false
		if t.ch != nil {
			t.ch.buf = nil // Go 1.23: stale values are discarded
		}
		if c.fn.Signature.Results().Len() > 0 {
			c.ret = x.p.Bool(was)
		}
		return actNext
	}
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Ticker).Stop", stop)
	reset := func(x *Exec, c *callCtx) stepAct {
		if x.point(c.g) {
			return actResched
		}
		t := find(x, c.ptr(0))
		was := t.active
		t.active = true
		t.when = x.p.Add(x.clock, c.term(1))
		if t.period != nil {
			t.period = c.term(1)
		}
		if t.ch != nil {
			t.ch.buf = nil
		}
		if c.fn.Signature.Results().Len() > 0 {
			c.ret = x.p.Bool(was)
		}
		return actNext
	}
	reg("(*time.Timer).Reset", reset)
	reg("(*time.Ticker).Reset", reset)
	reg("time.Sleep", func(x *Exec, c *callCtx) stepAct {
		g := c.g
		for _, t := range x.timers {
			if t.sleep == g && t.woke {
				t.sleep = nil
				t.woke = false
				return actNext
			}
		}
		if !x.branch(x.p.Slt(x.p.Int(0), c.term(0))) {
			return actNext
		}
		t := newTimer(x, c.term(0))
		t.sleep = g
		g.wait = func() bool { return t.woke }
		g.waitWhy = "Sleep"
		return actResched
	})
}
