package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Channel operations follow the runtime: waiters queue in order and are served directly.

func (x *Exec) popWaiter(q *[]*Waiter) *Waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel.done {
			continue
		}
		return w
	}
	return nil
}

func (x *Exec) hasWaiter(q []*Waiter) bool {
	for _, w := range q {
		if !w.sel.done {
			return true
		}
	}
	return false
}

func (x *Exec) complete(w *Waiter, v V, ok bool) {
	w.sel.done = true
	w.sel.w = w
	w.val, w.ok = v, ok
}

func never() bool { return false }

// park blocks g on the given waiters.
func (x *Exec) park(g *G, s *selState, why string) stepAct {
	g.blocked = s
	g.wait = func() bool { return s.done }
	g.waitWhy = why
	return actResched
}

// woken returns the state of a completed blocking operation.
func (x *Exec) woken(g *G) *selState {
	s := g.blocked
	if s == nil || !s.done {
		return nil
	}
	g.blocked = nil
	// remove the other waiters of the operation
	for _, cw := range s.ws {
		if cw.w == s.w {
			continue
		}
		cw.c.recvq = dropWaiter(cw.c.recvq, cw.w)
		cw.c.sendq = dropWaiter(cw.c.sendq, cw.w)
	}
	if s.w.vc != nil {
		joinVC(g.vc, s.w.vc)
	}
	return s
}

func dropWaiter(q []*Waiter, w *Waiter) []*Waiter {
	for i := range q {
		if q[i] == w {
			return append(q[:i:i], q[i+1:]...)
		}
	}
	return q
}

func (x *Exec) canRecv(c *ChanV) bool {
	return c != nil && (len(c.buf) > 0 || c.closed || x.hasWaiter(c.sendq))
}
func (x *Exec) canSend(c *ChanV) bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || x.hasWaiter(c.recvq))
}

func (x *Exec) doRecv(c *ChanV) (v V, ok bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = append([]chanItem(nil), c.buf[1:]...)
		joinVC(x.cur.vc, it.vc)
		if w := x.popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, chanItem{w.val, w.vc})
			w.vc = copyVC(x.cur.vc)
			x.complete(w, nil, true)
		}
		return it.v, true
	}
	if w := x.popWaiter(&c.sendq); w != nil {
		v := w.val
		joinVC(x.cur.vc, w.vc)
		w.vc = copyVC(x.cur.vc)
		x.cur.vc[x.cur.id]++
		x.complete(w, nil, true)
		return v, true
	}
	joinVC(x.cur.vc, c.closeVC)
	return x.zero(c.et), false
}

func (x *Exec) doSend(c *ChanV, v V) {
	if c.closed {
		x.strPanicRT("send on closed channel")
	}
	vc := x.release(nil)
	if w := x.popWaiter(&c.recvq); w != nil {
		w.vc = vc
		x.complete(w, v, true)
		return
	}
	c.buf = append(c.buf, chanItem{v, vc})
}

func (x *Exec) strPanicRT(msg string) {
	x.throw(Iface{t: x.w.eng.rtErrType, v: Str{s: msg}})
}

func (x *Exec) closeChan(v V, ins ssa.Instruction) {
	c, _ := v.(*ChanV)
	if c == nil {
		x.strPanicRT("close of nil channel")
	}
	if c.closed {
		x.strPanicRT("close of closed channel")
	}
	c.closed = true
	c.closeVC = x.release(nil)
	for {
		w := x.popWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.vc = copyVC(c.closeVC)
		x.complete(w, x.zero(c.et), false)
	}
	for {
		w := x.popWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.vc = copyVC(c.closeVC)
		x.complete(w, nil, false)
	}
}

func (x *Exec) recv(g *G, f *Frame, ins *ssa.UnOp) stepAct {
	c, _ := x.val(f, ins.X).(*ChanV)
	done := func(v V, ok bool) stepAct {
		if v == nil {
			v = x.zero(ins.X.Type().Underlying().(*types.Chan).Elem())
		}
		if ins.CommaOk {
			x.set(f, ins, Tuple{v, x.p.Bool(ok)})
		} else {
			x.set(f, ins, v)
		}
		return actNext
	}
	if s := x.woken(g); s != nil {
		return done(s.w.val, s.w.ok)
	}
	if x.point(g) {
		return actResched
	}
	if x.canRecv(c) {
		v, ok := x.doRecv(c)
		return done(v, ok)
	}
	if c == nil {
		g.wait, g.waitWhy = never, "receive from nil channel"
		return actResched
	}
	s := &selState{}
	w := &Waiter{g: g, ci: -1, sel: s}
	s.ws = []*chanWait{{c, w}}
	c.recvq = append(c.recvq, w)
	return x.park(g, s, "receive")
}

func (x *Exec) send(g *G, f *Frame, ins *ssa.Send) stepAct {
	c, _ := x.val(f, ins.Chan).(*ChanV)
	if s := x.woken(g); s != nil {
		if !s.w.ok {
			x.strPanicRT("send on closed channel")
		}
		return actNext
	}
	if x.point(g) {
		return actResched
	}
	v := copyVal(x.val(f, ins.X))
	if x.canSend(c) {
		x.doSend(c, v)
		return actNext
	}
	if c == nil {
		g.wait, g.waitWhy = never, "send to nil channel"
		return actResched
	}
	s := &selState{}
	w := &Waiter{g: g, ci: -1, sel: s, send: true, val: v, vc: x.release(nil)}
	s.ws = []*chanWait{{c, w}}
	c.sendq = append(c.sendq, w)
	return x.park(g, s, "send")
}

func (x *Exec) selectStmt(g *G, f *Frame, ins *ssa.Select) stepAct {
	finish := func(k int, v V, ok bool) stepAct {
		t := Tuple{x.p.Int(int64(k)), x.p.Bool(ok)}
		for i, st := range ins.States {
			if st.Dir == types.RecvOnly {
				et := st.Chan.Type().Underlying().(*types.Chan).Elem()
				if i == k && v != nil {
					t = append(t, v)
				} else {
					t = append(t, x.zero(et))
				}
			}
		}
		x.set(f, ins, t)
		return actNext
	}
	if s := x.woken(g); s != nil {
		if s.w.send {
			if !s.w.ok {
				x.strPanicRT("send on closed channel")
			}
			return finish(s.w.ci, nil, false)
		}
		return finish(s.w.ci, s.w.val, s.w.ok)
	}
	if x.point(g) {
		return actResched
	}
	var ready []int
	for i, st := range ins.States {
		c, _ := x.val(f, st.Chan).(*ChanV)
		if st.Dir == types.SendOnly {
			if x.canSend(c) {
				ready = append(ready, i)
			}
		} else if x.canRecv(c) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := ready[x.selChoice(len(ready))]
		st := ins.States[k]
		c := x.val(f, st.Chan).(*ChanV)
		if st.Dir == types.SendOnly {
			x.doSend(c, copyVal(x.val(f, st.Send)))
			return finish(k, nil, false)
		}
		v, ok := x.doRecv(c)
		return finish(k, v, ok)
	}
	if !ins.Blocking {
		return finish(-1, nil, false)
	}
	s := &selState{}
	for i, st := range ins.States {
		c, _ := x.val(f, st.Chan).(*ChanV)
		if c == nil {
			continue
		}
		w := &Waiter{g: g, ci: i, sel: s}
		if st.Dir == types.SendOnly {
			w.send = true
			w.val = copyVal(x.val(f, st.Send))
			w.vc = x.release(nil)
			c.sendq = append(c.sendq, w)
		} else {
			c.recvq = append(c.recvq, w)
		}
		s.ws = append(s.ws, &chanWait{c, w})
	}
	return x.park(g, s, "select")
}

// selChoice picks among the ready cases of a select, exploring all.
func (x *Exec) selChoice(n int) int {
	if n <= 1 {
		return 0
	}
	x.w.stats.SchedVars++
	v := x.p.Var(x.freshName("select"), 16)
	k := x.choose(n)
	x.assume(x.p.Eq(v, x.p.BV(16, uint64(k))))
	return k
}
