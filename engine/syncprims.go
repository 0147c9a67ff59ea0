package main

import (
	"fmt"
	"go/types"
)

type mutexState struct {
	locked  bool
	owner   int
	readers int
	vc      map[int]int
}

type condState struct {
	q []*condWaiter
}

type condWaiter struct {
	g    *G
	woke bool
	vc   map[int]int
}

type wgState struct {
	n  int64
	vc map[int]int
}

func (x *Exec) mutex(p Ptr) *mutexState {
	if p.isNil() {
		x.nilDeref()
	}
	m := x.mutexes[p.c]
	if m == nil {
		m = &mutexState{}
		x.mutexes[p.c] = m
	}
	return m
}

func lockStep(x *Exec, c *callCtx, m *mutexState) stepAct {
	if x.point(c.g) {
		return actResched
	}
	if m.locked || m.readers > 0 {
		if x.inInit {
			x.unsupported("blocking lock in initialisation")
		}
		c.g.wait = func() bool { return !m.locked && m.readers == 0 }
		c.g.waitWhy = "Lock"
		return actResched
	}
	m.locked = true
	m.owner = c.g.id
	joinVC(c.g.vc, m.vc)
	return actNext
}

func (x *Exec) fatal(msg string) {
	x.violation("fatal", "fatal error: "+msg, nil)
}

func unlockStep(x *Exec, c *callCtx, m *mutexState) stepAct {
	if !m.locked {
		x.fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.vc = x.release(m.vc)
	return actNext
}

func locKey(p Ptr) interface{} {
	if p.c != nil {
		return p.c
	}
	return p.a
}

// atomicOp runs f on the location with sequentially consistent ordering.
func atomicOp(write bool, f func(x *Exec, c *callCtx, p Ptr, t types.Type)) intrinsic {
	return func(x *Exec, c *callCtx) stepAct {
		if x.point(c.g) {
			return actResched
		}
		p := c.ptr(0)
		t := c.fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
		k := locKey(p)
		if len(x.gs) > 1 && !x.inInit {
			joinVC(c.g.vc, x.atomVC[k])
		}
		x.access(k, write, true, c.ins)
		f(x, c, p, t)
		if write && len(x.gs) > 1 && !x.inInit {
			x.atomVC[k] = x.release(x.atomVC[k])
		}
		return actNext
	}
}

func (x *Exec) rawLoad(p Ptr, t types.Type) V {
	if p.a != nil {
		return x.arrGet(p.a, p.i)
	}
	return x.get(p.c, t)
}
func (x *Exec) rawStore(p Ptr, v V) {
	if p.a != nil {
		x.arrSet(p.a, p.i, v.(*Term))
		return
	}
	assign(p.c, v)
}

func init() {
	reg("(*sync.Mutex).Lock", func(x *Exec, c *callCtx) stepAct { return lockStep(x, c, x.mutex(x.asPtr(c.args[0]))) })
	reg("(*sync.Mutex).Unlock", func(x *Exec, c *callCtx) stepAct { return unlockStep(x, c, x.mutex(x.asPtr(c.args[0]))) })
	reg("(*sync.Mutex).TryLock", func(x *Exec, c *callCtx) stepAct {
		m := x.mutex(x.asPtr(c.args[0]))
		if x.point(c.g) {
			return actResched
		}
		if m.locked {
			c.ret = x.p.F
			return actNext
		}
		m.locked = true
		joinVC(c.g.vc, m.vc)
		c.ret = x.p.T
		return actNext
	})
	reg("(*sync.RWMutex).Lock", intrinsics["(*sync.Mutex).Lock"])
	reg("(*sync.RWMutex).Unlock", intrinsics["(*sync.Mutex).Unlock"])
	reg("(*sync.RWMutex).RLock", func(x *Exec, c *callCtx) stepAct {
		m := x.mutex(x.asPtr(c.args[0]))
		if x.point(c.g) {
			return actResched
		}
		if m.locked {
			c.g.wait = func() bool { return !m.locked }
			c.g.waitWhy = "RLock"
			return actResched
		}
		m.readers++
		joinVC(c.g.vc, m.vc)
		return actNext
	})
	reg("(*sync.RWMutex).RUnlock", func(x *Exec, c *callCtx) stepAct {
		m := x.mutex(x.asPtr(c.args[0]))
		if m.readers == 0 {
			x.fatal("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
		m.vc = x.release(m.vc)
		return actNext
	})
	// Cond
	condL := func(x *Exec, p Ptr, c *callCtx) Iface {
		s := x.get(p.c, c.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()).(*StructV)
		st := c.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "L" {
				l, _ := s.f[i].v.(Iface)
				return l
			}
		}
		return Iface{}
	}
	reg("(*sync.Cond).Wait", func(x *Exec, c *callCtx) stepAct {
		p := c.ptr(0)
		cs := x.conds[p.c]
		if cs == nil {
			cs = &condState{}
			x.conds[p.c] = cs
		}
		l := condL(x, p, c)
		lp, ok := l.v.(Ptr)
		if !ok {
			x.unsupported("condition without a mutex locker")
		}
		m := x.mutex(lp)
		g := c.g
		if w := g.cw; w != nil {
			// woken: take the lock again
			if m.locked || m.readers > 0 {
				g.wait = func() bool { return !m.locked && m.readers == 0 }
				g.waitWhy = "Cond.Wait relock"
				return actResched
			}
			g.cw = nil
			m.locked = true
			m.owner = g.id
			joinVC(g.vc, m.vc)
			joinVC(g.vc, w.vc)
			return actNext
		}
		if !m.locked {
			x.fatal("sync: unlock of unlocked mutex (Cond.Wait)")
		}
		m.locked = false
		m.vc = x.release(m.vc)
		w := &condWaiter{g: g}
		cs.q = append(cs.q, w)
		g.cw = w
		g.wait = func() bool { return w.woke && !m.locked && m.readers == 0 }
		g.waitWhy = "Cond.Wait"
		return actResched
	})
	sig := func(all bool) intrinsic {
		return func(x *Exec, c *callCtx) stepAct {
			p := c.ptr(0)
			if x.point(c.g) {
				return actResched
			}
			cs := x.conds[p.c]
			if cs == nil {
				return actNext
			}
			for len(cs.q) > 0 {
				w := cs.q[0]
				cs.q = cs.q[1:]
				w.woke = true
				w.vc = x.release(nil)
				if !all {
					break
				}
			}
			return actNext
		}
	}
	reg("(*sync.Cond).Signal", sig(false))
	reg("(*sync.Cond).Broadcast", sig(true))
	// WaitGroup
	wg := func(x *Exec, p Ptr) *wgState {
		if p.isNil() {
			x.nilDeref()
		}
		w := x.wgs[p.c]
		if w == nil {
			w = &wgState{}
			x.wgs[p.c] = w
		}
		return w
	}
	wgAdd := func(x *Exec, c *callCtx, w *wgState, d int64) stepAct {
		w.n += d
		w.vc = x.release(w.vc)
		if w.n < 0 {
			x.strPanic("sync: negative WaitGroup counter")
		}
		return actNext
	}
	reg("(*sync.WaitGroup).Add", func(x *Exec, c *callCtx) stepAct {
		if x.point(c.g) {
			return actResched
		}
		d := x.concretize(c.term(1), 16, "WaitGroup.Add")
		return wgAdd(x, c, wg(x, c.ptr(0)), int64(d))
	})
	reg("(*sync.WaitGroup).Done", func(x *Exec, c *callCtx) stepAct {
		if x.point(c.g) {
			return actResched
		}
		return wgAdd(x, c, wg(x, c.ptr(0)), -1)
	})
	reg("(*sync.WaitGroup).Wait", func(x *Exec, c *callCtx) stepAct {
		w := wg(x, c.ptr(0))
		if x.point(c.g) {
			return actResched
		}
		if w.n > 0 {
			c.g.wait = func() bool { return w.n == 0 }
			c.g.waitWhy = "WaitGroup.Wait"
			return actResched
		}
		joinVC(c.g.vc, w.vc)
		return actNext
	})
	// Pool: last in, first out
	reg("(*sync.Pool).Put", func(x *Exec, c *callCtx) stepAct {
		p := c.ptr(0)
		if i := c.iface(1); i.t != nil {
			it := poolItem{v: i}
			if len(x.gs) > 1 && !x.inInit {
				it.vc = x.release(nil)
			}
			x.pools[p.c] = append(x.pools[p.c], it)
		}
		return actNext
	})
	reg("(*sync.Pool).Get", func(x *Exec, c *callCtx) stepAct {
		p := c.ptr(0)
		if q := x.pools[p.c]; len(q) > 0 {
			c.ret = q[len(q)-1].v
			joinVC(c.g.vc, q[len(q)-1].vc)
			x.pools[p.c] = q[: len(q)-1 : len(q)-1]
			return actNext
		}
		pt := c.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		s := x.get(p.c, pt).(*StructV)
		st := pt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				cl, _ := s.f[i].v.(*Closure)
				if cl == nil {
					c.ret = Iface{}
					return actNext
				}
				if c.f == nil || c.ins == nil {
					x.unsupported("Pool.Get outside a call")
				}
				x.pushCall(c.g, cl, nil, c.ins, nil)
				return actStay
			}
		}
		c.ret = Iface{}
		return actNext
	})
	// atomics
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+n, atomicOp(false, func(x *Exec, c *callCtx, p Ptr, t types.Type) { c.ret = x.rawLoad(p, t) }))
		reg("sync/atomic.Store"+n, atomicOp(true, func(x *Exec, c *callCtx, p Ptr, t types.Type) { x.rawStore(p, c.args[1]) }))
		reg("sync/atomic.Swap"+n, atomicOp(true, func(x *Exec, c *callCtx, p Ptr, t types.Type) {
			c.ret = x.rawLoad(p, t)
			x.rawStore(p, c.args[1])
		}))
		reg("sync/atomic.CompareAndSwap"+n, atomicOp(true, func(x *Exec, c *callCtx, p Ptr, t types.Type) {
			old := x.rawLoad(p, t)
			if x.branch(x.equal(old, c.args[1], t)) {
				x.rawStore(p, c.args[2])
				c.ret = x.p.T
			} else {
				c.ret = x.p.F
			}
		}))
		reg("sync/atomic.Add"+n, atomicOp(true, func(x *Exec, c *callCtx, p Ptr, t types.Type) {
			v := x.p.Add(x.rawLoad(p, t).(*Term), c.args[1].(*Term))
			x.rawStore(p, v)
			c.ret = v
		}))
		reg("sync/atomic.And"+n, atomicOp(true, func(x *Exec, c *callCtx, p Ptr, t types.Type) {
			v := x.rawLoad(p, t).(*Term)
			x.rawStore(p, x.p.bitop(OBAnd, v, c.args[1].(*Term)))
			c.ret = v
		}))
		reg("sync/atomic.Or"+n, atomicOp(true, func(x *Exec, c *callCtx, p Ptr, t types.Type) {
			v := x.rawLoad(p, t).(*Term)
			x.rawStore(p, x.p.bitop(OBOr, v, c.args[1].(*Term)))
			c.ret = v
		}))
	}
	// atomic.Value: the content lives beside the cell
	valOp := func(f func(x *Exec, c *callCtx, key string)) intrinsic {
		return func(x *Exec, c *callCtx) stepAct {
			p := c.ptr(0)
			if x.point(c.g) {
				return actResched
			}
			if len(x.gs) > 1 && !x.inInit {
				joinVC(c.g.vc, x.atomVC[p.c])
				x.atomVC[p.c] = x.release(x.atomVC[p.c])
			}
			f(x, c, fmt.Sprintf("av%p", p.c))
			return actNext
		}
	}
	reg("(*sync/atomic.Value).Load", valOp(func(x *Exec, c *callCtx, k string) {
		v, ok := x.locals[k]
		if !ok {
			v = Iface{}
		}
		c.ret = v
	}))
	reg("(*sync/atomic.Value).Store", valOp(func(x *Exec, c *callCtx, k string) {
		if c.iface(1).t == nil {
			x.strPanic("sync/atomic: store of nil value into Value")
		}
		x.locals[k] = c.args[1]
	}))
	reg("(*sync/atomic.Value).Swap", valOp(func(x *Exec, c *callCtx, k string) {
		v, ok := x.locals[k]
		if !ok {
			v = Iface{}
		}
		c.ret = v
		x.locals[k] = c.args[1]
	}))
	// sync.Map
	smap := func(f func(x *Exec, c *callCtx, m *MapV)) intrinsic {
		return valOp(func(x *Exec, c *callCtx, k string) {
			k = "sm" + k
			m, ok := x.locals[k].(*MapV)
			if !ok {
				e := types.NewInterfaceType(nil, nil)
				m = x.newMap(e, e)
				x.locals[k] = m
			}
			f(x, c, m)
		})
	}
	reg("(*sync.Map).Load", smap(func(x *Exec, c *callCtx, m *MapV) {
		if e := x.mapFind(m, c.args[1]); e != nil {
			c.ret = Tuple{e.v, x.p.T}
		} else {
			c.ret = Tuple{Iface{}, x.p.F}
		}
	}))
	reg("(*sync.Map).Store", smap(func(x *Exec, c *callCtx, m *MapV) { x.mapSet(m, c.args[1], c.args[2]) }))
	reg("(*sync.Map).Delete", smap(func(x *Exec, c *callCtx, m *MapV) { x.mapDelete(m, c.args[1]) }))
	reg("(*sync.Map).LoadOrStore", smap(func(x *Exec, c *callCtx, m *MapV) {
		if e := x.mapFind(m, c.args[1]); e != nil {
			c.ret = Tuple{e.v, x.p.T}
			return
		}
		x.mapSet(m, c.args[1], c.args[2])
		c.ret = Tuple{c.args[2], x.p.F}
	}))
	reg("(*sync.Map).LoadAndDelete", smap(func(x *Exec, c *callCtx, m *MapV) {
		if e := x.mapFind(m, c.args[1]); e != nil {
			v := e.v
			x.mapDelete(m, c.args[1])
			c.ret = Tuple{v, x.p.T}
			return
		}
		c.ret = Tuple{Iface{}, x.p.F}
	}))
	reg("runtime.Gosched", func(x *Exec, c *callCtx) stepAct {
		if c.g.granted || x.inInit {
			return actNext
		}
		c.g.yielded = true
		c.g.wait = nil
		return actResched
	})
	reg("runtime.Goexit", func(x *Exec, c *callCtx) stepAct { x.unsupported("runtime.Goexit"); return actNext })
}
