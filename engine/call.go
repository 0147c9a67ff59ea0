package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callCtx is one invocation of an engine-implemented function.
type callCtx struct {
	x    *Exec
	g    *G
	f    *Frame
	fn   *ssa.Function
	args []V
	ins  ssa.Instruction // call site, nil when unknown
	ret  V
	st   interface{} // scratch surviving rescheduling (native frames only)
}

type intrinsic func(x *Exec, c *callCtx) stepAct

func (c *callCtx) term(i int) *Term {
	t, ok := c.args[i].(*Term)
	if !ok {
		if c.args[i] == nil {
			return c.x.zero(c.fn.Signature.Params().At(i).Type()).(*Term)
		}
		if pi, ok := c.args[i].(PtrInt); ok {
			return c.x.ptrIntTerm(pi)
		}
		c.x.unsupported("scalar argument expected for %s, got %T", c.fn, c.args[i])
	}
	return t
}
func (c *callCtx) str(i int) string {
	s, _ := c.args[i].(Str)
	if s.mem != nil {
		c.x.unsupported("concrete string expected by %s", c.fn)
	}
	return s.s
}
func (c *callCtx) ptr(i int) Ptr {
	p := c.x.asPtr(c.args[i])
	if p.isNil() {
		c.x.nilDeref()
	}
	return p
}
func (c *callCtx) slice(i int) Slice {
	s, ok := c.args[i].(Slice)
	if !ok {
		z := c.x.p.Int(0)
		return Slice{nil, z, z, z}
	}
	return s
}
func (c *callCtx) iface(i int) Iface { v, _ := c.args[i].(Iface); return v }

// intWord converts a signature result index type.
func (c *callCtx) retInt(t *Term) stepAct { c.ret = t; return actNext }

// target is a resolved callee.
type target struct {
	fn      *ssa.Function
	args    []V
	free    []V
	builtin *ssa.Builtin
	native  func(x *Exec, args []V) V
	rtype   string // method of reflect.Type
}

// resolve finds what a call runs.
func (x *Exec) resolve(common *ssa.CallCommon, fn, recv V, args []V) target {
	if common != nil && common.IsInvoke() {
		i, _ := recv.(Iface)
		return x.resolveMethod(i, common.Method, args)
	}
	switch c := fn.(type) {
	case *ssa.Builtin:
		return target{builtin: c, args: args}
	case *Closure:
		if c == nil {
			x.nilDeref()
		}
		if c.native != nil {
			return target{native: c.native, args: args}
		}
		if c.fn.Pkg != nil && c.fn.Pkg.Pkg.Path() == "net" {
			// the network is played by the harness
			if hook := netHooks[c.fn.String()]; hook != "" {
				if h := x.h.fn.Pkg.Func(hook); h != nil {
					return target{fn: h, args: args}
				}
			}
		}
		return target{fn: c.fn, args: args, free: c.free}
	case nil:
		x.nilDeref()
	}
	x.unsupported("call of %T", fn)
	return target{}
}

var netHooks = map[string]string{
	"net.Listen":         "vfNetListen",
	"(*net.Dialer).Dial": "vfNetDial",
}

type methKey struct {
	t  uint64
	id string
}

func (x *Exec) resolveMethod(i Iface, m *types.Func, args []V) target {
	if i.t == nil {
		x.nilDeref()
	}
	if rt, ok := i.v.(RType); ok {
		return target{rtype: m.Name(), args: append([]V{rt}, args...)}
	}
	if i.t == x.w.eng.rtErrType {
		if m.Name() == "Error" {
			s := i.v
			return target{native: func(x *Exec, args []V) V { return s }}
		}
		return target{native: func(x *Exec, args []V) V { return nil }}
	}
	fn := x.w.method(i.t, m.Pkg(), m.Name())
	if fn == nil {
		x.unsupported("method %s of %s", m.Name(), i.t)
	}
	v := copyVal(i.v)
	if v == nil {
		v = x.zero(i.t)
	}
	return target{fn: fn, args: append([]V{v}, args...)}
}

func (w *Worker) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{w.eng.typeID(t), types.Id(pkg, name)}
	if f, ok := w.methods[k]; ok {
		return f
	}
	w.eng.buildMu.Lock()
	var f *ssa.Function
	if sel := w.eng.prog.MethodSets.MethodSet(t).Lookup(pkg, name); sel != nil {
		f = w.eng.prog.MethodValue(sel)
	}
	w.eng.buildMu.Unlock()
	w.methods[k] = f
	return f
}

func (x *Exec) evalArgs(f *Frame, common *ssa.CallCommon) (fn, recv V, args []V) {
	if common.IsInvoke() {
		recv = x.val(f, common.Value)
	} else {
		fn = x.val(f, common.Value)
	}
	args = make([]V, len(common.Args))
	for i, a := range common.Args {
		args[i] = copyVal(x.val(f, a))
	}
	return
}

func (x *Exec) call(g *G, f *Frame, ins *ssa.Call) stepAct {
	fn, recv, args := x.evalArgs(f, &ins.Call)
	t := x.resolve(&ins.Call, fn, recv, args)
	switch {
	case t.builtin != nil:
		if t.builtin.Name() == "close" && x.point(g) {
			return actResched
		}
		r := x.builtin(g, f, t.builtin, t.args, ins)
		x.set(f, ins, r)
		return actNext
	case t.native != nil:
		x.set(f, ins, t.native(x, t.args))
		return actNext
	case t.rtype != "":
		x.set(f, ins, x.typeMethod(t.rtype, t.args))
		return actNext
	}
	info := x.info(t.fn)
	if info.intr != nil {
		c := &callCtx{x: x, g: g, f: f, fn: t.fn, args: t.args, ins: ins}
		act := info.intr(x, c)
		if act == actNext {
			x.set(f, ins, c.ret)
		}
		return act
	}
	if len(g.frames) > 400 {
		x.violation("stack", "unbounded recursion", nil)
	}
	nf := x.newFrame(t.fn, t.args, t.free)
	nf.calls = ins
	g.frames = append(g.frames, nf)
	return actStay
}

// pushCall runs a function value and hands its result to ret; used by intrinsics (return actStay afterwards).
func (x *Exec) pushCall(g *G, fn V, args []V, ins ssa.Instruction, ret func(V)) {
	c, _ := fn.(*Closure)
	if c == nil {
		x.nilDeref()
	}
	nf := x.makeFrame(g, c, args)
	if call, ok := ins.(*ssa.Call); ok && ret == nil {
		nf.calls = call
	} else {
		nf.ret = ret
	}
	g.frames = append(g.frames, nf)
}

// makeFrame builds a frame for any function value.
func (x *Exec) makeFrame(g *G, c *Closure, args []V) *Frame {
	if c.native != nil {
		return &Frame{info: nativeInfo, nat: func(*Frame) (V, stepAct) { return c.native(x, args), actNext }}
	}
	if info := x.info(c.fn); info.intr != nil {
		cc := &callCtx{x: x, g: g, fn: c.fn, args: args}
		return &Frame{info: nativeInfo, nat: func(f *Frame) (V, stepAct) {
			cc.f = f
			act := info.intr(x, cc)
			return cc.ret, act
		}}
	}
	return x.newFrame(c.fn, args, c.free)
}

var nativeInfo = &fnInfo{name: "native"}

func (x *Exec) prepDefer(f *Frame, common *ssa.CallCommon, ins ssa.Instruction) deferred {
	fn, recv, args := x.evalArgs(f, common)
	if common.IsInvoke() {
		if i, _ := recv.(Iface); i.t == nil {
			x.nilDeref()
		}
	}
	return deferred{call: common, fn: fn, args: args, recv: recv, pos: ins}
}

// invokeValue starts a deferred call; true means a frame was pushed.
func (x *Exec) invokeValue(g *G, f *Frame, common *ssa.CallCommon, fn, recv V, args []V, pos ssa.Instruction, setup func(*Frame)) bool {
	t := x.resolve(common, fn, recv, args)
	var nf *Frame
	switch {
	case t.builtin != nil:
		if t.builtin.Name() == "close" {
			nf = &Frame{info: nativeInfo, nat: func(*Frame) (V, stepAct) {
				if x.point(g) {
					return nil, actResched
				}
				x.builtin(g, nil, t.builtin, t.args, pos)
				return nil, actNext
			}}
			break
		}
		x.builtin(g, nil, t.builtin, t.args, pos)
		return false
	case t.native != nil:
		t.native(x, t.args)
		return false
	case t.rtype != "":
		return false
	default:
		nf = x.makeFrame(g, &Closure{fn: t.fn, free: t.free}, t.args)
	}
	setup(nf)
	g.frames = append(g.frames, nf)
	return true
}

func (x *Exec) goStmt(d deferred) {
	t := x.resolve(d.call, d.fn, d.recv, d.args)
	switch {
	case t.builtin != nil, t.rtype != "":
		x.unsupported("go of a builtin")
	case t.native != nil:
		n := t.native
		x.spawn(&Closure{native: n}, t.args, "native")
	default:
		x.spawn(&Closure{fn: t.fn, free: t.free}, t.args, t.fn.Name())
	}
}

// ---- builtins ----

func (x *Exec) builtin(g *G, f *Frame, b *ssa.Builtin, args []V, ins ssa.Instruction) V {
	p := x.p
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case Slice:
			return v.len
		case Str:
			return x.strLen(v)
		case *MapV:
			if v == nil {
				return p.Int(0)
			}
			x.access(v, false, false, ins)
			return p.Int(int64(v.n))
		case *ChanV:
			if v == nil {
				return p.Int(0)
			}
			return p.Int(int64(len(v.buf)))
		case *Arr:
			return x.arrLen(v)
		case Ptr:
			if v.c != nil {
				if a, ok := v.c.v.(*Arr); ok {
					return x.arrLen(a)
				}
			}
		case nil:
			return p.Int(0)
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return v.cap
		case *ChanV:
			if v == nil {
				return p.Int(0)
			}
			return p.Int(int64(v.cap))
		case *Arr:
			return x.arrLen(v)
		}
	case "append":
		s, _ := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		var et types.Type
		if c, ok := ins.(ssa.CallInstruction); ok {
			et = c.Common().Args[0].Type().Underlying().(*types.Slice).Elem()
		}
		switch t := args[1].(type) {
		case Str:
			return x.appendSlice(s, x.strToBytes(t, types.Typ[types.Uint8]), et, ins)
		case Slice:
			return x.appendSlice(s, t, et, ins)
		}
	case "copy":
		d := args[0].(Slice)
		switch s := args[1].(type) {
		case Str:
			return x.copySlice(d, x.strToBytes(s, types.Typ[types.Uint8]), ins)
		case Slice:
			return x.copySlice(d, s, ins)
		}
	case "delete":
		m, _ := args[0].(*MapV)
		if m == nil {
			return nil
		}
		x.access(m, true, false, ins)
		x.mapDelete(m, args[1])
		return nil
	case "clear":
		switch m := args[0].(type) {
		case *MapV:
			if m != nil {
				for len(m.ents) > 0 {
					x.mapDrop(m, m.ents[0])
				}
			}
			return nil
		case Slice:
			if m.a == nil {
				return nil
			}
			n := x.concretize(m.len, 4096, "clear")
			for i := uint64(0); i < n; i++ {
				q := x.elemPtr(m.a, p.Add(m.off, p.Int(int64(i))))
				x.store(q, x.zero(m.a.elem), m.a.elem, ins)
			}
			return nil
		}
	case "close":
		x.closeChan(args[0], ins)
		return nil
	case "panic":
		v := args[0]
		if i, ok := v.(Iface); ok && i.t == nil {
			x.rtPanic("panic called with nil argument")
		}
		x.throw(v)
	case "recover":
		return x.doRecover(g, f)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := ins.(ssa.Value).Type()
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if _, ok := r.(*Term); !ok {
				x.unsupported("min/max of %T", r)
			}
			c := x.binop(op, t, a, r, t).(*Term)
			r = p.Ite(c, a.(*Term), r.(*Term))
		}
		return r
	case "ssa:wrapnilchk":
		if q, ok := args[0].(Ptr); ok && q.isNil() {
			x.nilDeref()
		}
		return args[0]
	case "real", "imag", "complex":
	case "Slice": // unsafe.Slice
		q := x.asPtr(args[0])
		n := x.toInt64(args[1], types.Typ[types.Int])
		et := ins.(ssa.Value).Type().Underlying().(*types.Slice).Elem()
		return x.sliceAt(q, et, n, n)
	case "SliceData":
		s := args[0].(Slice)
		if s.a == nil {
			return Ptr{}
		}
		if s.a.sc {
			return Ptr{a: s.a, i: s.off}
		}
		return x.elemPtr(s.a, s.off)
	case "StringData":
		s := args[0].(Str)
		b := x.strToBytes(s, types.Typ[types.Uint8])
		return Ptr{a: b.a, i: b.off}
	case "String": // unsafe.String
		q := x.asPtr(args[0])
		n := x.toInt64(args[1], types.Typ[types.Int])
		return x.bytesToStr(x.sliceAt(q, types.Typ[types.Uint8], n, n).(Slice))
	case "Add":
		q := x.asPtr(args[0])
		if q.a != nil {
			d := x.toInt64(args[1], types.Typ[types.Int])
			if q.a.w == 8 {
				return Ptr{a: q.a, i: p.Add(q.i, d)}
			}
		}
	}
	x.unsupported("builtin %s(%T)", b.Name(), args[0])
	return nil
}

// doRecover implements recover: valid directly inside a deferred call of the panicking frame.
func (x *Exec) doRecover(g *G, f *Frame) V {
	if n := len(g.panics); n > 0 && f != nil && f.deferOf != nil {
		rec := g.panics[n-1]
		if !rec.recovered && rec.frame == f.deferOf {
			rec.recovered = true
			v := rec.val
			if i, ok := v.(Iface); ok {
				return i
			}
			return v
		}
	}
	return Iface{}
}

var growTypes = map[int]reflect.Type{}

// growCap mirrors the runtime's growth of append for element size sz.
func growCap(sz, oldCap, oldLen, add int) int {
	need := oldLen + add
	if sz == 0 {
		return need
	}
	if oldCap < oldLen {
		oldCap = oldLen
	}
	newcap := oldCap
	double := newcap + newcap
	if need > double {
		newcap = need
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < need {
			newcap += (newcap + 3*256) >> 2
		}
	}
	// size class rounding
	n := newcap * sz
	for _, c := range sizeClasses {
		if n <= c {
			return c / sz
		}
	}
	return (n + 8191) / 8192 * 8192 / sz
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func (x *Exec) appendSlice(s, t Slice, et types.Type, ins ssa.Instruction) V {
	p := x.p
	if s.len == nil {
		z := p.Int(0)
		s = Slice{nil, z, z, z}
	}
	if t.len == nil || (t.len.isConst() && t.len.k == 0) {
		return s
	}
	need := p.Add(s.len, t.len)
	if et == nil {
		if t.a != nil {
			et = t.a.elem
		} else if s.a != nil {
			et = s.a.elem
		}
	}
	if s.a != nil && x.branch(p.Ule(need, s.cap)) {
		d := Slice{s.a, p.Add(s.off, s.len), t.len, p.Sub(s.cap, s.len)}
		x.copySlice(d, t, ins)
		return Slice{s.a, s.off, need, s.cap}
	}
	w, sc := scalarWidth(et)
	var na *Arr
	var ncap *Term
	if need.isConst() && s.cap.isConst() {
		sz := 1
		if x.w.eng.sizes != nil {
			sz = int(x.w.eng.sizes.Sizeof(et))
		}
		nc := growCap(sz, int(s.cap.k), int(s.len.k), int(t.len.k))
		na = x.newArr(et, nc)
		ncap = p.Int(int64(nc))
	} else if sc {
		x.objs++
		ncap = need
		na = &Arr{elem: et, nt: ncap, sc: true, w: w, mem: &Mem{kind: mZero, w: w}, id: x.objs}
	} else {
		c := x.concretize(need, 300, "append length")
		na = x.newArr(et, int(c))
		ncap = p.Int(int64(c))
	}
	r := Slice{na, p.Int(0), need, ncap}
	if s.a != nil {
		x.copySlice(Slice{na, p.Int(0), s.len, ncap}, s, ins)
	}
	x.copySlice(Slice{na, s.len, t.len, p.Sub(ncap, s.len)}, t, ins)
	return r
}

// copySlice copies min(len) elements and returns the count.
func (x *Exec) copySlice(d, s Slice, ins ssa.Instruction) *Term {
	p := x.p
	if d.a == nil || s.a == nil {
		return p.Int(0)
	}
	var n *Term
	switch {
	case d.len == s.len:
		n = d.len
	default:
		c := p.Ult(d.len, s.len)
		if x.branch(c) {
			n = d.len
		} else {
			n = s.len
		}
	}
	if n.isConst() && n.k == 0 {
		return n
	}
	if len(x.gs) > 1 {
		x.access(d.a, true, false, ins)
		x.access(s.a, false, false, ins)
	}
	if d.a.sc && s.a.sc {
		m, o := x.snapshot(s.a, s.off, n)
		x.copyScalar(d.a, d.off, n, m, o)
		return n
	}
	k := x.concretize(n, 300, "copy length")
	do := x.concretize(d.off, 300, "copy offset")
	so := x.concretize(s.off, 300, "copy offset")
	tmp := make([]V, k)
	for i := range tmp {
		tmp[i] = copyVal(s.a.cells[so+uint64(i)].v)
	}
	for i := range tmp {
		assign(&d.a.cells[do+uint64(i)], tmp[i])
	}
	return n
}

// ---- intrinsic table ----

var intrinsics = map[string]intrinsic{}

func reg(name string, f intrinsic) { intrinsics[name] = f }

func nop(x *Exec, c *callCtx) stepAct {
	r := c.fn.Signature.Results()
	if r.Len() > 0 {
		c.ret = x.zeroResults(c.fn)
	}
	return actNext
}

func (e *Engine) findIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if o := fn.Origin(); o != nil {
		if f, ok := intrinsics[o.String()]; ok {
			return f
		}
	}
	// package initialisers are run by the engine
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic == "package initializer" {
		pkg := ""
		if fn.Pkg != nil {
			pkg = fn.Pkg.Pkg.Path()
		}
		user := e.isUser(pkg)
		return func(x *Exec, c *callCtx) stepAct {
			_ = user
			return actNext
		}
	}
	if fn.Pkg != nil && e.isUser(fn.Pkg.Pkg.Path()) && fn.Pos().IsValid() && fn.Parent() == nil && strings.HasPrefix(fn.Name(), "vf") {
		if strings.Contains(e.prog.Fset.Position(fn.Pos()).Filename, "zz_verif_api") {
			f, ok := vfIntrinsics[fn.Name()]
			if !ok {
				n := fn.Name()
				return func(x *Exec, c *callCtx) stepAct { x.unsupported("harness primitive %s", n); return actNext }
			}
			return f
		}
	}
	return nil
}

func concreteStr(v V) (string, bool) {
	s, ok := v.(Str)
	return s.s, ok && s.mem == nil
}

func (x *Exec) mkStrSlice(ss []string) Slice {
	a := x.newArr(types.Typ[types.String], len(ss))
	for i, s := range ss {
		a.cells[i].v = Str{s: s}
	}
	n := x.p.Int(int64(len(ss)))
	return Slice{a, x.p.Int(0), n, n}
}

func (x *Exec) mkError(msg string) V {
	return Iface{t: x.w.eng.errStrType, v: Ptr{c: &Cell{v: &StructV{f: []Cell{{v: Str{s: msg}}}}}}}
}

func init() {
	// strings on concrete arguments
	type s2b = func(a, b string) bool
	for n, f := range map[string]s2b{"HasPrefix": strings.HasPrefix, "HasSuffix": strings.HasSuffix, "Contains": strings.Contains, "EqualFold": strings.EqualFold} {
		f := f
		n := n
		reg("strings."+n, func(x *Exec, c *callCtx) stepAct {
			a, ok1 := concreteStr(c.args[0])
			b, ok2 := concreteStr(c.args[1])
			if !ok1 || !ok2 {
				x.unsupported("strings.%s on symbolic strings", n)
			}
			c.ret = x.p.Bool(f(a, b))
			return actNext
		})
	}
	reg("strings.Index", func(x *Exec, c *callCtx) stepAct {
		return c.retInt(x.p.Int(int64(strings.Index(c.str(0), c.str(1)))))
	})
	reg("strings.Split", func(x *Exec, c *callCtx) stepAct {
		c.ret = x.mkStrSlice(strings.Split(c.str(0), c.str(1)))
		return actNext
	})
	reg("strings.Fields", func(x *Exec, c *callCtx) stepAct {
		c.ret = x.mkStrSlice(strings.Fields(c.str(0)))
		return actNext
	})
	reg("strings.TrimSpace", func(x *Exec, c *callCtx) stepAct { c.ret = Str{s: strings.TrimSpace(c.str(0))}; return actNext })
	reg("strings.ToLower", func(x *Exec, c *callCtx) stepAct { c.ret = Str{s: strings.ToLower(c.str(0))}; return actNext })
	reg("strings.TrimPrefix", func(x *Exec, c *callCtx) stepAct {
		c.ret = Str{s: strings.TrimPrefix(c.str(0), c.str(1))}
		return actNext
	})
	reg("strings.TrimSuffix", func(x *Exec, c *callCtx) stepAct {
		c.ret = Str{s: strings.TrimSuffix(c.str(0), c.str(1))}
		return actNext
	})
	reg("strings.ContainsRune", func(x *Exec, c *callCtx) stepAct {
		r := c.term(1)
		k := x.concretize(r, 64, "rune")
		c.ret = x.p.Bool(strings.ContainsRune(c.str(0), rune(int32(k))))
		return actNext
	})
	reg("strings.IndexByte", func(x *Exec, c *callCtx) stepAct {
		return c.retInt(x.p.Int(int64(strings.IndexByte(c.str(0), byte(x.concretize(c.term(1), 256, "byte"))))))
	})
	reg("strings.Join", func(x *Exec, c *callCtx) stepAct {
		s := c.slice(0)
		var ss []string
		n := x.concretize(s.len, 64, "join")
		for i := uint64(0); i < n; i++ {
			v, _ := concreteStr(s.a.cells[s.off.k+i].v)
			ss = append(ss, v)
		}
		c.ret = Str{s: strings.Join(ss, c.str(1))}
		return actNext
	})
	reg("(reflect.StructTag).Get", func(x *Exec, c *callCtx) stepAct {
		c.ret = Str{s: reflect.StructTag(c.str(0)).Get(c.str(1))}
		return actNext
	})
	reg("(reflect.StructTag).Lookup", func(x *Exec, c *callCtx) stepAct {
		v, ok := reflect.StructTag(c.str(0)).Lookup(c.str(1))
		c.ret = Tuple{Str{s: v}, x.p.Bool(ok)}
		return actNext
	})
	// fmt, log: opaque text
	for _, n := range []string{"log.Print", "log.Printf", "log.Println", "fmt.Print", "fmt.Printf", "fmt.Println", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "(*log.Logger).Printf", "(*log.Logger).Println", "(*log.Logger).Print", "log.SetFlags", "os.Stderr", "runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable", "runtime/debug.PrintStack"} {
		reg(n, nop)
	}
	reg("runtime/debug.Stack", nop)
	reg("runtime.Stack", nop)
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln"} {
		reg(n, func(x *Exec, c *callCtx) stepAct {
			s := "formatted"
			if f, ok := c.args[0].(Str); ok {
				s = f.s
			}
			c.ret = Str{s: s}
			return actNext
		})
	}
	reg("fmt.Errorf", func(x *Exec, c *callCtx) stepAct { c.ret = x.mkError(c.args[0].(Str).s); return actNext })
	for _, n := range []string{"log.Panicf", "log.Panic", "log.Panicln"} {
		reg(n, func(x *Exec, c *callCtx) stepAct {
			s := "log.Panic"
			if f, ok := c.args[0].(Str); ok {
				s = f.s
			}
			x.strPanic(s)
			return actNext
		})
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit"} {
		n := n
		reg(n, func(x *Exec, c *callCtx) stepAct {
			x.violation("exit", "the process is ended by "+n, nil)
			return actNext
		})
	}
	reg("runtime.GOMAXPROCS", func(x *Exec, c *callCtx) stepAct { return c.retInt(x.p.Int(4)) })
	reg("runtime.NumCPU", func(x *Exec, c *callCtx) stepAct { return c.retInt(x.p.Int(4)) })
	reg("runtime.NumGoroutine", func(x *Exec, c *callCtx) stepAct {
		n := 0
		for _, g := range x.gs {
			if !g.done {
				n++
			}
		}
		return c.retInt(x.p.Int(int64(n)))
	})
	// floats are bit patterns
	for _, n := range []string{"math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits"} {
		reg(n, func(x *Exec, c *callCtx) stepAct { c.ret = c.term(0); return actNext })
	}
	bitsFn := func(name string, w uint8, f func(uint64) int) {
		reg("math/bits."+name, func(x *Exec, c *callCtx) stepAct {
			t := c.term(0)
			if t.isConst() {
				return c.retInt(x.p.Int(int64(f(t.k))))
			}
			if strings.HasPrefix(name, "Len") {
				r := x.p.Int(0)
				for i := uint8(0); i < t.w; i++ {
					r = x.p.Ite(x.p.Not(x.p.Ult(t, x.p.BV(t.w, 1<<i))), x.p.Int(int64(i)+1), r)
				}
				return c.retInt(r)
			}
			if strings.HasPrefix(name, "LeadingZeros") {
				r := x.p.Int(int64(t.w))
				for i := uint8(0); i < t.w; i++ {
					r = x.p.Ite(x.p.Not(x.p.Ult(t, x.p.BV(t.w, 1<<i))), x.p.Int(int64(t.w-i)-1), r)
				}
				return c.retInt(r)
			}
			if strings.HasPrefix(name, "TrailingZeros") {
				r := x.p.Int(int64(t.w))
				for i := int(t.w) - 1; i >= 0; i-- {
					r = x.p.Ite(x.p.Eq(x.p.Extract(t, uint64(i), 1), x.p.BV(1, 1)), x.p.Int(int64(i)), r)
				}
				return c.retInt(r)
			}
			r := x.p.Int(0)
			for i := uint8(0); i < t.w; i++ {
				r = x.p.Add(r, x.p.Zext(x.p.Extract(t, uint64(i), 1), 64))
			}
			return c.retInt(r)
		})
		_ = w
	}
	for _, w := range []int{0, 8, 16, 32, 64} {
		sfx := ""
		bw := 64
		if w > 0 {
			sfx = fmt.Sprint(w)
			bw = w
		}
		bitsFn("Len"+sfx, uint8(bw), func(v uint64) int { return bits.Len64(v) })
		bitsFn("LeadingZeros"+sfx, uint8(bw), func(v uint64) int { return bw - bits.Len64(v) })
		bitsFn("TrailingZeros"+sfx, uint8(bw), func(v uint64) int {
			if v == 0 {
				return bw
			}
			return bits.TrailingZeros64(v)
		})
		bitsFn("OnesCount"+sfx, uint8(bw), func(v uint64) int { return bits.OnesCount64(v) })
	}
	reg("bytes.Equal", func(x *Exec, c *callCtx) stepAct {
		c.ret = x.strEq(x.bytesToStr(c.slice(0)), x.bytesToStr(c.slice(1)))
		return actNext
	})
	reg("bytes.IndexByte", func(x *Exec, c *callCtx) stepAct {
		s := c.slice(0)
		n := x.concretize(s.len, 300, "IndexByte")
		for i := uint64(0); i < n; i++ {
			if x.branch(x.p.Eq(x.arrGet(s.a, x.p.Add(s.off, x.p.Int(int64(i)))), c.term(1))) {
				return c.retInt(x.p.Int(int64(i)))
			}
		}
		return c.retInt(x.p.Int(-1))
	})
	for _, n := range []string{"internal/bytealg.Equal"} {
		reg(n, intrinsics["bytes.Equal"])
	}
	reg("internal/bytealg.MakeNoZero", func(x *Exec, c *callCtx) stepAct {
		c.ret = x.makeSlice(types.Typ[types.Uint8], c.term(0), c.term(0))
		return actNext
	})
	reg("internal/abi.NoEscape", func(x *Exec, c *callCtx) stepAct { c.ret = c.args[0]; return actNext })
	reg("internal/race.Read", nop)
	reg("internal/race.Write", nop)
	reg("strconv.Itoa", func(x *Exec, c *callCtx) stepAct {
		c.ret = Str{s: fmt.Sprint(sext64(x.concretize(c.term(0), 64, "Itoa"), 64))}
		return actNext
	})
}
