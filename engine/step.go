package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) constVal(c *ssa.Const) V {
	if v, ok := x.w.consts[c]; ok {
		return v
	}
	v := x.constVal1(c)
	x.w.consts[c] = v
	return v
}

func (x *Exec) constVal1(c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		z := x.zero(t)
		return z
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsString != 0 {
			if c.Value.Kind() == constant.String {
				return Str{s: constant.StringVal(c.Value)}
			}
			return Str{s: string(rune(c.Int64()))}
		}
		if b.Info()&types.IsBoolean != 0 {
			return x.p.Bool(constant.BoolVal(c.Value))
		}
		w, ok := scalarWidth(t)
		if !ok {
			x.unsupported("constant of type %s", t)
		}
		if b.Info()&types.IsFloat != 0 {
			f := c.Float64()
			if w == 32 {
				return x.p.BV(32, uint64(math.Float32bits(float32(f))))
			}
			return x.p.BV(64, math.Float64bits(f))
		}
		if b.Info()&types.IsUnsigned != 0 {
			return x.p.BV(w, c.Uint64())
		}
		return x.p.BV(w, uint64(c.Int64()))
	}
	if tp, ok := t.(*types.TypeParam); ok {
		x.unsupported("type param constant %s", tp)
	}
	x.unsupported("constant of type %s", t)
	return nil
}

func (x *Exec) val(f *Frame, v ssa.Value) V {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return Ptr{c: x.global(v)}
	case *ssa.Function:
		return x.w.fnVal(v)
	case *ssa.Builtin:
		return v
	}
	i, ok := f.info.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v, f.fn))
	}
	r := f.regs[i]
	if r == nil {
		r = x.zero(v.Type())
		f.regs[i] = r
	}
	return r
}

func (w *Worker) fnVal(fn *ssa.Function) V {
	if c, ok := w.fnvals[fn]; ok {
		return c
	}
	c := &Closure{fn: fn}
	w.fnvals[fn] = c
	return c
}

func (x *Exec) term(f *Frame, v ssa.Value) *Term {
	r := x.val(f, v)
	t, ok := r.(*Term)
	if !ok {
		if pi, ok := r.(PtrInt); ok {
			return x.ptrIntTerm(pi)
		}
		x.unsupported("expected a scalar, got %T for %s", r, v)
	}
	return t
}

func (x *Exec) set(f *Frame, v ssa.Value, r V) { f.regs[f.info.idx[v]] = r }

// global finds the location of a package variable, running the initialiser of library packages on demand.
func (x *Exec) global(g *ssa.Global) *Cell {
	if c, ok := x.globals[g]; ok {
		return c
	}
	if g.Pkg != nil && !x.w.eng.isUser(g.Pkg.Pkg.Path()) {
		return x.w.stdGlobal(x, g)
	}
	c := &Cell{}
	x.globals[g] = c
	return c
}

var noInit = map[string]bool{"time": true, "os": true, "syscall": true, "net": true, "runtime": true, "sync": true, "log": true, "reflect": true, "fmt": true, "internal/poll": true, "testing": true, "internal/godebug": true, "unicode": true}

func (w *Worker) stdGlobal(x *Exec, g *ssa.Global) *Cell {
	if c, ok := w.stdGlobals[g]; ok {
		return c
	}
	path := g.Pkg.Pkg.Path()
	c := &Cell{}
	w.stdGlobals[g] = c
	if !w.stdInit[path] && !noInit[path] {
		w.stdInit[path] = true
		w.eng.buildMu.Lock()
		g.Pkg.Build()
		w.eng.buildMu.Unlock()
		if fn := g.Pkg.Func("init"); fn != nil {
			x.runStdInit(fn)
		}
	}
	return c
}

func (x *Exec) runStdInit(fn *ssa.Function) {
	old := x.steps
	oldCur := x.cur
	oldIn := x.inInit
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(pathEnd); ok && pe.kind == endUnsupported {
				x.w.note("initialisation of %s incomplete: %s", fn.Pkg.Pkg.Path(), pe.msg)
				x.cur = oldCur
				x.inInit = oldIn
				x.steps = old
				return
			}
			panic(r)
		}
	}()
	x.runNested(fn)
	x.steps = old
}

// ---- pointers ----

func (x *Exec) nilDeref() {
	x.rtPanic("invalid memory address or nil pointer dereference")
}

func (x *Exec) load(p Ptr, t types.Type, ins ssa.Instruction) V {
	if p.isNil() {
		x.nilDeref()
	}
	if p.a != nil {
		x.access(p.a, false, false, ins)
		if p.i.isConst() && p.a.mem == nil && p.i.k >= uint64(len(p.a.dense)) {
			x.unsupported("pointer outside its array")
		}
		v := x.arrGet(p.a, p.i)
		if w, ok := scalarWidth(t); !ok || w != p.a.w {
			if n, isArr := t.Underlying().(*types.Array); isArr {
				// *[N]T view of a scalar array
				r := x.newArr(n.Elem(), int(n.Len()))
				if r.sc && r.w == p.a.w {
					m, o := x.snapshot(p.a, p.i, x.p.Int(n.Len()))
					x.copyScalar(r, x.p.Int(0), x.p.Int(n.Len()), m, o)
					return r
				}
			}
			x.unsupported("reinterpreting load %s of %s array", t, p.a.elem)
		}
		return v
	}
	if p.cast != nil {
		return x.castLoad(p, t)
	}
	x.accessCell(p.c, false, ins)
	v := x.get(p.c, t)
	switch v.(type) {
	case *StructV, *Arr:
		return copyVal(v)
	}
	return v
}

func (x *Exec) accessCell(c *Cell, write bool, ins ssa.Instruction) {
	if len(x.gs) < 2 {
		return
	}
	if s, ok := c.v.(*StructV); ok {
		for i := range s.f {
			x.accessCell(&s.f[i], write, ins)
		}
		return
	}
	if a, ok := c.v.(*Arr); ok {
		if a.sc {
			x.access(a, write, false, ins)
		} else if len(a.cells) <= 64 {
			for i := range a.cells {
				x.accessCell(&a.cells[i], write, ins)
			}
		}
		return
	}
	x.access(c, write, false, ins)
}

func (x *Exec) store(p Ptr, v V, t types.Type, ins ssa.Instruction) {
	if p.isNil() {
		x.nilDeref()
	}
	if p.a != nil {
		x.access(p.a, true, false, ins)
		tv, ok := v.(*Term)
		if !ok || tv.w != p.a.w {
			x.unsupported("reinterpreting store %s into %s array", t, p.a.elem)
		}
		x.arrSet(p.a, p.i, tv)
		return
	}
	if p.cast != nil {
		x.unsupported("store through a converted pointer %s", t)
	}
	if len(x.gs) > 1 && p.c.v == nil {
		// materialise so that nested locations are tracked
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			x.get(p.c, t)
		}
	}
	x.accessCell(p.c, true, ins)
	assign(p.c, v)
}

// castLoad reads through a pointer whose pointee type was changed with unsafe.
func (x *Exec) castLoad(p Ptr, t types.Type) V {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if s, ok := p.c.v.(*StructV); ok && len(s.f) == 3 {
			ptr, _ := s.f[0].v.(Ptr)
			if pi, ok := s.f[0].v.(PtrInt); ok {
				ptr = pi.p
			}
			ln, _ := s.f[1].v.(*Term)
			cp, _ := s.f[2].v.(*Term)
			if ln == nil {
				ln = x.p.Int(0)
			}
			if cp == nil {
				cp = x.p.Int(0)
			}
			return x.sliceAt(ptr, sl.Elem(), ln, cp)
		}
		if s, ok := p.c.v.(Slice); ok {
			return s
		}
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		if q, ok := p.c.v.(Ptr); ok {
			return q
		}
	}
	if isString(t) {
		if s, ok := p.c.v.(Slice); ok { // *(*string)(unsafe.Pointer(&bytes))
			return x.bytesToStr(s)
		}
	}
	// same shape struct / scalar
	v := p.c.v
	if v == nil {
		return x.zero(t)
	}
	switch v.(type) {
	case *StructV:
		if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == len(v.(*StructV).f) {
			return copyVal(v)
		}
	case *Term:
		if w, ok := scalarWidth(t); ok && w == v.(*Term).w {
			return v
		}
	case Ptr, Slice, Str, *MapV, *ChanV, *Closure, Iface:
		return v
	}
	x.unsupported("load of %s through a converted pointer (%T)", t, v)
	return nil
}

// sliceAt builds a slice of n elements starting at p.
func (x *Exec) sliceAt(p Ptr, elem types.Type, n, c *Term) V {
	if p.isNil() {
		z := x.p.Int(0)
		return Slice{nil, z, z, z}
	}
	if p.a == nil {
		x.unsupported("unsafe slice over a non-array pointer")
	}
	if w, ok := scalarWidth(elem); !ok || w != p.a.w {
		x.unsupported("unsafe slice of %s over %s", elem, p.a.elem)
	}
	// the runtime does not check, a slice outside its array is undefined behaviour
	end := x.p.Add(p.i, c)
	if !x.branch(x.p.Not(x.p.Ult(x.arrLen(p.a), end))) {
		x.violation("memory", "unsafe slice reaches outside its array", nil)
	}
	return Slice{p.a, p.i, n, c}
}

func (x *Exec) asPtr(v V) Ptr {
	switch v := v.(type) {
	case Ptr:
		return v
	case PtrInt:
		return v.p
	case nil:
		return Ptr{}
	case *Term:
		if v.isConst() && v.k == 0 {
			return Ptr{}
		}
	}
	x.unsupported("pointer expected, got %T", v)
	return Ptr{}
}

func (x *Exec) ptrIntTerm(p PtrInt) *Term {
	if p.p.isNil() {
		return x.p.Int(0)
	}
	// an arbitrary but fixed non-zero address
	key := fmt.Sprintf("%p.%p.%v", p.p.c, p.p.a, p.p.i)
	id, ok := x.typeIDs["ptr"+key]
	if !ok {
		id = uint64(0xc000000000) + uint64(len(x.typeIDs)+1)*4096
		x.typeIDs["ptr"+key] = id
	}
	return x.p.Int(int64(id))
}

// ---- instructions ----

func (x *Exec) step(g *G, f *Frame, ins ssa.Instruction) stepAct {
	if x.h.racy != nil && x.h.racy[ins] {
		g.pendMap = nil
		if x.point(g) {
			x.setPending(g, f, ins)
			return actResched
		}
	}
	switch ins := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		c := &Cell{}
		x.set(f, ins, Ptr{c: c})
	case *ssa.BinOp:
		x.set(f, ins, x.binop(ins.Op, ins.X.Type(), x.val(f, ins.X), x.val(f, ins.Y), ins.Y.Type()))
	case *ssa.UnOp:
		return x.unop(g, f, ins)
	case *ssa.Call:
		return x.call(g, f, ins)
	case *ssa.ChangeInterface:
		x.set(f, ins, x.val(f, ins.X))
	case *ssa.ChangeType:
		x.set(f, ins, x.val(f, ins.X))
	case *ssa.Convert:
		x.set(f, ins, x.convert(x.val(f, ins.X), ins.X.Type(), ins.Type()))
	case *ssa.MultiConvert:
		x.set(f, ins, x.convert(x.val(f, ins.X), ins.X.Type(), ins.Type()))
	case *ssa.Defer:
		d := x.prepDefer(f, &ins.Call, ins)
		f.defers = append(f.defers, d)
	case *ssa.Extract:
		t := x.val(f, ins.Tuple).(Tuple)
		v := t[ins.Index]
		if v == nil {
			v = x.zero(ins.Type())
		}
		x.set(f, ins, v)
	case *ssa.Field:
		s := x.val(f, ins.X).(*StructV)
		x.set(f, ins, copyVal(x.get(&s.f[ins.Field], ins.Type())))
	case *ssa.FieldAddr:
		x.set(f, ins, x.fieldAddr(x.val(f, ins.X), ins.X.Type(), ins.Field))
	case *ssa.Go:
		d := x.prepDefer(f, &ins.Call, ins)
		x.goStmt(d)
	case *ssa.If:
		c := x.term(f, ins.Cond)
		f.prev = f.blk
		if x.branch(c) {
			f.blk = f.blk.Succs[0]
		} else {
			f.blk = f.blk.Succs[1]
		}
		x.enterBlock(f)
		return actStay2
	case *ssa.Index:
		x.set(f, ins, x.index(x.val(f, ins.X), ins.X.Type(), x.val(f, ins.Index), ins.Index.Type(), ins.Type()))
	case *ssa.IndexAddr:
		x.set(f, ins, x.indexAddr(x.val(f, ins.X), ins.X.Type(), x.toInt64(x.val(f, ins.Index), ins.Index.Type())))
	case *ssa.Jump:
		f.prev = f.blk
		f.blk = f.blk.Succs[0]
		x.enterBlock(f)
		return actStay2
	case *ssa.Lookup:
		x.set(f, ins, x.lookup(f, ins))
	case *ssa.MakeChan:
		n := x.concretize(x.toInt64(x.val(f, ins.Size), ins.Size.Type()), 8, "channel size")
		x.objs++
		x.set(f, ins, &ChanV{et: ins.Type().Underlying().(*types.Chan).Elem(), cap: int(n), id: x.objs})
	case *ssa.MakeClosure:
		fv := make([]V, len(ins.Bindings))
		for i, b := range ins.Bindings {
			fv[i] = x.val(f, b)
		}
		x.set(f, ins, &Closure{fn: ins.Fn.(*ssa.Function), free: fv})
	case *ssa.MakeInterface:
		x.set(f, ins, x.makeIface(x.val(f, ins.X), ins.X.Type()))
	case *ssa.MakeMap:
		mt := ins.Type().Underlying().(*types.Map)
		x.set(f, ins, x.newMap(mt.Key(), mt.Elem()))
	case *ssa.MakeSlice:
		ln := x.toInt64(x.val(f, ins.Len), ins.Len.Type())
		cp := x.toInt64(x.val(f, ins.Cap), ins.Cap.Type())
		x.set(f, ins, x.makeSlice(ins.Type().Underlying().(*types.Slice).Elem(), ln, cp))
	case *ssa.MapUpdate:
		m := x.val(f, ins.Map).(*MapV)
		if m == nil {
			x.throw(Iface{t: x.w.eng.rtErrType, v: Str{s: "assignment to entry in nil map"}})
		}
		x.access(m, true, false, ins)
		x.mapSet(m, x.val(f, ins.Key), copyVal(x.val(f, ins.Value)))
	case *ssa.Next:
		x.set(f, ins, x.next(f, ins))
	case *ssa.Panic:
		v := x.val(f, ins.X)
		if i, ok := v.(Iface); ok && i.t == nil {
			x.rtPanic("panic called with nil argument")
		}
		x.throw(v)
	case *ssa.Phi:
		panic("phi executed directly")
	case *ssa.Range:
		x.set(f, ins, x.mkRange(f, ins))
	case *ssa.Return:
		var v V
		switch len(ins.Results) {
		case 0:
		case 1:
			v = x.val(f, ins.Results[0])
		default:
			t := make(Tuple, len(ins.Results))
			for i, r := range ins.Results {
				t[i] = x.val(f, r)
			}
			v = t
		}
		x.doReturn(g, f, v)
		return actStay
	case *ssa.RunDefers:
		for len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if x.runDeferred(g, f, d) {
				return actStay
			}
		}
	case *ssa.Select:
		return x.selectStmt(g, f, ins)
	case *ssa.Send:
		return x.send(g, f, ins)
	case *ssa.Slice:
		x.set(f, ins, x.sliceOp(f, ins))
	case *ssa.SliceToArrayPointer:
		s := x.val(f, ins.X).(Slice)
		n := ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !x.branch(x.p.Ule(x.p.Int(n), s.len)) {
			x.rtPanic("cannot convert slice to array pointer: length too short")
		}
		if s.a == nil {
			x.set(f, ins, Ptr{})
			break
		}
		if s.off.isConst() && s.off.k == 0 && s.a.nt == nil && int64(s.a.n) == n {
			x.set(f, ins, Ptr{c: &Cell{v: s.a}})
			break
		}
		x.unsupported("slice to array pointer at an offset")
	case *ssa.Store:
		p := x.asPtr(x.val(f, ins.Addr))
		x.store(p, x.val(f, ins.Val), ins.Val.Type(), ins)
	case *ssa.TypeAssert:
		x.set(f, ins, x.typeAssert(ins, x.val(f, ins.X).(Iface)))
	default:
		x.unsupported("instruction %T", ins)
	}
	return actNext
}

const actStay2 = actStay

// enterBlock evaluates the phis of the new block.
func (x *Exec) enterBlock(f *Frame) {
	b := f.blk
	if covFile != "" {
		covTouch(b)
	}
	n := 0
	var tmp [16]V
	vals := tmp[:0]
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		k := -1
		for j, pr := range b.Preds {
			if pr == f.prev {
				k = j
				break
			}
		}
		vals = append(vals, x.val(f, ph.Edges[k]))
		n++
	}
	for j := 0; j < n; j++ {
		f.regs[f.info.idx[b.Instrs[j].(*ssa.Phi)]] = vals[j]
	}
	f.pc = n
}

func (x *Exec) toInt64(v V, t types.Type) *Term {
	tt, ok := v.(*Term)
	if !ok {
		if pi, ok := v.(PtrInt); ok {
			return x.ptrIntTerm(pi)
		}
		x.unsupported("index of type %T", v)
	}
	return x.p.Resize(tt, 64, isSigned(t))
}

func (x *Exec) fieldAddr(v V, pt types.Type, i int) V {
	p := x.asPtr(v)
	if p.isNil() {
		x.nilDeref()
	}
	st := pt.Underlying().(*types.Pointer).Elem()
	if p.a != nil {
		x.unsupported("field of a scalar array element")
	}
	if p.cast != nil {
		// view of an interface as (type word, data word)
		if _, ok := p.c.v.(Iface); ok || p.c.v == nil {
			if i == 0 {
				ifc, _ := p.c.v.(Iface)
				id := uint64(0)
				if ifc.t != nil {
					id = x.w.eng.typeID(ifc.t)
				}
				return Ptr{c: &Cell{v: x.p.BV(64, id)}}
			}
		}
		s, ok := p.c.v.(*StructV)
		if ok && i < len(s.f) {
			return Ptr{c: &s.f[i]}
		}
		x.unsupported("field of a converted pointer")
	}
	s, ok := x.get(p.c, st).(*StructV)
	if !ok {
		x.unsupported("field address in %T of %s", p.c.v, st)
	}
	return Ptr{c: &s.f[i]}
}

func (x *Exec) boundsOK(i, n *Term) {
	if !x.branch(x.p.Ult(i, n)) {
		x.rtPanic("index out of range")
	}
}

func (x *Exec) elemPtr(a *Arr, i *Term) Ptr {
	if a.sc {
		return Ptr{a: a, i: i}
	}
	k := x.concretize(i, 512, "element index")
	if k >= uint64(len(a.cells)) {
		x.unsupported("element beyond array")
	}
	return Ptr{c: &a.cells[k]}
}

func (x *Exec) indexAddr(v V, t types.Type, i *Term) V {
	switch b := v.(type) {
	case Slice:
		x.boundsOK(i, b.len)
		return x.elemPtr(b.a, x.p.Add(b.off, i))
	case Ptr:
		if b.isNil() {
			x.nilDeref()
		}
		at := t.Underlying().(*types.Pointer).Elem()
		if b.a != nil {
			// pointer into a scalar array viewed as an array
			n := at.Underlying().(*types.Array).Len()
			x.boundsOK(i, x.p.Int(n))
			return Ptr{a: b.a, i: x.p.Add(b.i, i)}
		}
		a, ok := x.get(b.c, at).(*Arr)
		if !ok {
			x.unsupported("index of %T", b.c.v)
		}
		x.boundsOK(i, x.arrLen(a))
		return x.elemPtr(a, i)
	}
	x.unsupported("index address of %T", v)
	return nil
}

func (x *Exec) index(v V, t types.Type, iv V, it types.Type, rt types.Type) V {
	i := x.toInt64(iv, it)
	switch b := v.(type) {
	case *Arr:
		x.boundsOK(i, x.arrLen(b))
		if b.sc {
			return x.arrGet(b, i)
		}
		k := x.concretize(i, 512, "array index")
		return copyVal(x.get(&b.cells[k], b.elem))
	case Str:
		x.boundsOK(i, x.strLen(b))
		return x.strAt(b, i)
	case Slice:
		x.boundsOK(i, b.len)
		return x.load(x.elemPtr(b.a, x.p.Add(b.off, i)), rt, nil)
	}
	x.unsupported("index of %T", v)
	return nil
}

func (x *Exec) makeSlice(elem types.Type, ln, cp *Term) V {
	maxLen := int64(1) << 47
	if w, ok := scalarWidth(elem); ok && w > 8 {
		maxLen /= int64(w / 8)
	}
	if !x.branch(x.p.And(x.p.Sle(x.p.Int(0), ln), x.p.Sle(ln, x.p.Int(maxLen)))) {
		x.rtPanic("makeslice: len out of range")
	}
	if !x.branch(x.p.And(x.p.Sle(ln, cp), x.p.Sle(cp, x.p.Int(maxLen)))) {
		x.rtPanic("makeslice: cap out of range")
	}
	if x.allocMax != nil && !x.inInit {
		if !x.branch(x.p.Ule(cp, x.allocMax)) {
			x.violation("alloc", "allocation of more elements than the input can hold", nil)
		}
	}
	if cp.isConst() {
		a := x.newArr(elem, int(cp.k))
		return Slice{a, x.p.Int(0), ln, cp}
	}
	if w, ok := scalarWidth(elem); ok && w > 0 {
		x.objs++
		a := &Arr{elem: elem, nt: cp, sc: true, w: w, mem: &Mem{kind: mZero, w: w}, id: x.objs}
		return Slice{a, x.p.Int(0), ln, cp}
	}
	c := x.concretize(cp, 300, "slice capacity")
	a := x.newArr(elem, int(c))
	return Slice{a, x.p.Int(0), ln, x.p.Int(int64(c))}
}

func (x *Exec) sliceOp(f *Frame, ins *ssa.Slice) V {
	v := x.val(f, ins.X)
	get := func(s ssa.Value) *Term {
		if s == nil {
			return nil
		}
		return x.toInt64(x.val(f, s), s.Type())
	}
	return x.doSlice(v, ins.X.Type(), get(ins.Low), get(ins.High), get(ins.Max))
}

func (x *Exec) doSlice(v V, t types.Type, lo, hi, max *Term) V {
	p := x.p
	zero := p.Int(0)
	if lo == nil {
		lo = zero
	}
	switch b := v.(type) {
	case Str:
		n := x.strLen(b)
		if hi == nil {
			hi = n
		}
		if !x.branch(p.Ule(hi, n)) || !x.branch(p.Ule(lo, hi)) {
			x.rtPanic("slice bounds out of range (string)")
		}
		return x.strSlice(b, lo, hi)
	case Slice:
		if hi == nil {
			hi = b.len
		}
		if max == nil {
			if !x.branch(p.Ule(hi, b.cap)) {
				x.rtPanic("slice bounds out of range [:hi] with capacity")
			}
			max = b.cap
		} else {
			if !x.branch(p.Ule(max, b.cap)) {
				x.rtPanic("slice bounds out of range [::max] with capacity")
			}
			if !x.branch(p.Ule(hi, max)) {
				x.rtPanic("slice bounds out of range [:hi:max]")
			}
		}
		if !x.branch(p.Ule(lo, hi)) {
			x.rtPanic("slice bounds out of range [lo:hi]")
		}
		if b.a == nil {
			return b
		}
		if x.h.ConcSlice {
			lo = p.BV(64, x.concretize(lo, 64, "slice bound"))
			hi = p.BV(64, x.concretize(hi, 64, "slice bound"))
		}
		return Slice{b.a, x.subst(p.Add(b.off, lo)), x.subst(p.Sub(hi, lo)), x.subst(p.Sub(max, lo))}
	case Ptr:
		if b.isNil() {
			x.nilDeref()
		}
		at := t.Underlying().(*types.Pointer).Elem()
		if b.a != nil {
			n := p.Int(at.Underlying().(*types.Array).Len())
			s := Slice{b.a, b.i, n, n}
			return x.doSlice(s, nil, lo, hi, max)
		}
		a := x.get(b.c, at).(*Arr)
		n := x.arrLen(a)
		return x.doSlice(Slice{a, zero, n, n}, nil, lo, hi, max)
	}
	x.unsupported("slice of %T", v)
	return nil
}

func (x *Exec) unop(g *G, f *Frame, ins *ssa.UnOp) stepAct {
	switch ins.Op {
	case token.MUL:
		p := x.asPtr(x.val(f, ins.X))
		x.set(f, ins, x.load(p, ins.Type(), ins))
	case token.NOT:
		x.set(f, ins, x.p.Not(x.term(f, ins.X)))
	case token.SUB:
		t := x.term(f, ins.X)
		if isFloat(ins.X.Type()) {
			x.set(f, ins, x.p.bitop(OBXor, t, x.p.BV(t.w, 1<<(t.w-1))))
		} else {
			x.set(f, ins, x.p.Neg(t))
		}
	case token.XOR:
		x.set(f, ins, x.p.BNot(x.term(f, ins.X)))
	case token.ARROW:
		return x.recv(g, f, ins)
	default:
		x.unsupported("unary %s", ins.Op)
	}
	return actNext
}

func (x *Exec) binop(op token.Token, t types.Type, a, b V, yt types.Type) V {
	p := x.p
	switch op {
	case token.EQL:
		return x.equal(a, b, t)
	case token.NEQ:
		return p.Not(x.equal(a, b, t))
	}
	if sa, ok := a.(Str); ok {
		sb := b.(Str)
		switch op {
		case token.ADD:
			return x.strConcat(sa, sb)
		case token.LSS:
			return x.strLess(sa, sb)
		case token.GTR:
			return x.strLess(sb, sa)
		case token.LEQ:
			return p.Not(x.strLess(sb, sa))
		case token.GEQ:
			return p.Not(x.strLess(sa, sb))
		}
	}
	if pa, ok := a.(PtrInt); ok {
		a = x.ptrIntTerm(pa)
	}
	if pb, ok := b.(PtrInt); ok {
		b = x.ptrIntTerm(pb)
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		x.unsupported("binary %s on %T and %T", op, a, b)
	}
	if isFloat(t) {
		return x.floatOp(op, ta, tb)
	}
	sg := isSigned(t)
	switch op {
	case token.ADD:
		return p.Add(ta, tb)
	case token.SUB:
		return p.Sub(ta, tb)
	case token.MUL:
		return p.bin(OMul, ta, tb)
	case token.QUO, token.REM:
		if !x.branch(p.Not(p.Eq(tb, p.BV(tb.w, 0)))) {
			x.rtPanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && sg:
			return p.bin(OSDiv, ta, tb)
		case op == token.QUO:
			return p.bin(OUDiv, ta, tb)
		case sg:
			return p.bin(OSRem, ta, tb)
		default:
			return p.bin(OURem, ta, tb)
		}
	case token.AND:
		return p.bitop(OBAnd, ta, tb)
	case token.OR:
		return p.bitop(OBOr, ta, tb)
	case token.XOR:
		return p.bitop(OBXor, ta, tb)
	case token.AND_NOT:
		return p.bitop(OBAnd, ta, p.BNot(tb))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			if !x.branch(p.Not(p.Slt(tb, p.BV(tb.w, 0)))) {
				x.rtPanic("negative shift amount")
			}
		}
		// bring the amount to the width of the operand, saturating
		var amt *Term
		if tb.w > ta.w {
			big := p.Ult(p.BV(tb.w, uint64(ta.w)), tb)
			amt = p.Ite(big, p.BV(ta.w, uint64(ta.w)), p.Extract(tb, 0, ta.w))
		} else {
			amt = p.Zext(tb, ta.w)
		}
		if op == token.SHL {
			return p.Shl(ta, amt)
		}
		if sg {
			return p.Ashr(ta, amt)
		}
		return p.Lshr(ta, amt)
	case token.LSS:
		if sg {
			return p.Slt(ta, tb)
		}
		return p.Ult(ta, tb)
	case token.LEQ:
		if sg {
			return p.Sle(ta, tb)
		}
		return p.Ule(ta, tb)
	case token.GTR:
		if sg {
			return p.Slt(tb, ta)
		}
		return p.Ult(tb, ta)
	case token.GEQ:
		if sg {
			return p.Sle(tb, ta)
		}
		return p.Ule(tb, ta)
	}
	x.unsupported("binary %s", op)
	return nil
}

func fbits(t *Term) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.k)))
	}
	return math.Float64frombits(t.k)
}
func (x *Exec) fterm(w uint8, f float64) *Term {
	if w == 32 {
		return x.p.BV(32, uint64(math.Float32bits(float32(f))))
	}
	return x.p.BV(64, math.Float64bits(f))
}

func (x *Exec) floatOp(op token.Token, a, b *Term) V {
	if !a.isConst() || !b.isConst() {
		x.unsupported("floating-point %s on symbolic values", op)
	}
	fa, fb := fbits(a), fbits(b)
	switch op {
	case token.ADD:
		return x.fterm(a.w, fa+fb)
	case token.SUB:
		return x.fterm(a.w, fa-fb)
	case token.MUL:
		return x.fterm(a.w, fa*fb)
	case token.QUO:
		return x.fterm(a.w, fa/fb)
	case token.LSS:
		return x.p.Bool(fa < fb)
	case token.LEQ:
		return x.p.Bool(fa <= fb)
	case token.GTR:
		return x.p.Bool(fa > fb)
	case token.GEQ:
		return x.p.Bool(fa >= fb)
	}
	x.unsupported("floating-point %s", op)
	return nil
}

// equal builds the equality of two values of static type t.
func (x *Exec) equal(a, b V, t types.Type) *Term {
	p := x.p
	if pa, ok := a.(PtrInt); ok {
		if pb, ok := b.(PtrInt); ok {
			return x.ptrEq(pa.p, pb.p)
		}
		a = x.ptrIntTerm(pa)
	}
	if pb, ok := b.(PtrInt); ok {
		b = x.ptrIntTerm(pb)
	}
	switch av := a.(type) {
	case *Term:
		bt := b.(*Term)
		if isFloat(t) {
			if av.isConst() && bt.isConst() {
				return p.Bool(fbits(av) == fbits(bt))
			}
			// IEEE equality on bit patterns
			w := av.w
			mant := uint64(1)<<23 - 1
			if w == 64 {
				mant = uint64(1)<<52 - 1
			}
			abs := mask(w) >> 1
			inf := abs &^ mant
			nan := func(t *Term) *Term {
				return p.Ult(p.BV(w, inf), p.bitop(OBAnd, t, p.BV(w, abs)))
			}
			isz := func(t *Term) *Term { return p.Eq(p.bitop(OBAnd, t, p.BV(w, abs)), p.BV(w, 0)) }
			return p.And(p.And(p.Not(nan(av)), p.Not(nan(bt))), p.Or(p.Eq(av, bt), p.And(isz(av), isz(bt))))
		}
		return p.Eq(av, bt)
	case Str:
		return x.strEq(av, b.(Str))
	case Ptr:
		return x.ptrEq(av, x.asPtr(b))
	case Slice:
		bs := b.(Slice)
		if av.a == nil || bs.a == nil {
			return p.Bool(av.a == bs.a)
		}
		x.unsupported("comparison of slices")
	case Iface:
		bi, ok := b.(Iface)
		if !ok {
			x.unsupported("interface compared with %T", b)
		}
		if av.t == nil || bi.t == nil {
			return p.Bool(av.t == nil && bi.t == nil)
		}
		if x.w.eng.typeID(av.t) != x.w.eng.typeID(bi.t) {
			return p.F
		}
		if !types.Comparable(av.t) {
			x.rtPanic("%s", "comparing uncomparable type "+av.t.String())
		}
		return x.equal(av.v, bi.v, av.t)
	case *Closure:
		bc, _ := b.(*Closure)
		return p.Bool(av == bc)
	case *MapV:
		bm, _ := b.(*MapV)
		return p.Bool(av == bm)
	case *ChanV:
		bc, _ := b.(*ChanV)
		return p.Bool(av == bc)
	case *StructV:
		bs := b.(*StructV)
		st := t.Underlying().(*types.Struct)
		r := p.T
		for i := range av.f {
			ft := st.Field(i).Type()
			if st.Field(i).Name() == "_" {
				continue
			}
			r = p.And(r, x.equal(x.get(&av.f[i], ft), x.get(&bs.f[i], ft), ft))
		}
		return r
	case *Arr:
		ba := b.(*Arr)
		r := p.T
		for i := 0; i < av.n; i++ {
			if av.sc {
				r = p.And(r, x.equal(x.arrGet(av, p.Int(int64(i))), x.arrGet(ba, p.Int(int64(i))), av.elem))
			} else {
				r = p.And(r, x.equal(x.get(&av.cells[i], av.elem), x.get(&ba.cells[i], av.elem), av.elem))
			}
		}
		return r
	case RType:
		bt, ok := b.(RType)
		return p.Bool(ok && x.w.eng.typeID(av.t) == x.w.eng.typeID(bt.t))
	case TimeV:
		bt := b.(TimeV)
		if av.ns == nil || bt.ns == nil {
			return p.Bool(av.ns == bt.ns)
		}
		return p.Eq(av.ns, bt.ns)
	case RVal:
		x.unsupported("comparison of reflect.Value")
	case nil:
		if b == nil {
			return p.T
		}
		return x.equal(b, a, t)
	}
	x.unsupported("comparison of %T", a)
	return nil
}

func (x *Exec) ptrEq(a, b Ptr) *Term {
	if a.a != b.a {
		return x.p.F
	}
	if a.a != nil {
		return x.p.Eq(a.i, b.i)
	}
	if a.c == b.c {
		return x.p.T
	}
	// the first field shares the address of its struct only at different types; pointers of equal type differ
	if aa, ok := a.arrOf(); ok {
		if bb, ok := b.arrOf(); ok {
			return x.p.Bool(aa == bb)
		}
	}
	return x.p.F
}

// arrOf: pointer to a whole array made by a slice conversion.
func (p Ptr) arrOf() (*Arr, bool) {
	if p.c == nil {
		return nil, false
	}
	a, ok := p.c.v.(*Arr)
	return a, ok
}

// ---- strings ----

func (x *Exec) strLen(s Str) *Term {
	if s.mem == nil {
		return x.p.Int(int64(len(s.s)))
	}
	return s.n
}

func (x *Exec) strMem(s Str) (*Mem, *Term) {
	if s.mem != nil {
		return s.mem, s.off
	}
	d := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		d[i] = x.p.BV(8, uint64(s.s[i]))
	}
	return &Mem{kind: mDense, w: 8, dense: d}, x.p.Int(0)
}

func (x *Exec) strAt(s Str, i *Term) *Term {
	if s.mem == nil && i.isConst() {
		return x.p.BV(8, uint64(s.s[i.k]))
	}
	m, o := x.strMem(s)
	return x.memRead(m, x.p.Add(o, i))
}

func (x *Exec) strSlice(s Str, lo, hi *Term) Str {
	if s.mem == nil && lo.isConst() && hi.isConst() {
		return Str{s: s.s[lo.k:hi.k]}
	}
	m, o := x.strMem(s)
	return x.normStr(Str{mem: m, off: x.p.Add(o, lo), n: x.p.Sub(hi, lo)})
}

// normStr turns fully concrete strings into Go strings.
func (x *Exec) normStr(s Str) Str {
	if s.mem == nil || !s.n.isConst() {
		return s
	}
	if s.n.k > 4096 {
		return s
	}
	b := make([]byte, s.n.k)
	for i := range b {
		t := x.memRead(s.mem, x.p.Add(s.off, x.p.Int(int64(i))))
		if !t.isConst() {
			return s
		}
		b[i] = byte(t.k)
	}
	return Str{s: string(b)}
}

func (x *Exec) strEq(a, b Str) *Term {
	if a.mem == nil && b.mem == nil {
		return x.p.Bool(a.s == b.s)
	}
	if a.mem == b.mem && a.off == b.off && a.n == b.n {
		return x.p.T
	}
	la, lb := x.strLen(a), x.strLen(b)
	le := x.p.Eq(la, lb)
	if le.isFalse() {
		return le
	}
	var n uint64
	switch {
	case la.isConst():
		n = la.k
	case lb.isConst():
		n = lb.k
	default:
		if !x.branch(le) {
			return x.p.F
		}
		n = x.concretize(la, 300, "string comparison length")
	}
	r := le
	for i := uint64(0); i < n; i++ {
		ti := x.p.Int(int64(i))
		r = x.p.And(r, x.p.Eq(x.strAt(a, ti), x.strAt(b, ti)))
	}
	return r
}

func (x *Exec) strLess(a, b Str) *Term {
	if a.mem == nil && b.mem == nil {
		return x.p.Bool(a.s < b.s)
	}
	na := x.concretize(x.strLen(a), 300, "string comparison")
	nb := x.concretize(x.strLen(b), 300, "string comparison")
	n := na
	if nb < n {
		n = nb
	}
	r := x.p.Bool(na < nb)
	for i := int64(n) - 1; i >= 0; i-- {
		ca, cb := x.strAt(a, x.p.Int(i)), x.strAt(b, x.p.Int(i))
		r = x.p.Ite(x.p.Ult(ca, cb), x.p.T, x.p.Ite(x.p.Ult(cb, ca), x.p.F, r))
	}
	return r
}

func (x *Exec) strConcat(a, b Str) Str {
	if a.mem == nil && b.mem == nil {
		return Str{s: a.s + b.s}
	}
	la, lb := x.strLen(a), x.strLen(b)
	ma, oa := x.strMem(a)
	mb, ob := x.strMem(b)
	m := &Mem{kind: mCopy, w: 8, next: &Mem{kind: mZero, w: 8}, idx: x.p.Int(0), n: la, src: ma, soff: oa}
	m = &Mem{kind: mCopy, w: 8, next: m, idx: la, n: lb, src: mb, soff: ob}
	return x.normStr(Str{mem: m, off: x.p.Int(0), n: x.p.Add(la, lb)})
}

func (x *Exec) bytesToStr(s Slice) Str {
	if s.a == nil {
		return Str{}
	}
	m, o := x.snapshot(s.a, s.off, s.len)
	return x.normStr(Str{mem: m, off: o, n: s.len})
}

func (x *Exec) strToBytes(s Str, elem types.Type) Slice {
	n := x.strLen(s)
	var a *Arr
	if n.isConst() {
		a = x.newArr(elem, int(n.k))
	} else {
		x.objs++
		a = &Arr{elem: elem, nt: n, sc: true, w: 8, mem: &Mem{kind: mZero, w: 8}, id: x.objs}
	}
	m, o := x.strMem(s)
	x.copyScalar(a, x.p.Int(0), n, m, o)
	return Slice{a, x.p.Int(0), n, n}
}

// ---- conversions ----

func (x *Exec) convert(v V, from, to types.Type) V {
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		p := x.asPtr(v)
		return p
	}
	if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
		if pt, ok := tu.(*types.Pointer); ok {
			p := x.asPtr(v)
			if p.isNil() {
				return p
			}
			return x.castPtr(p, pt.Elem())
		}
		if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.Uintptr {
			return PtrInt{x.asPtr(v)}
		}
	}
	// strings
	if isString(to) {
		switch s := v.(type) {
		case Slice:
			if w, _ := scalarWidth(fu.(*types.Slice).Elem()); w == 8 {
				return x.bytesToStr(s)
			}
			// []rune
			n := x.concretize(s.len, 64, "rune slice")
			var rs []rune
			for i := uint64(0); i < n; i++ {
				t := x.arrGet(s.a, x.p.Add(s.off, x.p.Int(int64(i))))
				rs = append(rs, rune(int32(x.concretize(t, 64, "rune"))))
			}
			return Str{s: string(rs)}
		case Str:
			return s
		case *Term:
			return Str{s: string(rune(int64(x.concretize(x.p.Resize(s, 64, isSigned(from)), 300, "rune"))))}
		}
	}
	if s, ok := v.(Str); ok {
		if sl, ok := tu.(*types.Slice); ok {
			if w, _ := scalarWidth(sl.Elem()); w == 8 {
				return x.strToBytes(s, sl.Elem())
			}
			if s.mem == nil {
				rs := []rune(s.s)
				a := x.newArr(sl.Elem(), len(rs))
				for i, r := range rs {
					a.dense[i] = x.p.BV(32, uint64(r))
				}
				n := x.p.Int(int64(len(rs)))
				return Slice{a, x.p.Int(0), n, n}
			}
		}
	}
	if pi, ok := v.(PtrInt); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.Uintptr {
			return pi
		}
		v = x.ptrIntTerm(pi)
	}
	if t, ok := v.(*Term); ok {
		w, ok := scalarWidth(to)
		if !ok {
			x.unsupported("conversion %s to %s", from, to)
		}
		ff, tf := isFloat(from), isFloat(to)
		switch {
		case ff && tf:
			return x.fconv(t, w)
		case ff:
			if t.isConst() {
				f := fbits(t)
				if isSigned(to) {
					return x.p.BV(w, uint64(int64(f)))
				}
				return x.p.BV(w, uint64(f))
			}
			x.unsupported("float to integer conversion of a symbolic value")
		case tf:
			if t.isConst() {
				if isSigned(from) {
					return x.fterm(w, float64(sext64(t.k, t.w)))
				}
				return x.fterm(w, float64(t.k))
			}
			return x.p.UF(fmt.Sprintf("i%dtof%d%v", t.w, w, isSigned(from)), w, t)
		default:
			return x.p.Resize(t, w, isSigned(from))
		}
	}
	// pointer-shaped conversions keep the value
	return v
}

func (x *Exec) fconv(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.isConst() {
		return x.fterm(w, fbits(t))
	}
	if w == 64 {
		return x.p.UF("f32to64", 64, t)
	}
	return x.p.UF("f64to32", 32, t)
}

// castPtr changes the pointee type of a pointer.
func (x *Exec) castPtr(p Ptr, elem types.Type) Ptr {
	if p.a != nil {
		return p
	}
	q := p
	q.cast = nil
	if p.c != nil && !x.fits(p.c.v, elem) {
		q.cast = elem
	}
	return q
}

// fits reports whether the content v can be a value of type t.
func (x *Exec) fits(v V, t types.Type) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *StructV:
		s, ok := t.Underlying().(*types.Struct)
		return ok && s.NumFields() == len(v.f)
	case *Arr:
		a, ok := t.Underlying().(*types.Array)
		return ok && int(a.Len()) == v.n && types.Identical(a.Elem().Underlying(), v.elem.Underlying())
	case *Term:
		w, ok := scalarWidth(t)
		return ok && w == v.w
	case Ptr:
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return true
		case *types.Basic:
			return u.Kind() == types.UnsafePointer
		}
		return false
	case Slice:
		_, ok := t.Underlying().(*types.Slice)
		return ok
	case Str:
		return isString(t)
	case Iface:
		_, ok := t.Underlying().(*types.Interface)
		return ok
	}
	return true
}

// ---- interfaces ----

func (x *Exec) makeIface(v V, t types.Type) V {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return Iface{t: t, v: copyVal(v)}
}

func (x *Exec) typeAssert(ins *ssa.TypeAssert, i Iface) V {
	t := ins.AssertedType
	ok := false
	var v V
	if it, isI := t.Underlying().(*types.Interface); isI {
		if i.t != nil && x.implements(i, it) {
			ok = true
			v = i
		} else {
			v = Iface{}
		}
	} else {
		if i.t != nil && x.w.eng.typeID(i.t) == x.w.eng.typeID(t) {
			ok = true
			v = copyVal(i.v)
			if v == nil {
				v = x.zero(t)
			}
		} else {
			v = x.zero(t)
		}
	}
	if ins.CommaOk {
		return Tuple{v, x.p.Bool(ok)}
	}
	if !ok {
		d := "nil"
		if i.t != nil {
			d = i.t.String()
		}
		x.rtPanic("interface conversion: interface is %s, not %s", d, t)
	}
	return v
}

func (x *Exec) implements(i Iface, it *types.Interface) bool {
	if i.t == x.w.eng.rtErrType {
		for k := 0; k < it.NumMethods(); k++ {
			n := it.Method(k).Name()
			if n != "Error" && n != "RuntimeError" {
				return false
			}
		}
		return true
	}
	if _, ok := i.v.(RType); ok {
		return true
	}
	return types.Implements(i.t, it)
}

// ---- maps ----

func (x *Exec) newMap(k, v types.Type) *MapV {
	x.objs++
	return &MapV{kt: k, vt: v, idx: map[string]*MapEnt{}, id: x.objs}
}

// keyStr gives a canonical text of a concrete key.
func (x *Exec) keyStr(k V, t types.Type) (string, bool) {
	switch k := k.(type) {
	case *Term:
		if k.isConst() {
			if isFloat(t) {
				f := fbits(k)
				if f != f {
					return "", false
				}
				if f == 0 {
					return "i0", true
				}
			}
			return fmt.Sprintf("i%d", k.k), true
		}
		return "", false
	case Str:
		if k.mem == nil {
			return "s" + k.s, true
		}
		return "", false
	case Ptr:
		if k.a != nil && !k.i.isConst() {
			return "", false
		}
		return fmt.Sprintf("p%p.%p.%v", k.c, k.a, k.i), true
	case PtrInt:
		return x.keyStr(x.ptrIntTerm(k), t)
	case Iface:
		if k.t == nil {
			return "nil", true
		}
		if !types.Comparable(k.t) {
			x.rtPanic("%s", "hash of unhashable type "+k.t.String())
		}
		s, ok := x.keyStr(k.v, k.t)
		return fmt.Sprintf("I%d:", x.w.eng.typeID(k.t)) + s, ok
	case RType:
		return fmt.Sprintf("T%d", x.w.eng.typeID(k.t)), true
	case *ChanV:
		return fmt.Sprintf("c%p", k), true
	case *StructV:
		st := t.Underlying().(*types.Struct)
		var b strings.Builder
		b.WriteByte('{')
		for i := range k.f {
			s, ok := x.keyStr(x.get(&k.f[i], st.Field(i).Type()), st.Field(i).Type())
			if !ok {
				return "", false
			}
			b.WriteString(fmt.Sprintf("%d:%s,", len(s), s))
		}
		return b.String(), true
	case *Arr:
		var b strings.Builder
		b.WriteByte('[')
		for i := 0; i < k.n; i++ {
			var e V
			if k.sc {
				e = x.arrGet(k, x.p.Int(int64(i)))
			} else {
				e = x.get(&k.cells[i], k.elem)
			}
			s, ok := x.keyStr(e, k.elem)
			if !ok {
				return "", false
			}
			b.WriteString(fmt.Sprintf("%d:%s,", len(s), s))
		}
		return b.String(), true
	}
	x.unsupported("map key %T", k)
	return "", false
}

// mapFind locates the entry of key k, forking on symbolic equality.
func (x *Exec) mapFind(m *MapV, k V) *MapEnt {
	if m == nil {
		return nil
	}
	ks, conc := x.keyStr(k, m.kt)
	if conc {
		if e := m.idx[ks]; e != nil {
			return e
		}
		if m.symk == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.del {
			continue
		}
		if conc {
			if _, c2 := x.keyStr(e.k, m.kt); c2 {
				continue
			}
		}
		if x.branch(x.equal(k, e.k, m.kt)) {
			return e
		}
	}
	return nil
}

func (x *Exec) mapSet(m *MapV, k, v V) {
	if e := x.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &MapEnt{k: copyVal(k), v: v}
	m.ents = append(m.ents, e)
	m.n++
	if ks, conc := x.keyStr(k, m.kt); conc {
		m.idx[ks] = e
	} else {
		m.symk++
	}
}

func (x *Exec) mapDelete(m *MapV, k V) {
	e := x.mapFind(m, k)
	if e == nil {
		return
	}
	x.mapDrop(m, e)
}

func (x *Exec) mapDrop(m *MapV, e *MapEnt) {
	e.del = true
	m.n--
	if ks, conc := x.keyStr(e.k, m.kt); conc {
		delete(m.idx, ks)
	} else {
		m.symk--
	}
	for i, q := range m.ents {
		if q == e {
			m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
			break
		}
	}
}

func (x *Exec) lookup(f *Frame, ins *ssa.Lookup) V {
	v := x.val(f, ins.X)
	if s, ok := v.(Str); ok {
		i := x.toInt64(x.val(f, ins.Index), ins.Index.Type())
		x.boundsOK(i, x.strLen(s))
		return x.strAt(s, i)
	}
	m := v.(*MapV)
	if m != nil {
		x.access(m, false, false, ins)
	}
	k := x.val(f, ins.Index)
	e := x.mapFind(m, k)
	vt := ins.X.Type().Underlying().(*types.Map).Elem()
	var r V
	if e != nil {
		r = copyVal(e.v)
	}
	if r == nil {
		r = x.zero(vt)
	}
	if ins.CommaOk {
		return Tuple{r, x.p.Bool(e != nil)}
	}
	return r
}

type Iter struct {
	m    *MapV
	ents []*MapEnt
	s    Str
	i    int
}

func (x *Exec) mkRange(f *Frame, ins *ssa.Range) V {
	switch v := x.val(f, ins.X).(type) {
	case *MapV:
		it := &Iter{m: v}
		if v != nil {
			x.access(v, false, false, ins)
			it.ents = append(it.ents, v.ents...)
			if x.h.MapOrder && len(it.ents) > 1 && len(it.ents) <= 4 {
				// every iteration order
				for i := 0; i < len(it.ents)-1; i++ {
					j := i + x.choose(len(it.ents)-i)
					it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
				}
			}
		}
		return it
	case Str:
		return &Iter{s: v}
	}
	x.unsupported("range over %T", x.val(f, ins.X))
	return nil
}

func (x *Exec) next(f *Frame, ins *ssa.Next) V {
	it := x.val(f, ins.Iter).(*Iter)
	if ins.IsString {
		if it.s.mem != nil {
			n := x.concretize(it.s.n, 64, "range over string")
			if it.i >= int(n) {
				return Tuple{x.p.F, x.p.Int(0), x.p.BV(32, 0)}
			}
			b := x.strAt(it.s, x.p.Int(int64(it.i)))
			if !x.branch(x.p.Ult(b, x.p.BV(8, 0x80))) {
				x.unsupported("range over a symbolic non-ASCII string")
			}
			k := it.i
			it.i++
			return Tuple{x.p.T, x.p.Int(int64(k)), x.p.Zext(b, 32)}
		}
		if it.i >= len(it.s.s) {
			return Tuple{x.p.F, x.p.Int(0), x.p.BV(32, 0)}
		}
		k := it.i
		for j, r := range it.s.s[k:] {
			_ = j
			sz := len(string(r))
			if r == 0xfffd {
				sz = 1
			}
			it.i += sz
			return Tuple{x.p.T, x.p.Int(int64(k)), x.p.BV(32, uint64(uint32(r)))}
		}
	}
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if e.del {
			continue
		}
		return Tuple{x.p.T, copyVal(e.k), copyVal(e.v)}
	}
	return Tuple{x.p.F, nil, nil}
}

// setPending notes the map a goroutine is about to access, so that an access of another goroutine
// to the same map is known to happen at the same time.
func (x *Exec) setPending(g *G, f *Frame, ins ssa.Instruction) {
	var m V
	w := false
	switch ins := ins.(type) {
	case *ssa.Lookup:
		m = x.val(f, ins.X)
	case *ssa.MapUpdate:
		m, w = x.val(f, ins.Map), true
	case *ssa.Call:
		if b, ok := ins.Call.Value.(*ssa.Builtin); ok && len(ins.Call.Args) > 0 && b.Name() == "delete" {
			m, w = x.val(f, ins.Call.Args[0]), true
		}
	}
	if m, ok := m.(*MapV); ok && m != nil {
		g.pendMap, g.pendWrite = m, w
	}
}

func (x *Exec) mapAccess(m *MapV, write bool) {
	for _, o := range x.gs {
		if o != x.cur && !o.done && o.pendMap == m && (write || o.pendWrite) {
			x.violation("fatal", "concurrent accesses to a map: the other at "+x.gloc(o), nil)
		}
	}
}
