package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RType is the content of a reflect.Type; RVal is a reflect.Value.
type RType struct{ t types.Type }

type RVal struct {
	t    types.Type
	p    Ptr
	addr bool // addressable: the value lives at p
	v    V    // otherwise
	ro   bool // obtained through an unexported field
}

func (x *Exec) rval(v V) RVal {
	r, _ := v.(RVal)
	return r
}

func (x *Exec) rload(r RVal) V {
	if r.addr {
		return x.load(r.p, r.t, nil)
	}
	if r.v == nil {
		return x.zero(r.t)
	}
	return r.v
}

func (x *Exec) rtype(t types.Type) V { return Iface{t: x.w.eng.rtypePtr, v: RType{t}} }

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (x *Exec) kindTerm(k reflect.Kind) *Term { return x.p.Int(int64(k)) }

func (x *Exec) rpanic(method string, k reflect.Kind) {
	x.strPanic("reflect: call of " + method + " on " + k.String() + " Value")
}

func (x *Exec) rkind(r RVal) reflect.Kind {
	if r.t == nil {
		return reflect.Invalid
	}
	return kindOf(r.t)
}

func (x *Exec) mustKind(r RVal, m string, ks ...reflect.Kind) reflect.Kind {
	k := x.rkind(r)
	for _, q := range ks {
		if k == q {
			return k
		}
	}
	x.rpanic(m, k)
	return k
}

func (x *Exec) relem(r RVal) RVal {
	switch x.mustKind(r, "reflect.Value.Elem", reflect.Ptr, reflect.Interface) {
	case reflect.Ptr:
		p := x.asPtr(x.rload(r))
		if p.isNil() {
			return RVal{}
		}
		return RVal{t: r.t.Underlying().(*types.Pointer).Elem(), p: p, addr: true, ro: r.ro}
	default:
		i := x.rload(r).(Iface)
		if i.t == nil {
			return RVal{}
		}
		return RVal{t: i.t, v: i.v, ro: r.ro}
	}
}

func (x *Exec) rindex(r RVal, i *Term) RVal {
	switch x.mustKind(r, "reflect.Value.Index", reflect.Array, reflect.Slice, reflect.String) {
	case reflect.Slice:
		s := x.rload(r).(Slice)
		if !x.branch(x.p.Ult(i, s.len)) {
			x.strPanic("reflect: slice index out of range")
		}
		return RVal{t: r.t.Underlying().(*types.Slice).Elem(), p: x.elemPtr(s.a, x.p.Add(s.off, i)), addr: true, ro: r.ro}
	case reflect.Array:
		at := r.t.Underlying().(*types.Array)
		if !x.branch(x.p.Ult(i, x.p.Int(at.Len()))) {
			x.strPanic("reflect: array index out of range")
		}
		if r.addr {
			return RVal{t: at.Elem(), p: x.indexAddr(r.p, types.NewPointer(r.t), i).(Ptr), addr: true, ro: r.ro}
		}
		a := x.rload(r).(*Arr)
		if a.sc {
			return RVal{t: at.Elem(), v: x.arrGet(a, i), ro: r.ro}
		}
		k := x.concretize(i, 512, "array index")
		return RVal{t: at.Elem(), v: copyVal(x.get(&a.cells[k], at.Elem())), ro: r.ro}
	default:
		s := x.rload(r).(Str)
		if !x.branch(x.p.Ult(i, x.strLen(s))) {
			x.strPanic("reflect: string index out of range")
		}
		return RVal{t: types.Typ[types.Uint8], v: x.strAt(s, i), ro: r.ro}
	}
}

func (x *Exec) rfield(r RVal, i int) RVal {
	x.mustKind(r, "reflect.Value.Field", reflect.Struct)
	st := r.t.Underlying().(*types.Struct)
	if i < 0 || i >= st.NumFields() {
		x.strPanic("reflect: Field index out of range")
	}
	fl := st.Field(i)
	ro := r.ro || !fl.Exported()
	if r.addr {
		return RVal{t: fl.Type(), p: x.fieldAddr(r.p, types.NewPointer(r.t), i).(Ptr), addr: true, ro: ro}
	}
	s := x.rload(r).(*StructV)
	return RVal{t: fl.Type(), v: copyVal(x.get(&s.f[i], fl.Type())), ro: ro}
}

func (x *Exec) mustSet(r RVal, m string) {
	if r.t == nil {
		x.rpanic(m, reflect.Invalid)
	}
	if !r.addr {
		x.strPanic("reflect: " + m + " using unaddressable value")
	}
	if r.ro {
		x.strPanic("reflect: " + m + " using value obtained using unexported field")
	}
}

func (x *Exec) assignTo(v RVal, t types.Type, m string) V {
	if v.t == nil {
		x.rpanic(m, reflect.Invalid)
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if _, isI := v.t.Underlying().(*types.Interface); isI {
			return x.rload(v)
		}
		if !types.Implements(v.t, it) {
			x.strPanic(m + ": value of type " + v.t.String() + " is not assignable to type " + t.String())
		}
		return x.makeIface(x.rload(v), v.t)
	}
	if !types.AssignableTo(v.t, t) {
		x.strPanic(m + ": value of type " + v.t.String() + " is not assignable to type " + t.String())
	}
	return copyVal(x.rload(v))
}

func (x *Exec) rlen(r RVal) *Term {
	switch x.mustKind(r, "reflect.Value.Len", reflect.Array, reflect.Slice, reflect.String, reflect.Map, reflect.Chan, reflect.Ptr) {
	case reflect.Array:
		return x.p.Int(r.t.Underlying().(*types.Array).Len())
	case reflect.Slice:
		return x.rload(r).(Slice).len
	case reflect.String:
		return x.strLen(x.rload(r).(Str))
	case reflect.Map:
		m := x.rload(r).(*MapV)
		if m == nil {
			return x.p.Int(0)
		}
		return x.p.Int(int64(m.n))
	case reflect.Ptr:
		if a, ok := r.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			return x.p.Int(a.Len())
		}
		x.rpanic("reflect.Value.Len", reflect.Ptr)
	}
	x.unsupported("reflect Len")
	return nil
}

func (x *Exec) rinterface(r RVal) V {
	if r.t == nil {
		x.rpanic("reflect.Value.Interface", reflect.Invalid)
	}
	if r.ro {
		x.strPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
	}
	v := x.rload(r)
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		return v
	}
	return x.makeIface(v, r.t)
}

func (x *Exec) rset(r RVal, v V) { x.store(r.p, v, r.t, nil) }

func (x *Exec) structField(st *types.Struct, i int, ft types.Type) V {
	s := &StructV{f: make([]Cell, ft.Underlying().(*types.Struct).NumFields())}
	u := ft.Underlying().(*types.Struct)
	for k := 0; k < u.NumFields(); k++ {
		switch u.Field(k).Name() {
		case "Name":
			s.f[k].v = Str{s: st.Field(i).Name()}
		case "PkgPath":
			if !st.Field(i).Exported() {
				s.f[k].v = Str{s: st.Field(i).Pkg().Path()}
			}
		case "Type":
			s.f[k].v = x.rtype(st.Field(i).Type())
		case "Tag":
			s.f[k].v = Str{s: st.Tag(i)}
		case "Anonymous":
			s.f[k].v = x.p.Bool(st.Field(i).Anonymous())
		case "Index":
			a := x.newArr(types.Typ[types.Int], 1)
			a.dense[0] = x.p.Int(int64(i))
			one := x.p.Int(1)
			s.f[k].v = Slice{a, x.p.Int(0), one, one}
		}
	}
	return s
}

// typeMethod implements a method call on a reflect.Type.
func (x *Exec) typeMethod(name string, args []V) V {
	t := args[0].(RType).t
	argT := func(i int) types.Type {
		it, _ := args[i].(Iface)
		r, ok := it.v.(RType)
		if !ok {
			x.strPanic("reflect: nil type passed to Type." + name)
		}
		return r.t
	}
	switch name {
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return x.rtype(u.Elem())
		case *types.Slice:
			return x.rtype(u.Elem())
		case *types.Array:
			return x.rtype(u.Elem())
		case *types.Map:
			return x.rtype(u.Elem())
		case *types.Chan:
			return x.rtype(u.Elem())
		}
		x.strPanic("reflect: Elem of invalid type " + t.String())
	case "Key":
		if u, ok := t.Underlying().(*types.Map); ok {
			return x.rtype(u.Key())
		}
		x.strPanic("reflect: Key of non-map type")
	case "Kind":
		return x.kindTerm(kindOf(t))
	case "Len":
		if u, ok := t.Underlying().(*types.Array); ok {
			return x.p.Int(u.Len())
		}
		x.strPanic("reflect: Len of non-array type " + t.String())
	case "NumField":
		if u, ok := t.Underlying().(*types.Struct); ok {
			return x.p.Int(int64(u.NumFields()))
		}
		x.strPanic("reflect: NumField of non-struct type " + t.String())
	case "Field":
		if u, ok := t.Underlying().(*types.Struct); ok {
			i := x.concretize(args[1].(*Term), 64, "field index")
			if int(i) >= u.NumFields() {
				x.strPanic("reflect: Field index out of bounds")
			}
			return x.structField(u, int(i), x.w.eng.structFieldT)
		}
		x.strPanic("reflect: Field of non-struct type " + t.String())
	case "Name":
		switch n := t.(type) {
		case *types.Named:
			return Str{s: n.Obj().Name()}
		case *types.Basic:
			return Str{s: n.Name()}
		}
		return Str{}
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return Str{s: n.Obj().Pkg().Path()}
		}
		return Str{}
	case "String":
		return Str{s: types.TypeString(t, func(p *types.Package) string { return p.Name() })}
	case "Size":
		return x.p.Int(x.w.eng.sizes.Sizeof(t))
	case "Bits":
		return x.p.Int(x.w.eng.sizes.Sizeof(t) * 8)
	case "Align":
		return x.p.Int(x.w.eng.sizes.Alignof(t))
	case "Implements":
		it, ok := argT(1).Underlying().(*types.Interface)
		if !ok {
			x.strPanic("reflect: non-interface type passed to Type.Implements")
		}
		return x.p.Bool(types.Implements(t, it))
	case "AssignableTo":
		return x.p.Bool(types.AssignableTo(t, argT(1)))
	case "ConvertibleTo":
		return x.p.Bool(types.ConvertibleTo(t, argT(1)))
	case "Comparable":
		return x.p.Bool(types.Comparable(t))
	case "NumMethod":
		return x.p.Int(int64(types.NewMethodSet(t).Len()))
	}
	x.unsupported("reflect.Type method %s", name)
	return nil
}

func (x *Exec) rtypeArg(v V) types.Type {
	i, _ := v.(Iface)
	r, ok := i.v.(RType)
	if !ok {
		x.nilDeref()
	}
	return r.t
}

// deepEqual compares like reflect.DeepEqual.
func (x *Exec) deepEqual(a, b V, t types.Type, depth int) *Term {
	p := x.p
	if depth > 40 {
		x.unsupported("deep comparison")
	}
	if a == nil {
		a = x.zero(t)
	}
	if b == nil {
		b = x.zero(t)
	}
	switch av := a.(type) {
	case Iface:
		bv := b.(Iface)
		if av.t == nil || bv.t == nil {
			return p.Bool(av.t == nil && bv.t == nil)
		}
		if x.w.eng.typeID(av.t) != x.w.eng.typeID(bv.t) {
			return p.F
		}
		return x.deepEqual(av.v, bv.v, av.t, depth+1)
	case Ptr:
		bp := b.(Ptr)
		if x.ptrEq(av, bp).isTrue() {
			return p.T
		}
		if av.isNil() || bp.isNil() {
			return p.Bool(av.isNil() && bp.isNil())
		}
		et := t.Underlying().(*types.Pointer).Elem()
		return x.deepEqual(x.load(av, et, nil), x.load(bp, et, nil), et, depth+1)
	case Slice:
		bs := b.(Slice)
		if (av.a == nil) != (bs.a == nil) {
			return p.F
		}
		et := t.Underlying().(*types.Slice).Elem()
		if !x.branch(p.Eq(av.len, bs.len)) {
			return p.F
		}
		if av.a == nil {
			return p.T
		}
		n := x.concretize(av.len, 300, "deep comparison")
		r := p.T
		for i := uint64(0); i < n; i++ {
			k := p.Int(int64(i))
			var ea, eb V
			if av.a.sc && bs.a.sc {
				ea, eb = x.arrGet(av.a, p.Add(av.off, k)), x.arrGet(bs.a, p.Add(bs.off, k))
			} else {
				ea = x.load(x.elemPtr(av.a, p.Add(av.off, k)), et, nil)
				eb = x.load(x.elemPtr(bs.a, p.Add(bs.off, k)), et, nil)
			}
			r = p.And(r, x.deepEqual(ea, eb, et, depth+1))
		}
		return r
	case *StructV:
		bs := b.(*StructV)
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			x.unsupported("deep comparison of %s", t)
		}
		r := p.T
		for i := range av.f {
			r = p.And(r, x.deepEqual(av.f[i].v, bs.f[i].v, st.Field(i).Type(), depth+1))
		}
		return r
	case *Arr:
		bs := b.(*Arr)
		r := p.T
		for i := 0; i < av.n; i++ {
			if av.sc {
				r = p.And(r, x.deepEqual(x.arrGet(av, p.Int(int64(i))), x.arrGet(bs, p.Int(int64(i))), av.elem, depth+1))
			} else {
				r = p.And(r, x.deepEqual(av.cells[i].v, bs.cells[i].v, av.elem, depth+1))
			}
		}
		return r
	case *MapV:
		bm := b.(*MapV)
		if (av == nil) != (bm == nil) {
			return p.F
		}
		if av == nil {
			return p.T
		}
		if av.n != bm.n {
			return p.F
		}
		r := p.T
		for _, e := range av.ents {
			q := x.mapFind(bm, e.k)
			if q == nil {
				return p.F
			}
			r = p.And(r, x.deepEqual(e.v, q.v, av.vt, depth+1))
		}
		return r
	case *Closure:
		bc, _ := b.(*Closure)
		return p.Bool(av == nil && bc == nil)
	}
	return x.equal(a, b, t)
}

func init() {
	reg("reflect.TypeOf", func(x *Exec, c *callCtx) stepAct {
		i := c.iface(0)
		if i.t == nil {
			c.ret = Iface{}
		} else {
			c.ret = x.rtype(i.t)
		}
		return actNext
	})
	reg("reflect.ValueOf", func(x *Exec, c *callCtx) stepAct {
		i := c.iface(0)
		if i.t == nil {
			c.ret = RVal{}
		} else {
			c.ret = RVal{t: i.t, v: i.v}
		}
		return actNext
	})
	ret := func(n string, f func(x *Exec, c *callCtx) V) {
		reg(n, func(x *Exec, c *callCtx) stepAct { c.ret = f(x, c); return actNext })
	}
	val := func(n string, f func(x *Exec, r RVal, c *callCtx) V) {
		ret("(reflect.Value)."+n, func(x *Exec, c *callCtx) V { return f(x, x.rval(c.args[0]), c) })
	}
	for _, n := range []string{"reflect.PtrTo", "reflect.PointerTo"} {
		ret(n, func(x *Exec, c *callCtx) V { return x.rtype(types.NewPointer(x.rtypeArg(c.args[0]))) })
	}
	ret("reflect.SliceOf", func(x *Exec, c *callCtx) V { return x.rtype(types.NewSlice(x.rtypeArg(c.args[0]))) })
	ret("reflect.New", func(x *Exec, c *callCtx) V {
		t := x.rtypeArg(c.args[0])
		return RVal{t: types.NewPointer(t), v: Ptr{c: &Cell{}}}
	})
	ret("reflect.Zero", func(x *Exec, c *callCtx) V { t := x.rtypeArg(c.args[0]); return RVal{t: t, v: x.zero(t)} })
	ret("reflect.Indirect", func(x *Exec, c *callCtx) V {
		r := x.rval(c.args[0])
		if x.rkind(r) != reflect.Ptr {
			return r
		}
		return x.relem(r)
	})
	ret("reflect.MakeSlice", func(x *Exec, c *callCtx) V {
		t := x.rtypeArg(c.args[0])
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			x.strPanic("reflect.MakeSlice of non-slice type")
		}
		if x.branch(x.p.Slt(c.term(1), x.p.Int(0))) {
			x.strPanic("reflect.MakeSlice: negative len")
		}
		if x.branch(x.p.Slt(c.term(2), x.p.Int(0))) {
			x.strPanic("reflect.MakeSlice: negative cap")
		}
		if x.branch(x.p.Slt(c.term(2), c.term(1))) {
			x.strPanic("reflect.MakeSlice: len > cap")
		}
		return RVal{t: t, v: x.makeSlice(s.Elem(), c.term(1), c.term(2))}
	})
	ret("reflect.Append", func(x *Exec, c *callCtx) V {
		r := x.rval(c.args[0])
		x.mustKind(r, "reflect.Append", reflect.Slice)
		et := r.t.Underlying().(*types.Slice).Elem()
		s := x.rload(r).(Slice)
		xs := c.slice(1)
		n := x.concretize(xs.len, 64, "append")
		for i := uint64(0); i < n; i++ {
			e := x.rval(xs.a.cells[xs.off.k+i].v)
			v := x.assignTo(e, et, "reflect.Append")
			a := x.newArr(et, 1)
			if a.sc {
				a.dense[0] = v.(*Term)
			} else {
				a.cells[0].v = v
			}
			one := x.p.Int(1)
			s = x.appendSlice(s, Slice{a, x.p.Int(0), one, one}, et, nil).(Slice)
		}
		return RVal{t: r.t, v: s}
	})
	ret("reflect.AppendSlice", func(x *Exec, c *callCtx) V {
		r, q := x.rval(c.args[0]), x.rval(c.args[1])
		x.mustKind(r, "reflect.AppendSlice", reflect.Slice)
		x.mustKind(q, "reflect.AppendSlice", reflect.Slice)
		return RVal{t: r.t, v: x.appendSlice(x.rload(r).(Slice), x.rload(q).(Slice), r.t.Underlying().(*types.Slice).Elem(), nil)}
	})
	ret("reflect.Copy", func(x *Exec, c *callCtx) V {
		d, s := x.rval(c.args[0]), x.rval(c.args[1])
		toS := func(r RVal) Slice {
			switch v := x.rload(r).(type) {
			case Slice:
				return v
			case Str:
				return x.strToBytes(v, types.Typ[types.Uint8])
			case *Arr:
				if r.addr {
					if a, ok := x.get(r.p.c, r.t).(*Arr); ok {
						v = a
					}
				}
				n := x.arrLen(v)
				return Slice{v, x.p.Int(0), n, n}
			}
			x.unsupported("reflect.Copy")
			return Slice{}
		}
		return x.copySlice(toS(d), toS(s), nil)
	})
	ret("reflect.DeepEqual", func(x *Exec, c *callCtx) V {
		return x.deepEqual(c.args[0], c.args[1], types.NewInterfaceType(nil, nil), 0)
	})

	val("Kind", func(x *Exec, r RVal, c *callCtx) V { return x.kindTerm(x.rkind(r)) })
	val("Type", func(x *Exec, r RVal, c *callCtx) V {
		if r.t == nil {
			x.rpanic("reflect.Value.Type", reflect.Invalid)
		}
		return x.rtype(r.t)
	})
	val("IsValid", func(x *Exec, r RVal, c *callCtx) V { return x.p.Bool(r.t != nil) })
	val("Elem", func(x *Exec, r RVal, c *callCtx) V { return x.relem(r) })
	val("Len", func(x *Exec, r RVal, c *callCtx) V { return x.rlen(r) })
	val("Cap", func(x *Exec, r RVal, c *callCtx) V {
		switch x.mustKind(r, "reflect.Value.Cap", reflect.Slice, reflect.Array) {
		case reflect.Slice:
			return x.rload(r).(Slice).cap
		}
		return x.p.Int(r.t.Underlying().(*types.Array).Len())
	})
	val("Index", func(x *Exec, r RVal, c *callCtx) V { return x.rindex(r, c.term(1)) })
	val("NumField", func(x *Exec, r RVal, c *callCtx) V {
		x.mustKind(r, "reflect.Value.NumField", reflect.Struct)
		return x.p.Int(int64(r.t.Underlying().(*types.Struct).NumFields()))
	})
	val("Field", func(x *Exec, r RVal, c *callCtx) V {
		return x.rfield(r, int(int64(x.concretize(c.term(1), 64, "field index"))))
	})
	val("CanSet", func(x *Exec, r RVal, c *callCtx) V { return x.p.Bool(r.addr && !r.ro) })
	val("CanAddr", func(x *Exec, r RVal, c *callCtx) V { return x.p.Bool(r.addr) })
	val("CanInterface", func(x *Exec, r RVal, c *callCtx) V {
		if r.t == nil {
			x.rpanic("reflect.Value.CanInterface", reflect.Invalid)
		}
		return x.p.Bool(!r.ro)
	})
	val("Addr", func(x *Exec, r RVal, c *callCtx) V {
		if !r.addr {
			x.strPanic("reflect.Value.Addr of unaddressable value")
		}
		return RVal{t: types.NewPointer(r.t), v: r.p, ro: r.ro}
	})
	val("IsNil", func(x *Exec, r RVal, c *callCtx) V {
		x.mustKind(r, "reflect.Value.IsNil", reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer)
		return x.equal(x.rload(r), x.zero(r.t), r.t)
	})
	val("IsZero", func(x *Exec, r RVal, c *callCtx) V {
		switch x.rkind(r) {
		case reflect.Slice, reflect.Map, reflect.Func:
		}
		return x.equal(x.rload(r), x.zero(r.t), r.t)
	})
	val("Interface", func(x *Exec, r RVal, c *callCtx) V { return x.rinterface(r) })
	val("Set", func(x *Exec, r RVal, c *callCtx) V {
		x.mustSet(r, "reflect.Value.Set")
		q := x.rval(c.args[1])
		if q.ro {
			x.strPanic("reflect.Set: value obtained using unexported field")
		}
		x.rset(r, x.assignTo(q, r.t, "reflect.Set"))
		return nil
	})
	ints := []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
	uints := []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}
	val("Int", func(x *Exec, r RVal, c *callCtx) V {
		x.mustKind(r, "reflect.Value.Int", ints...)
		return x.p.Resize(x.rload(r).(*Term), 64, true)
	})
	val("Uint", func(x *Exec, r RVal, c *callCtx) V {
		x.mustKind(r, "reflect.Value.Uint", uints...)
		return x.p.Resize(x.rload(r).(*Term), 64, false)
	})
	val("Float", func(x *Exec, r RVal, c *callCtx) V {
		x.mustKind(r, "reflect.Value.Float", reflect.Float32, reflect.Float64)
		return x.fconv(x.rload(r).(*Term), 64)
	})
	val("Bool", func(x *Exec, r RVal, c *callCtx) V {
		x.mustKind(r, "reflect.Value.Bool", reflect.Bool)
		return x.rload(r)
	})
	val("String", func(x *Exec, r RVal, c *callCtx) V {
		if x.rkind(r) != reflect.String {
			return Str{s: "<" + r.t.String() + " Value>"}
		}
		return x.rload(r)
	})
	val("Bytes", func(x *Exec, r RVal, c *callCtx) V {
		switch x.mustKind(r, "reflect.Value.Bytes", reflect.Slice, reflect.Array) {
		case reflect.Array:
			if !r.addr {
				x.strPanic("reflect.Value.Bytes of unaddressable byte array")
			}
			a := x.get(r.p.c, r.t).(*Arr)
			n := x.arrLen(a)
			return Slice{a, x.p.Int(0), n, n}
		}
		if kindOf(r.t.Underlying().(*types.Slice).Elem()) != reflect.Uint8 {
			x.strPanic("reflect.Value.Bytes of non-byte slice")
		}
		return x.rload(r)
	})
	val("SetInt", func(x *Exec, r RVal, c *callCtx) V {
		x.mustSet(r, "reflect.Value.SetInt")
		x.mustKind(r, "reflect.Value.SetInt", ints...)
		w, _ := scalarWidth(r.t)
		x.rset(r, x.p.Resize(c.term(1), w, true))
		return nil
	})
	val("SetUint", func(x *Exec, r RVal, c *callCtx) V {
		x.mustSet(r, "reflect.Value.SetUint")
		x.mustKind(r, "reflect.Value.SetUint", uints...)
		w, _ := scalarWidth(r.t)
		x.rset(r, x.p.Resize(c.term(1), w, false))
		return nil
	})
	val("SetFloat", func(x *Exec, r RVal, c *callCtx) V {
		x.mustSet(r, "reflect.Value.SetFloat")
		x.mustKind(r, "reflect.Value.SetFloat", reflect.Float32, reflect.Float64)
		w, _ := scalarWidth(r.t)
		x.rset(r, x.fconv(c.term(1), w))
		return nil
	})
	val("SetBool", func(x *Exec, r RVal, c *callCtx) V {
		x.mustSet(r, "reflect.Value.SetBool")
		x.mustKind(r, "reflect.Value.SetBool", reflect.Bool)
		x.rset(r, c.term(1))
		return nil
	})
	val("SetString", func(x *Exec, r RVal, c *callCtx) V {
		x.mustSet(r, "reflect.Value.SetString")
		x.mustKind(r, "reflect.Value.SetString", reflect.String)
		x.rset(r, c.args[1])
		return nil
	})
	val("SetBytes", func(x *Exec, r RVal, c *callCtx) V {
		x.mustSet(r, "reflect.Value.SetBytes")
		x.mustKind(r, "reflect.Value.SetBytes", reflect.Slice)
		if kindOf(r.t.Underlying().(*types.Slice).Elem()) != reflect.Uint8 {
			x.strPanic("reflect.Value.SetBytes of non-byte slice")
		}
		x.rset(r, c.slice(1))
		return nil
	})
	val("SetLen", func(x *Exec, r RVal, c *callCtx) V {
		x.mustSet(r, "reflect.Value.SetLen")
		x.mustKind(r, "reflect.Value.SetLen", reflect.Slice)
		s := x.rload(r).(Slice)
		n := c.term(1)
		if !x.branch(x.p.Ule(n, s.cap)) {
			x.strPanic("reflect: slice length out of range in SetLen")
		}
		x.rset(r, Slice{s.a, s.off, n, s.cap})
		return nil
	})
	val("SetZero", func(x *Exec, r RVal, c *callCtx) V {
		x.mustSet(r, "reflect.Value.SetZero")
		x.rset(r, x.zero(r.t))
		return nil
	})
	val("Slice", func(x *Exec, r RVal, c *callCtx) V {
		i, j := c.term(1), c.term(2)
		switch x.mustKind(r, "reflect.Value.Slice", reflect.Slice, reflect.String, reflect.Array) {
		case reflect.Slice:
			s := x.rload(r).(Slice)
			if !x.branch(x.p.And(x.p.Ule(i, j), x.p.Ule(j, s.cap))) {
				x.strPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return RVal{t: r.t, v: x.doSlice(s, nil, i, j, nil), ro: r.ro}
		case reflect.String:
			s := x.rload(r).(Str)
			if !x.branch(x.p.And(x.p.Ule(i, j), x.p.Ule(j, x.strLen(s)))) {
				x.strPanic("reflect.Value.Slice: string slice index out of bounds")
			}
			return RVal{t: r.t, v: x.strSlice(s, i, j), ro: r.ro}
		default:
			if !r.addr {
				x.strPanic("reflect.Value.Slice: slice of unaddressable array")
			}
			at := r.t.Underlying().(*types.Array)
			if !x.branch(x.p.And(x.p.Ule(i, j), x.p.Ule(j, x.p.Int(at.Len())))) {
				x.strPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return RVal{t: types.NewSlice(at.Elem()), v: x.doSlice(r.p, types.NewPointer(r.t), i, j, nil), ro: r.ro}
		}
	})
	ptr := func(x *Exec, r RVal, c *callCtx) V {
		v := x.rload(r)
		switch v := v.(type) {
		case RType:
			return x.p.BV(64, 0x1000000+64*x.w.eng.typeID(v.t))
		case Ptr:
			return PtrInt{v}
		case Slice:
			if v.a == nil {
				return PtrInt{}
			}
			if v.a.sc {
				return PtrInt{Ptr{a: v.a, i: v.off}}
			}
			return PtrInt{x.elemPtr(v.a, v.off)}
		}
		x.unsupported("reflect Pointer of %T", v)
		return nil
	}
	val("Pointer", ptr)
	val("UnsafePointer", func(x *Exec, r RVal, c *callCtx) V {
		v := ptr(x, r, c)
		if pi, ok := v.(PtrInt); ok {
			return pi.p
		}
		x.unsupported("UnsafePointer")
		return nil
	})
	val("UnsafeAddr", func(x *Exec, r RVal, c *callCtx) V {
		if !r.addr {
			x.strPanic("reflect.Value.UnsafeAddr of unaddressable value")
		}
		return PtrInt{r.p}
	})
	val("MapKeys", func(x *Exec, r RVal, c *callCtx) V {
		x.mustKind(r, "reflect.Value.MapKeys", reflect.Map)
		m := x.rload(r).(*MapV)
		rt := c.fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		n := 0
		if m != nil {
			n = m.n
		}
		a := x.newArr(rt, n)
		if m != nil {
			for i, e := range m.ents {
				a.cells[i].v = RVal{t: r.t.Underlying().(*types.Map).Key(), v: copyVal(e.k)}
			}
		}
		k := x.p.Int(int64(n))
		return Slice{a, x.p.Int(0), k, k}
	})
	val("MapIndex", func(x *Exec, r RVal, c *callCtx) V {
		x.mustKind(r, "reflect.Value.MapIndex", reflect.Map)
		mt := r.t.Underlying().(*types.Map)
		m := x.rload(r).(*MapV)
		if e := x.mapFind(m, x.assignTo(x.rval(c.args[1]), mt.Key(), "reflect.MapIndex")); e != nil {
			return RVal{t: mt.Elem(), v: copyVal(e.v)}
		}
		return RVal{}
	})
	val("Convert", func(x *Exec, r RVal, c *callCtx) V {
		t := x.rtypeArg(c.args[1])
		if !types.ConvertibleTo(r.t, t) {
			x.strPanic("reflect.Value.Convert: value cannot be converted")
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			return RVal{t: t, v: x.assignTo(r, t, "reflect.Convert")}
		}
		return RVal{t: t, v: x.convert(x.rload(r), r.t, t)}
	})
	ret("(reflect.Kind).String", func(x *Exec, c *callCtx) V {
		return Str{s: reflect.Kind(x.concretize(c.term(0), 32, "kind")).String()}
	})
	_ = strings.Contains
	_ = ssa.NaiveForm
}
