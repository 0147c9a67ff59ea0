package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// V is a run-time value: *Term, Str, Ptr, Slice, *StructV, *Arr, Iface, *Closure, *ChanV, *MapV, Tuple,
// RVal (reflect.Value), RType (reflect.Type content), PtrInt (uintptr holding a pointer), *Iter, TimeV.
// A nil V is the zero value of its static type.
type V interface{}

// Cell is one addressable location; a struct or array lives inside it as *StructV / *Arr.
type Cell struct{ v V }

type StructV struct{ f []Cell }

type Tuple []V

// Ptr points to a cell, or to element i of a scalar array.
type Ptr struct {
	c    *Cell
	a    *Arr
	i    *Term
	cast types.Type // set when the pointer was converted through unsafe.Pointer to a different pointee type
}

func (p Ptr) isNil() bool { return p.c == nil && p.a == nil }

type PtrInt struct{ p Ptr }

type Slice struct {
	a             *Arr
	off, len, cap *Term
}

type Str struct {
	s      string // concrete content when mem == nil
	mem    *Mem   // symbolic content
	off, n *Term
}

type Iface struct {
	t types.Type
	v V
}

type Closure struct {
	fn     *ssa.Function
	free   []V
	native func(x *Exec, args []V) V // engine-implemented function value
	name   string
}

type MapEnt struct {
	k, v V
	del  bool
}

type MapV struct {
	kt, vt types.Type
	ents   []*MapEnt
	idx    map[string]*MapEnt // concrete keys
	symk   int                // live entries with a non-concrete key
	n      int
	id     int
}

// Waiter is a goroutine parked on a channel operation.
type Waiter struct {
	g    *G
	send bool
	val  V
	ok   bool
	ci   int // select case index, -1 outside a select
	sel  *selState
	vc   map[int]int
}

// selState is shared by the waiters of one blocked operation.
type selState struct {
	done bool
	w    *Waiter // the waiter that completed
	ws   []*chanWait
}

type chanWait struct {
	c *ChanV
	w *Waiter
}

type chanItem struct {
	v  V
	vc map[int]int
}

type ChanV struct {
	et      types.Type
	cap     int
	buf     []chanItem
	closed  bool
	closeVC map[int]int
	recvq   []*Waiter
	sendq   []*Waiter
	id      int
}

// ---- scalar memory ----

type memKind uint8

const (
	mZero memKind = iota
	mBase         // uninterpreted base array (name)
	mDense
	mStore
	mCopy
)

// Mem is a persistent symbolic scalar memory.
type Mem struct {
	kind  memKind
	w     uint8
	name  string
	dense []*Term
	next  *Mem
	idx   *Term // store index / copy destination
	val   *Term
	n     *Term // copy length
	src   *Mem
	soff  *Term
	depth int
}

// Arr is an array object. Scalar element arrays hold terms; others hold cells.
type Arr struct {
	elem  types.Type
	n     int   // length when nt is nil
	nt    *Term // symbolic length
	sc    bool
	w     uint8
	dense []*Term
	mem   *Mem // when set, dense is unused
	cells []Cell
	id    int
}

func (x *Exec) arrLen(a *Arr) *Term {
	if a.nt != nil {
		return a.nt
	}
	return x.p.Int(int64(a.n))
}

func scalarWidth(t types.Type) (w uint8, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64, true
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

const denseMax = 1 << 16

func (x *Exec) newArr(elem types.Type, n int) *Arr {
	x.objs++
	a := &Arr{elem: elem, n: n, id: x.objs}
	if w, ok := scalarWidth(elem); ok {
		a.sc, a.w = true, w
		if n <= denseMax {
			a.dense = make([]*Term, n)
		} else {
			a.mem = &Mem{kind: mZero, w: w}
		}
		return a
	}
	if n > 1<<20 {
		x.unsupported("array of %d non-scalar elements", n)
	}
	a.cells = make([]Cell, n)
	return a
}

func (x *Exec) zeroTerm(w uint8) *Term {
	if w == 0 {
		return x.p.F
	}
	return x.p.BV(w, 0)
}

// toMem switches a dense array to the symbolic representation.
func (x *Exec) toMem(a *Arr) {
	if a.mem == nil {
		a.mem = x.denseMem(a, 0, a.n)
		a.dense = nil
	}
}

func (x *Exec) denseMem(a *Arr, lo, hi int) *Mem {
	d := make([]*Term, hi-lo)
	allz := true
	for i := range d {
		d[i] = a.dense[lo+i]
		if d[i] != nil {
			allz = false
		}
	}
	if allz {
		return &Mem{kind: mZero, w: a.w}
	}
	return &Mem{kind: mDense, w: a.w, dense: d}
}

func (x *Exec) memRead(m *Mem, i *Term) *Term {
	switch m.kind {
	case mZero:
		return x.zeroTerm(m.w)
	case mBase:
		return x.p.Select(m.name, m.w, i)
	case mDense:
		if i.isConst() {
			if i.k < uint64(len(m.dense)) && m.dense[i.k] != nil {
				return m.dense[i.k]
			}
			return x.zeroTerm(m.w)
		}
		if len(m.dense) > 600 {
			x.unsupported("symbolic index into a dense array of %d", len(m.dense))
		}
		// build an ite chain, runs of equal values collapse
		r := x.zeroTerm(m.w)
		for k := len(m.dense) - 1; k >= 0; k-- {
			e := m.dense[k]
			if e == nil {
				e = x.zeroTerm(m.w)
			}
			r = x.p.Ite(x.p.Eq(i, x.p.Int(int64(k))), e, r)
		}
		return r
	case mStore:
		c := x.p.Eq(m.idx, i)
		if c.isTrue() {
			return m.val
		}
		if c.isFalse() || x.knownFalse(c) {
			return x.memRead(m.next, i)
		}
		if x.knownTrue(c) {
			return m.val
		}
		return x.p.Ite(c, m.val, x.memRead(m.next, i))
	case mCopy:
		d := x.p.Sub(i, m.idx)
		in := x.p.Ult(d, m.n)
		if in.isTrue() || (!in.isFalse() && x.knownTrue(in)) {
			return x.memRead(m.src, x.p.Add(d, m.soff))
		}
		if in.isFalse() || x.knownFalse(in) {
			return x.memRead(m.next, i)
		}
		return x.p.Ite(in, x.memRead(m.src, x.p.Add(d, m.soff)), x.memRead(m.next, i))
	}
	panic("mem")
}

func (x *Exec) arrGet(a *Arr, i *Term) *Term {
	if a.mem == nil {
		if i.isConst() {
			if t := a.dense[i.k]; t != nil {
				return t
			}
			return x.zeroTerm(a.w)
		}
		return x.memRead(&Mem{kind: mDense, w: a.w, dense: a.dense}, i)
	}
	return x.memRead(a.mem, i)
}

func (x *Exec) arrSet(a *Arr, i, v *Term) {
	if a.mem == nil && i.isConst() {
		a.dense[i.k] = v
		return
	}
	x.toMem(a)
	a.mem = &Mem{kind: mStore, w: a.w, next: a.mem, idx: i, val: v}
}

// cut returns the content of a as an immutable memory, plus the offset to add to indices.
func (x *Exec) snapshot(a *Arr, off, n *Term) (m *Mem, o *Term) {
	if a.mem != nil {
		return a.mem, off
	}
	if off.isConst() && n.isConst() {
		lo, hi := int(off.k), int(off.k+n.k)
		if hi > a.n {
			hi = a.n
		}
		if lo > hi {
			lo = hi
		}
		return x.denseMem(a, lo, hi), x.p.Int(0)
	}
	return x.denseMem(a, 0, a.n), off
}

// copyMem copies n elements of src (from soff) to dst (at doff).
func (x *Exec) copyScalar(dst *Arr, doff, n *Term, src *Mem, soff *Term) {
	if n.isConst() && n.k == 0 {
		return
	}
	if dst.mem == nil && doff.isConst() && n.isConst() && n.k <= denseMax {
		tmp := make([]*Term, n.k)
		for k := range tmp {
			tmp[k] = x.memRead(src, x.p.Add(soff, x.p.Int(int64(k))))
		}
		copy(dst.dense[doff.k:], tmp)
		return
	}
	x.toMem(dst)
	dst.mem = &Mem{kind: mCopy, w: dst.w, next: dst.mem, idx: doff, n: n, src: src, soff: soff}
}

// ---- copying aggregates ----

func copyVal(v V) V {
	switch v := v.(type) {
	case *StructV:
		n := &StructV{f: make([]Cell, len(v.f))}
		for i := range v.f {
			n.f[i].v = copyVal(v.f[i].v)
		}
		return n
	case *Arr:
		n := *v
		if v.dense != nil {
			n.dense = append([]*Term(nil), v.dense...)
		}
		if v.cells != nil {
			n.cells = make([]Cell, len(v.cells))
			for i := range v.cells {
				n.cells[i].v = copyVal(v.cells[i].v)
			}
		}
		return &n
	}
	return v
}

// assign stores v into c keeping the identity of nested locations.
func assign(c *Cell, v V) {
	switch v := v.(type) {
	case *StructV:
		if old, ok := c.v.(*StructV); ok && old != v && len(old.f) == len(v.f) {
			for i := range v.f {
				assign(&old.f[i], v.f[i].v)
			}
			return
		}
		c.v = copyVal(v)
		return
	case *Arr:
		if old, ok := c.v.(*Arr); ok && old != v {
			if v.dense != nil {
				old.dense = append(old.dense[:0:0], v.dense...)
			} else {
				old.dense = nil
			}
			old.mem = v.mem
			for i := range v.cells {
				assign(&old.cells[i], v.cells[i].v)
			}
			return
		}
		c.v = copyVal(v)
		return
	case nil:
		switch old := c.v.(type) {
		case *StructV:
			for i := range old.f {
				assign(&old.f[i], nil)
			}
			return
		case *Arr:
			if old.dense != nil {
				for i := range old.dense {
					old.dense[i] = nil
				}
			} else if old.sc {
				old.mem = &Mem{kind: mZero, w: old.w}
			}
			for i := range old.cells {
				assign(&old.cells[i], nil)
			}
			return
		}
	}
	c.v = v
}

// zero makes the zero value of t.
func (x *Exec) zero(t types.Type) V {
	if isReflectValue(t) {
		return RVal{}
	}
	if isTimeTime(t) {
		return TimeV{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, ok := scalarWidth(u); ok {
			return x.zeroTerm(w)
		}
		switch {
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return nil
		}
		x.unsupported("zero of %s", t)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		z := x.p.Int(0)
		return Slice{nil, z, z, z}
	case *types.Struct:
		return &StructV{f: make([]Cell, u.NumFields())}
	case *types.Array:
		return x.newArr(u.Elem(), int(u.Len()))
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = x.zero(u.At(i).Type())
		}
		return r
	}
	x.unsupported("zero of %s", t)
	return nil
}

// get materialises the content of a cell of type t.
func (x *Exec) get(c *Cell, t types.Type) V {
	if c.v == nil {
		c.v = x.zero(t)
	}
	return c.v
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok := t.(*types.Alias); ok {
			return isNamed(types.Unalias(a), pkg, name)
		}
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}
func isReflectValue(t types.Type) bool { return isNamed(t, "reflect", "Value") }
func isTimeTime(t types.Type) bool     { return isNamed(t, "time", "Time") }

// TimeV is a time.Time: nanoseconds relative to the harness epoch (nil: the zero time).
type TimeV struct{ ns *Term }

type unsupportedErr struct{ msg string }

func (x *Exec) unsupported(f string, args ...interface{}) {
	panic(pathEnd{kind: endUnsupported, msg: fmt.Sprintf(f, args...) + x.where()})
}
