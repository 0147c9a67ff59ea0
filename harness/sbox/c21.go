package sbox

import (
	"github.com/funny-falcon/go-iproto/marshal"
)

// every scalar alone, as the value, behind a pointer, and as an element of a list
// vf: seq
func VF_C21_scalars() {
	u := vfU64("u")
	f4, f8 := vhF32("f4"), vhF64("f8")
	s, bs := vhStr("s", 3), vhBytes("b", 3)
	ref := &rb{}
	ref.u32(1)
	how := vfChoose("kind", 14)
	switch how {
	case 0, 1:
		ref.f8(uint8(u))
	case 2, 3:
		ref.f16(uint16(u))
	case 4, 5:
		ref.f32(uint32(u))
	case 6, 7:
		ref.f64(u)
	case 8:
		r2 := &rb{}
		ref.ber(4)
		ref.b = append(ref.b, marshal.Write(f4)...)
		_ = r2
	case 9:
		ref.ber(8)
		ref.b = append(ref.b, marshal.Write(f8)...)
	case 10:
		ref.fs(s)
	case 11:
		ref.fb(bs)
	case 12:
		ref.f16(uint16(u))
	case 13:
		ref.fb(bs)
	}
	var v, p interface{}
	var same func() bool
	switch how {
	case 0:
		x, y := int8(u), int8(0)
		v, p, same = x, &y, func() bool { return x == y }
	case 1:
		x, y := uint8(u), uint8(0)
		v, p, same = x, &y, func() bool { return x == y }
	case 2:
		x, y := int16(u), int16(0)
		v, p, same = x, &y, func() bool { return x == y }
	case 3:
		x, y := uint16(u), uint16(0)
		v, p, same = x, &y, func() bool { return x == y }
	case 4:
		x, y := int32(u), int32(0)
		v, p, same = x, &y, func() bool { return x == y }
	case 5:
		x, y := uint32(u), uint32(0)
		v, p, same = x, &y, func() bool { return x == y }
	case 6:
		x, y := int64(u), int64(0)
		v, p, same = x, &y, func() bool { return x == y }
	case 7:
		x, y := u, uint64(0)
		v, p, same = x, &y, func() bool { return x == y }
	case 8:
		y := float32(0)
		v, p, same = f4, &y, func() bool { return f4 == y }
	case 9:
		y := float64(0)
		v, p, same = f8, &y, func() bool { return f8 == y }
	case 10:
		y := "zz"
		v, p, same = s, &y, func() bool { return s == y }
	case 11:
		y := []byte{9}
		v, p, same = bs, &y, func() bool { return vfEqBytes(bs, y) }
	case 12:
		x, y := tName(u), tName(0)
		v, p, same = x, &y, func() bool { return x == y }
	case 13:
		y := tBytes{9}
		v, p, same = tBytes(bs), &y, func() bool { return vfEqBytes(bs, y) }
	}
	b := vhWrite(v)
	vfAssert(vfEqBytes(b, ref.b), "a scalar is a tuple of one field with its length")
	vhRead(b, p)
	vfAssert(same(), "what was written is read back")
	l := vhWrite([]interface{}{v, v})
	ref2 := &rb{}
	ref2.u32(2)
	ref2.b = append(append(ref2.b, ref.b[4:]...), ref.b[4:]...)
	vfAssert(vfEqBytes(l, ref2.b), "a list is a tuple with a field for every element")
	vfReach("end")
}

// vf: seq
func VF_C21_all() {
	v := tAll{vfI8("a"), vfU8("b"), vfI16("c"), vfU16("d"), vfI32("e"), vfU32("f"), vfI64("g"), vfU64("h"), vhF32("i"), vhF64("j"), vhStr("k", 3), vhBytes("l", 3), [3]uint8{vfU8("m0"), vfU8("m1"), vfU8("m2")}}
	ref := &rb{}
	ref.u32(13)
	ref.f8(uint8(v.A))
	ref.f8(v.B)
	ref.f16(uint16(v.C))
	ref.f16(v.D)
	ref.f32(uint32(v.E))
	ref.f32(v.F)
	ref.f64(uint64(v.G))
	ref.f64(v.H)
	ref.fb(marshal.Write(v.I))
	ref.fb(marshal.Write(v.J))
	ref.fs(v.K)
	ref.fb(v.L)
	ref.fb(v.M[:])
	var b []byte
	if vfChoose("ptr", 2) == 1 {
		b = vhWrite(&v)
	} else {
		b = vhWrite(v)
	}
	vfAssert(vfEqBytes(b, ref.b), "a structure is a tuple with a field for every field")
	var d tAll
	vhRead(b, &d)
	vfAssert(d.A == v.A && d.B == v.B && d.C == v.C && d.D == v.D && d.E == v.E && d.F == v.F && d.G == v.G && d.H == v.H, "integers are read back")
	vfAssert(d.I == v.I && d.J == v.J && d.K == v.K && vfEqBytes(d.L, v.L) && d.M == v.M, "the other fields are read back")
	vfReach("end")
}

func tIns(name string) tIn { return tIn{vfU16(name + ".x"), vhBytes(name+".y", 2)} }
func (r *rb) in(v tIn) {
	r.u16(v.X)
	r.u32(uint32(len(v.Y)))
	r.b = append(r.b, v.Y...)
}
func eqIn(a, b tIn) bool { return a.X == b.X && vfEqBytes(a.Y, b.Y) }

// vf: seq
func VF_C21_nested() {
	var v tNest
	for i, n := 0, vfChoose("na", 3); i < n; i++ {
		v.A = append(v.A, vfU32("a"))
	}
	v.B = [2]uint16{vfU16("b0"), vfU16("b1")}
	v.C = tIns("c")
	for i, n := 0, vfChoose("nd", 3); i < n; i++ {
		v.D = append(v.D, vhStr("d", 1))
	}
	if vfChoose("e", 2) == 1 {
		x := vfU32("ex")
		v.E = &x
	}
	if vfChoose("f", 2) == 1 {
		x := tIn{vfU16("fx"), vfBytesN("fy", 1)}
		v.F = &x
	}
	if vfChoose("g", 2) == 1 {
		v.G = []tIn{{vfU16("gx"), vfBytesN("gy", 1)}, {vfU16("gx2"), nil}}
	}
	v.H = [2]tIn{{vfU16("h"), nil}, {vfU16("h2"), vfBytesN("hy", 1)}}
	v.I = tName(vfU16("i"))
	ref := &rb{}
	ref.u32(9)
	ref.ber(len(v.A) * 4)
	for _, x := range v.A {
		ref.u32(x)
	}
	ref.ber(4)
	ref.u16(v.B[0])
	ref.u16(v.B[1])
	f := func(g func(*rb)) {
		x := &rb{}
		g(x)
		ref.fb(x.b)
	}
	f(func(x *rb) { x.in(v.C) })
	f(func(x *rb) {
		for _, s := range v.D {
			x.u32(uint32(len(s)))
			x.b = append(x.b, s...)
		}
	})
	f(func(x *rb) {
		if v.E != nil {
			x.u32(*v.E)
		}
	})
	f(func(x *rb) {
		if v.F != nil {
			x.in(*v.F)
		}
	})
	f(func(x *rb) {
		for _, s := range v.G {
			x.in(s)
		}
	})
	f(func(x *rb) { x.in(v.H[0]); x.in(v.H[1]) })
	ref.f16(uint16(v.I))
	b := vhWrite(&v)
	vfAssert(vfEqBytes(b, ref.b), "every field carries its length")
	var d tNest
	vhRead(b, &d)
	vfAssert(len(d.A) == len(v.A) && len(d.D) == len(v.D) && len(d.G) == len(v.G), "nested slices keep their length")
	for i := range v.A {
		vfAssert(d.A[i] == v.A[i], "nested slice")
	}
	for i := range v.D {
		vfAssert(d.D[i] == v.D[i], "nested strings")
	}
	for i := range v.G {
		vfAssert(eqIn(d.G[i], v.G[i]), "nested structures")
	}
	vfAssert(d.B == v.B && eqIn(d.C, v.C) && d.I == v.I && eqIn(d.H[0], v.H[0]) && eqIn(d.H[1], v.H[1]), "nested array and structure")
	vfAssert((d.E == nil) == (v.E == nil) && (v.E == nil || *d.E == *v.E), "pointer")
	vfAssert((d.F == nil) == (v.F == nil) && (v.F == nil || eqIn(*d.F, *v.F)), "pointer to a structure")
	vfReach("end")
}

// vf: seq
func VF_C21_tail() {
	n := vfChoose("n", 4)
	ref := &rb{}
	switch vfChoose("type", 5) {
	case 0:
		v := tTail{A: vfU32("a")}
		ref.u32(uint32(1 + n))
		ref.f32(v.A)
		for i := 0; i < n; i++ {
			v.T = append(v.T, vfU32("t"))
			ref.f32(v.T[i])
		}
		b := vhWrite(v)
		vfAssert(vfEqBytes(b, ref.b), "a tail is written field by field")
		d := tTail{T: make([]uint32, vfChoose("old", 2)*2)}
		vhRead(b, &d)
		vfAssert(d.A == v.A && len(d.T) == n, "the tail is read back")
		for i := range v.T {
			vfAssert(d.T[i] == v.T[i], "the tail is read back")
		}
	case 1:
		v := tTailS{A: vhStr("a", 2), b: 7, C: vfU8("c")}
		ref.u32(uint32(2 + n))
		ref.fs(v.A)
		ref.f8(v.C)
		for i := 0; i < n; i++ {
			v.T = append(v.T, vhStr("t", 1))
			ref.fs(v.T[i])
		}
		b := vhWrite(&v)
		vfAssert(vfEqBytes(b, ref.b), "a tail is written field by field")
		var d tTailS
		vhRead(b, &d)
		vfAssert(d.A == v.A && d.C == v.C && len(d.T) == n, "the tail is read back")
		for i := range v.T {
			vfAssert(d.T[i] == v.T[i], "the tail is read back")
		}
	case 2:
		v := tTailB{}
		ref.u32(uint32(n))
		for i := 0; i < n; i++ {
			v.T = append(v.T, vhBytes("t", 1))
			ref.fb(v.T[i])
		}
		b := vhWrite(&v)
		vfAssert(vfEqBytes(b, ref.b), "a tail is written field by field")
		var d tTailB
		vhRead(b, &d)
		vfAssert(len(d.T) == n, "the tail is read back")
		for i := range v.T {
			vfAssert(vfEqBytes(d.T[i], v.T[i]), "the tail is read back")
		}
	case 3:
		v := tTailIn{Z: 3, A: vfU16("a")}
		ref.u32(uint32(1 + n))
		ref.f16(v.A)
		for i := 0; i < n; i++ {
			v.T = append(v.T, tIn{vfU16("x"), vfBytesN("y", i)})
			x := &rb{}
			x.in(v.T[i])
			ref.fb(x.b)
		}
		b := vhWrite(&v)
		vfAssert(vfEqBytes(b, ref.b), "a tail is written field by field")
		var d tTailIn
		vhRead(b, &d)
		vfAssert(d.A == v.A && len(d.T) == n, "the tail is read back")
		for i := range v.T {
			vfAssert(eqIn(d.T[i], v.T[i]), "the tail is read back")
		}
	case 4:
		v := tTailP{A: vfU8("a")}
		ref.u32(uint32(1 + n))
		ref.f8(v.A)
		for i := 0; i < n; i++ {
			x := vfU16("t")
			v.T = append(v.T, &x)
			ref.f16(x)
		}
		b := vhWrite(&v)
		vfAssert(vfEqBytes(b, ref.b), "a tail is written field by field")
		var d tTailP
		vhRead(b, &d)
		vfAssert(d.A == v.A && len(d.T) == n, "the tail is read back")
		for i := range v.T {
			vfAssert(*d.T[i] == *v.T[i], "the tail is read back")
		}
	}
	vfReach("end")
}

// vf: seq
func VF_C21_tailsplit() {
	n := vfChoose("n", 3)
	ref := &rb{}
	switch vfChoose("type", 3) {
	case 0:
		v := tSplit{A: vfU32("a")}
		ref.u32(uint32(1 + 2*n))
		ref.f32(v.A)
		for i := 0; i < n; i++ {
			v.T = append(v.T, tPair{5, vfU16("b"), vhStr("c", 2)})
			ref.f16(v.T[i].B)
			ref.fs(v.T[i].C)
		}
		b := vhWrite(&v)
		vfAssert(vfEqBytes(b, ref.b), "the fields of the groups follow each other")
		var d tSplit
		vhRead(b, &d)
		vfAssert(d.A == v.A && len(d.T) == n, "the groups are read back")
		for i := range v.T {
			vfAssert(d.T[i].B == v.T[i].B && d.T[i].C == v.T[i].C, "the groups are read back")
		}
	case 1:
		v := tSplit1{B: vhStr("b", 1)}
		ref.u32(uint32(1 + n))
		ref.fs(v.B)
		for i := 0; i < n; i++ {
			v.T = append(v.T, tOne{vfU8("a")})
			ref.f8(v.T[i].A)
		}
		b := vhWrite(v)
		vfAssert(vfEqBytes(b, ref.b), "the fields of the groups follow each other")
		var d tSplit1
		vhRead(b, &d)
		vfAssert(d.B == v.B && len(d.T) == n, "the groups are read back")
		for i := range v.T {
			vfAssert(d.T[i].A == v.T[i].A, "the groups are read back")
		}
	case 2:
		v := tSplit3{}
		ref.u32(uint32(3 * n))
		for i := 0; i < n; i++ {
			v.T = append(v.T, tTri{vfU8("a"), nil, vhStr("c", 1)})
			for k := 0; k < i; k++ {
				v.T[i].B = append(v.T[i].B, vfU16("b"))
			}
			ref.f8(v.T[i].A)
			ref.ber(2 * i)
			for _, x := range v.T[i].B {
				ref.u16(x)
			}
			ref.fs(v.T[i].C)
		}
		b := vhWrite(&v)
		vfAssert(vfEqBytes(b, ref.b), "the fields of the groups follow each other")
		var d tSplit3
		vhRead(b, &d)
		vfAssert(len(d.T) == n, "the groups are read back")
		for i := range v.T {
			vfAssert(d.T[i].A == v.T[i].A && d.T[i].C == v.T[i].C && len(d.T[i].B) == i, "the groups are read back")
			for k := range d.T[i].B {
				vfAssert(d.T[i].B[k] == v.T[i].B[k], "the groups are read back")
			}
		}
	}
	vfReach("end")
}

// lists of scalars and strings, arrays and slices at the top
// vf: seq
func VF_C21_lists() {
	n := vfChoose("n", 4)
	ref := &rb{}
	switch vfChoose("type", 7) {
	case 0:
		var v, d []int32
		ref.u32(uint32(n))
		for i := 0; i < n; i++ {
			v = append(v, vfI32("v"))
			ref.f32(uint32(v[i]))
		}
		b := vhWrite(v)
		vfAssert(vfEqBytes(b, ref.b), "a slice is a tuple with a field for every element")
		vhRead(b, &d)
		vfAssert(len(d) == n, "the elements are read back")
		for i := range v {
			vfAssert(d[i] == v[i], "the elements are read back")
		}
	case 1:
		var v, d []string
		ref.u32(uint32(n))
		for i := 0; i < n; i++ {
			v = append(v, vhStr("v", 1))
			ref.fs(v[i])
		}
		b := vhWrite(&v)
		vfAssert(vfEqBytes(b, ref.b), "a slice is a tuple with a field for every element")
		vhRead(b, &d)
		vfAssert(len(d) == n, "the elements are read back")
		for i := range v {
			vfAssert(d[i] == v[i], "the elements are read back")
		}
	case 2:
		v := [2]uint64{vfU64("v0"), vfU64("v1")}
		ref.u32(2)
		ref.f64(v[0])
		ref.f64(v[1])
		b := vhWrite(v)
		vfAssert(vfEqBytes(b, ref.b), "an array is a tuple with a field for every element")
		var d [2]uint64
		vhRead(b, &d)
		vfAssert(d == v, "the elements are read back")
		e := make([]uint64, 2)
		vhRead(b, e)
		vfAssert(e[0] == v[0] && e[1] == v[1], "the elements are read back into a slice")
		var f1, f2 uint64
		vhRead(b, []interface{}{&f1, &f2})
		vfAssert(f1 == v[0] && f2 == v[1], "the elements are read back into a list of destinations")
	case 3:
		v := [3]uint8{vfU8("v0"), vfU8("v1"), vfU8("v2")}
		ref.u32(1)
		ref.fb(v[:])
		b := vhWrite(&v)
		vfAssert(vfEqBytes(b, ref.b), "an array of bytes is one field")
		var d [3]uint8
		vhRead(b, &d)
		vfAssert(d == v, "the bytes are read back")
		e := make([]byte, 3)
		vhRead(b, e)
		vfAssert(vfEqBytes(e, v[:]), "the bytes are read back")
	case 4:
		v := []tIn{tIns("v0"), tIns("v1")}
		ref.u32(2)
		for i := range v {
			x := &rb{}
			x.in(v[i])
			ref.fb(x.b)
		}
		b := vhWrite(v)
		vfAssert(vfEqBytes(b, ref.b), "a slice is a tuple with a field for every element")
		var d []tIn
		vhRead(b, &d)
		vfAssert(len(d) == 2 && eqIn(d[0], v[0]) && eqIn(d[1], v[1]), "the elements are read back")
	case 5:
		v := [][]uint16{{vfU16("v0"), vfU16("v1")}, nil, {vfU16("v2")}}
		ref.u32(3)
		ref.ber(4)
		ref.u16(v[0][0])
		ref.u16(v[0][1])
		ref.ber(0)
		ref.f16(v[2][0])
		b := vhWrite(v)
		vfAssert(vfEqBytes(b, ref.b), "a slice is a tuple with a field for every element")
		var d [][]uint16
		vhRead(b, &d)
		vfAssert(len(d) == 3 && len(d[0]) == 2 && len(d[1]) == 0 && len(d[2]) == 1, "the elements are read back")
		vfAssert(d[0][0] == v[0][0] && d[0][1] == v[0][1] && d[2][0] == v[2][0], "the elements are read back")
	case 6:
		n := []int{127, 128, 129, 16383, 16384}[vfChoose("big", 5)]
		v := make([]byte, n)
		v[0], v[n-1] = vfU8("first"), vfU8("last")
		ref.u32(1)
		ref.fb(v)
		b := vhWrite(string(v))
		vfAssert(vfEqBytes(b, ref.b), "a long string has a longer length")
		var d string
		vhRead(b, &d)
		vfAssert(vfEqBytes([]byte(d), v), "a long string is read back")
		l := vhWrite([]interface{}{v, uint8(7)})
		ref2 := &rb{}
		ref2.u32(2)
		ref2.fb(v)
		ref2.f8(7)
		vfAssert(vfEqBytes(l, ref2.b), "a field after a long one")
	}
	vfReach("end")
}

// optional parts: a tuple shorter or longer than the destination
// vf: seq
func VF_C21_optional() {
	n := vfChoose("n", 6)
	ref := &rb{}
	ref.u32(uint32(n))
	var x [6]uint16
	for i := 0; i < n; i++ {
		x[i] = vfU16("x")
		ref.f16(x[i])
	}
	type t3 struct{ A, B, C uint16 }
	var d t3
	r := &marshal.Reader{Body: ref.b}
	vfAssert(ReadRawTuple(r, &d) == nil, "missing and extra fields are no error")
	vfAssert(d.A == x[0] && d.B == x[1] && d.C == x[2], "the fields which are there are read, others stay zero")
	type tt struct {
		A, B uint16
		T    []uint16 `sbox:"tail"`
	}
	var e tt
	r = &marshal.Reader{Body: ref.b}
	vfAssert(ReadRawTuple(r, &e) == nil, "a missing tail is no error")
	vfAssert(e.A == x[0] && e.B == x[1], "the fields before the tail")
	k := n - 2
	if k < 0 {
		k = 0
	}
	vfAssert(len(e.T) == k, "the tail takes the rest")
	for i := range e.T {
		vfAssert(e.T[i] == x[i+2], "the tail takes the rest")
	}
	vfReach("end")
}
