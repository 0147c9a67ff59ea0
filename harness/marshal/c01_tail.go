package marshal

func vhTailField(f int, k int, s, d *shKinds, p uint16, q *uint16) ([]byte, func([]byte)) {
	v, o := &s.v, &d.v
	switch f {
	case 0:
		x := tlI8{}
		return Write(tlI8{p, v.A}), func(b []byte) { vhDec(b, &x, true); *q, o.A = x.P, x.T }
	case 1:
		x := tlU8{}
		return Write(&tlU8{p, v.B}), func(b []byte) { vhDec(b, &x, true); *q, o.B = x.P, x.T }
	case 2:
		x := tlI16{}
		return Write(tlI16{p, v.C}), func(b []byte) { vhDec(b, &x, true); *q, o.C = x.P, x.T }
	case 3:
		x := tlU16{}
		return Write(&tlU16{p, v.D}), func(b []byte) { vhDec(b, &x, true); *q, o.D = x.P, x.T }
	case 4:
		x := tlI32{}
		return Write(tlI32{p, v.E}), func(b []byte) { vhDec(b, &x, true); *q, o.E = x.P, x.T }
	case 5:
		x := tlU32{}
		return Write(tlU32{p, v.F}), func(b []byte) { vhDec(b, &x, true); *q, o.F = x.P, x.T }
	case 6:
		x := tlI64{}
		return Write(&tlI64{p, v.G}), func(b []byte) { vhDec(b, &x, true); *q, o.G = x.P, x.T }
	case 7:
		x := tlU64{}
		return Write(tlU64{p, v.H}), func(b []byte) { vhDec(b, &x, true); *q, o.H = x.P, x.T }
	case 8:
		x := tlF32{}
		return Write(tlF32{p, v.I}), func(b []byte) { vhDec(b, &x, true); *q, o.I = x.P, x.T }
	}
	x := tlF64{}
	return Write(tlF64{p, v.J}), func(b []byte) { vhDec(b, &x, true); *q, o.J = x.P, x.T }
}

// tail fields of every element kind
// vf: seq
func VF_C01_tailfields() {
	f, k := vfChoose("kind", 10), vfConc(vfIntn("len", 0, 3))
	s, d := vhKinds(k), &shKinds{}
	p := vfU16("p")
	var q uint16
	b, dec := vhTailField(f, k, s, d, p, &q)
	r := &rb{}
	r.u16(p)
	s.v.refElems(r, f)
	vfAssert(vfEqBytes(b, r.b), "a tail is written without a count")
	dec(b)
	vfAssert(p == q, "field before the tail")
	vfAssert(s.v.sameField(&d.v, f), "the tail is read until the input ends")
	vfReach("end")
}

// vf: seq
func VF_C01_tailshapes() {
	k := vfConc(vfIntn("len", 0, 3))
	a := vfU32("a")
	r := &rb{}
	var b []byte
	switch vfChoose("shape", 10) {
	case 0:
		v := vKidTl{A: g1("x", k)}
		for i := 0; i < k; i++ {
			v.T = append(v.T, g1("t", i))
		}
		b = Write(v)
		v.A.ref(r)
		for i := range v.T {
			v.T[i].ref(r)
		}
		var d vKidTl
		vhDec(b, &d, true)
		vfAssert(same1(&v.A, &d.A), "head")
		vfAssert(len(v.T) == len(d.T), "tail length")
		for i := range v.T {
			vfAssert(same1(&v.T[i], &d.T[i]), "tail element")
		}
	case 1:
		v, d := vStrTl{a, vfStringN("t", k)}, vStrTl{}
		b = Write(&v)
		r.u32(a)
		r.str(v.T)
		vhDec(b, &d, true)
		vfAssert(vfAnd(v.A == d.A, v.T == d.T), "string tail")
	case 2:
		v, d := vBytTl{a, vfBytesN("t", k)}, vBytTl{}
		b = Write(v)
		r.u32(a)
		r.bytes(v.T)
		vhDec(b, &d, true)
		vfAssert(vfAnd(v.A == d.A, vfEqBytes(v.T, d.T)), "named bytes tail")
	case 3:
		v, d := vN8Tl{a, nil}, vN8Tl{}
		r.u32(a)
		for i := 0; i < k; i++ {
			v.T = append(v.T, vNamed8(vfU8("t")))
			r.u8(uint8(v.T[i]))
		}
		b = Write(v)
		vhDec(b, &d, true)
		vfAssert(v.A == d.A && len(v.T) == len(d.T), "tail length")
		for i := range v.T {
			vfAssert(v.T[i] == d.T[i], "tail element")
		}
	case 4:
		v, d := vStrsTl{a, nil}, vStrsTl{}
		r.u32(a)
		for i := 0; i < k; i++ {
			v.T = append(v.T, vfStringN("t", 2-i&1))
			r.u32(uint32(len(v.T[i])))
			r.str(v.T[i])
		}
		b = Write(v)
		vhDec(b, &d, true)
		vfAssert(v.A == d.A && len(v.T) == len(d.T), "tail length")
		for i := range v.T {
			vfAssert(v.T[i] == d.T[i], "tail element")
		}
	case 5:
		v, d := vBerTl{a, nil}, vBerTl{}
		r.u32(a)
		for i := 0; i < k; i++ {
			x := vfU32("t")
			if i > 0 {
				x >>= 20
			}
			v.T = append(v.T, x)
			r.ber(uint64(x))
		}
		b = Write(v)
		vhDec(b, &d, true)
		vfAssert(v.A == d.A && len(v.T) == len(d.T), "tail length")
		for i := range v.T {
			vfAssert(v.T[i] == d.T[i], "tail element")
		}
	case 6:
		v, d := vPtrTl{A: a}, vPtrTl{}
		r.u32(a)
		if k > 0 {
			x := g1("t", k-1)
			v.T = &x
			x.ref(r)
		}
		b = Write(v)
		vhDec(b, &d, true)
		vfAssert(v.A == d.A && (v.T == nil) == (d.T == nil), "pointer tail")
		if v.T != nil {
			vfAssert(same1(v.T, d.T), "pointer tail contents")
		}
	case 7:
		v, d := vStTl{a, vStrTl{vfU32("b"), vfStringN("t", k)}}, vStTl{}
		r.u32(a)
		r.u32(v.T.A)
		r.str(v.T.T)
		b = Write(v)
		vhDec(b, &d, true)
		vfAssert(vfAnd(v.A == d.A, vfAnd(v.T.A == d.T.A, v.T.T == d.T.T)), "structure tail")
	case 8:
		v, d := vSzTl{vStrTl{a, vfStringN("t", k)}, vfU16("b")}, vSzTl{}
		r.u8(uint8(4 + k))
		r.u32(a)
		r.str(v.A.T)
		r.u16(v.B)
		b = Write(v)
		vhDec(b, &d, false)
		vfAssert(vfAnd(v.B == d.B, vfAnd(v.A.A == d.A.A, v.A.T == d.A.T)), "sized structure with a tail")
	case 9:
		v, d := vArrTl{uint8(a), [2]vIn1{g1("x", k), g1("y", 1)}}, vArrTl{}
		r.u8(v.A)
		v.T[0].ref(r)
		v.T[1].ref(r)
		b = Write(v)
		vhDec(b, &d, true)
		vfAssert(v.A == d.A, "array tail head")
		vfAssert(vfAnd(same1(&v.T[0], &d.T[0]), same1(&v.T[1], &d.T[1])), "array tail")
	}
	vfAssert(vfEqBytes(b, r.b), "layout with a tail")
	vfObserveBytes("b", b)
	vfReach("end")
}

// top level slices: counted, tail and fixed reading
// vf: seq
func VF_C01_topslices() {
	f, k := vfChoose("kind", 10), vfConc(vfIntn("len", 0, 3))
	mode := vfChoose("mode", 3)
	s, d := vhKinds(k), &shKinds{}
	v, o := &s.v, &d.v
	vals := []interface{}{v.A, v.B, v.C, v.D, v.E, v.F, v.G, v.H, v.I, v.J}
	r := &rb{}
	if mode == 0 {
		r.u32(uint32(k))
	}
	s.v.refElems(r, f)
	var b []byte
	if mode == 0 {
		b = Write(vals[f])
	} else {
		b = WriteTail(vals[f])
	}
	vfAssert(vfEqBytes(b, r.b), "layout of a top level slice")
	var dst interface{}
	if mode == 2 {
		*o = vKinds{make([]int8, k), make([]uint8, k), make([]int16, k), make([]uint16, k), make([]int32, k), make([]uint32, k), make([]int64, k), make([]uint64, k), make([]float32, k), make([]float64, k)}
		dst = []interface{}{o.A, o.B, o.C, o.D, o.E, o.F, o.G, o.H, o.I, o.J}[f]
	} else {
		dst = []interface{}{&o.A, &o.B, &o.C, &o.D, &o.E, &o.F, &o.G, &o.H, &o.I, &o.J}[f]
	}
	vhDec(b, dst, mode == 1)
	vfAssert(s.v.sameField(&d.v, f), "top level slice contents")
	vfReach("end")
}

// top level scalars and strings
// vf: seq
func VF_C01_topscalars() {
	v := vScal{vfI8("a"), vfU16("b"), vfI32("c"), vfU64("d"), vhF32("e"), vhF64("f"), vfU8("g"), vfI16("h"), vfU32("i"), vfI64("j")}
	d := v
	d = vScal{}
	st, sd := vfStringN("s", vfConc(vfIntn("sn", 0, 3))), ""
	r := &rb{}
	f := vfChoose("kind", 11)
	switch f {
	case 0:
		r.u8(uint8(v.A))
	case 1:
		r.u16(v.B)
	case 2:
		r.u32(uint32(v.C))
	case 3:
		r.u64(v.D)
	case 4:
		r.f32(v.E)
	case 5:
		r.f64(v.F)
	case 6:
		r.u8(v.G)
	case 7:
		r.u16(uint16(v.H))
	case 8:
		r.u32(v.I)
	case 9:
		r.u64(uint64(v.J))
	case 10:
		r.u32(uint32(len(st)))
		r.str(st)
	}
	val := []interface{}{v.A, v.B, v.C, v.D, v.E, v.F, v.G, v.H, v.I, v.J, st}[f]
	dst := []interface{}{&d.A, &d.B, &d.C, &d.D, &d.E, &d.F, &d.G, &d.H, &d.I, &d.J, &sd}[f]
	b := Write(val)
	vfAssert(vfEqBytes(b, r.b), "layout of a top level value")
	vhDec(b, dst, false)
	vfAssert(vfImp(f == 0, v.A == d.A), "int8")
	vfAssert(vfImp(f == 1, v.B == d.B), "uint16")
	vfAssert(vfImp(f == 2, v.C == d.C), "int32")
	vfAssert(vfImp(f == 3, v.D == d.D), "uint64")
	vfAssert(vfImp(f == 4, v.E == d.E), "float32")
	vfAssert(vfImp(f == 5, v.F == d.F), "float64")
	vfAssert(vfImp(f == 6, v.G == d.G), "uint8")
	vfAssert(vfImp(f == 7, v.H == d.H), "int16")
	vfAssert(vfImp(f == 8, v.I == d.I), "uint32")
	vfAssert(vfImp(f == 9, v.J == d.J), "int64")
	vfAssert(vfImp(f == 10, st == sd), "string")
	vfReach("end")
}

// several values in one writer, read back one after another; sizes given by the caller
// vf: seq
func VF_C01_withsize() {
	wss := []func(*Writer, int){(*Writer).IntUint8, (*Writer).IntUint16, (*Writer).IntUint32, (*Writer).IntUint64, (*Writer).Intvar}
	rss := []func(*Reader) int{(*Reader).IntUint8, (*Reader).IntUint16, (*Reader).IntUint32, (*Reader).IntUint64, (*Reader).Intvar}
	p := vfChoose("prefix", 5)
	k := vfConc(vfIntn("len", 0, 3))
	x, s, y := vfI32("x"), vfStringN("s", k), vfU64("y")
	bs, in := vfBytesN("bs", k+1), g2("in", k)
	sl := vhSl16("sl", k)
	f := vhF64("f")
	i8, u8 := vfI8("i8"), vfU8("u8")
	w := &Writer{}
	for _, v := range []interface{}{x, s, y, bs, in, &in, sl, f, i8, u8} {
		w.WriteWithSize(v, wss[p])
	}
	r := &Reader{Body: w.Written()}
	var x1 int32
	var s1 string
	var y1 uint64
	var bs1 []byte
	var in1, in2 vIn2
	var sl1 []uint16
	var f1 float64
	var i81 int8
	var u81 uint8
	for _, v := range []interface{}{&x1, &s1, &y1, &bs1, &in1, &in2, &sl1, &f1, &i81, &u81} {
		err := r.ReadWithSize(v, rss[p])
		vfAssert(err == nil, "reading a sized value reports no error")
	}
	vfAssert(len(r.Body) == 0 && r.Err == nil, "everything is consumed")
	vfAssert(vfAnd(x == x1, vfAnd(s == s1, y == y1)), "sized scalars and strings")
	vfAssert(vfAnd(vfEqBytes(bs, bs1), vfAnd(same2(&in, &in1), same2(&in, &in2))), "sized bytes and structures")
	vfAssert(vhSame16(sl, sl1), "sized slice")
	vfAssert(vfAnd(f == f1, vfAnd(i8 == i81, u8 == u81)), "sized floats and bytes")
	vfReach("end")
}

// a type written by value, by pointer and inside another one must not depend on what was encoded before
type vRec struct {
	V    uint16
	Kids []vRec `iproto:"cnt(i8)"`
}
type vRecSz struct {
	V    uint8
	Kids []vRecSz `iproto:"size(i8)"`
}

// vf: seq
func VF_C01_recursive() {
	if vfBool("sized") {
		v := vRecSz{vfU8("a"), []vRecSz{{vfU8("b"), nil}, {vfU8("c"), []vRecSz{{vfU8("d"), nil}}}}}
		b := Write(v)
		r := &rb{}
		for _, x := range []uint8{v.V, 6, v.Kids[0].V, 0, v.Kids[1].V, 2, v.Kids[1].Kids[0].V, 0} {
			r.u8(x)
		}
		vfAssert(vfEqBytes(b, r.b), "layout of a recursive structure")
		var d vRecSz
		vhDec(b, &d, false)
		vfAssert(len(d.Kids) == 2 && len(d.Kids[0].Kids) == 0 && len(d.Kids[1].Kids) == 1, "recursive shape")
		vfAssert(vfAnd(d.V == v.V, vfAnd(d.Kids[0].V == v.Kids[0].V, vfAnd(d.Kids[1].V == v.Kids[1].V, d.Kids[1].Kids[0].V == v.Kids[1].Kids[0].V))), "recursive contents")
	} else {
		v := vRec{vfU16("a"), []vRec{{vfU16("b"), nil}, {vfU16("c"), []vRec{{vfU16("d"), nil}}}}}
		b := Write(&v)
		var d vRec
		vhDec(b, &d, false)
		vfAssert(len(b) == 12, "layout of a recursive structure")
		vfAssert(len(d.Kids) == 2 && len(d.Kids[0].Kids) == 0 && len(d.Kids[1].Kids) == 1, "recursive shape")
		vfAssert(vfAnd(d.V == v.V, vfAnd(d.Kids[0].V == v.Kids[0].V, vfAnd(d.Kids[1].V == v.Kids[1].V, d.Kids[1].Kids[0].V == v.Kids[1].Kids[0].V))), "recursive contents")
	}
	vfReach("end")
}

// lengths around the boundaries of the prefixes and of the write buffer
type vBig struct {
	A string   `iproto:"size(ber)"`
	B []uint16 `iproto:"size(ber)"`
	C []byte   `iproto:"cnt(ber)"`
	D vIn1     `iproto:"size(ber)"`
	E []vIn1   `iproto:"size(ber)"`
	F uint32
}

// vf: seq
func VF_C01_biglengths() {
	lens := []int{118, 119, 120, 126, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513}
	n := lens[vfChoose("n", len(lens))]
	v := vBig{}
	v.F = vfU32("f")
	r := &rb{}
	r1, r2, r3, r4, r5 := &rb{}, &rb{}, &rb{}, &rb{}, &rb{}
	switch vfChoose("pos", 5) {
	case 0:
		v.A = vfStringN("a", n)
	case 1:
		v.B = vhSl16("b", n)
	case 2:
		v.C = vfBytesN("c", n)
	case 3:
		v.D = g1("d", n)
	case 4:
		v.E = []vIn1{g1("e", 0), g1("e", n-8)}
	}
	r1.str(v.A)
	for _, x := range v.B {
		r2.u16(x)
	}
	r3.bytes(v.C)
	v.D.ref(r4)
	for i := range v.E {
		v.E[i].ref(r5)
	}
	for _, x := range []*rb{r1, r2, r3, r4, r5} {
		r.ber(uint64(len(x.b)))
		r.bytes(x.b)
	}
	r.u32(v.F)
	b := Write(v)
	vfAssert(vfEqBytes(b, r.b), "layout with long fields")
	var d vBig
	vhDec(b, &d, false)
	vfAssert(vfAnd(v.A == d.A, vfAnd(vhSame16(v.B, d.B), vfEqBytes(v.C, d.C))), "long fields")
	vfAssert(same1(&v.D, &d.D) && len(v.E) == len(d.E) && v.F == d.F, "long structures")
	for i := range v.E {
		vfAssert(same1(&v.E[i], &d.E[i]), "long structure in a slice")
	}
	vfReach("end")
}
