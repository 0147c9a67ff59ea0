package marshal

// values given to the encoder directly, each with its contents, the number of its elements (or -1)
// and a destination to be compared with it

const nDirect = 29

type vDirect struct {
	val  interface{}
	body []byte
	cnt  int
	auto int         // one more than the count it brings itself
	dst  interface{} // a pointer
	fix  interface{} // what can be read without a count, or nil
	same func() bool
	size bool // may have a size of the caller's choice
}

func vDirectGen() (d vDirect) {
	f := vfChoose("kind", nDirect)
	r := &rb{}
	d.cnt, d.size = -1, f < 22
	if f < 11 {
		v := vScal{vfI8("a"), vfU16("b"), vfI32("c"), vfU64("d"), vhF32("e"), vhF64("f"), vfU8("g"), vfI16("h"), vfU32("i"), vfI64("j")}
		o := &vScal{}
		s, t := vfStringN("s", vfChoose("k", 3)), new(string)
		d.val = []interface{}{v.A, v.B, v.C, v.D, v.E, v.F, v.G, v.H, v.I, v.J, s}[f]
		d.dst = []interface{}{&o.A, &o.B, &o.C, &o.D, &o.E, &o.F, &o.G, &o.H, &o.I, &o.J, t}[f]
		switch f {
		case 0:
			r.u8(uint8(v.A))
			d.same = func() bool { return v.A == o.A }
		case 1:
			r.u16(v.B)
			d.same = func() bool { return v.B == o.B }
		case 2:
			r.u32(uint32(v.C))
			d.same = func() bool { return v.C == o.C }
		case 3:
			r.u64(v.D)
			d.same = func() bool { return v.D == o.D }
		case 4:
			r.f32(v.E)
			d.same = func() bool { return v.E == o.E }
		case 5:
			r.f64(v.F)
			d.same = func() bool { return v.F == o.F }
		case 6:
			r.u8(v.G)
			d.same = func() bool { return v.G == o.G }
		case 7:
			r.u16(uint16(v.H))
			d.same = func() bool { return v.H == o.H }
		case 8:
			r.u32(v.I)
			d.same = func() bool { return v.I == o.I }
		case 9:
			r.u64(uint64(v.J))
			d.same = func() bool { return v.J == o.J }
		case 10:
			r.str(s)
			d.cnt = len(s)
			d.same = func() bool { return s == *t }
		}
		d.body = r.b
		return
	}
	k := vfChoose("k", 4)
	if f < 21 {
		f -= 11
		s, q := vhKinds(k), &shKinds{}
		v, o := &s.v, &q.v
		d.val = []interface{}{v.A, v.B, v.C, v.D, v.E, v.F, v.G, v.H, v.I, v.J}[f]
		d.dst = []interface{}{&o.A, &o.B, &o.C, &o.D, &o.E, &o.F, &o.G, &o.H, &o.I, &o.J}[f]
		w := vKinds{make([]int8, k), make([]uint8, k), make([]int16, k), make([]uint16, k), make([]int32, k), make([]uint32, k), make([]int64, k), make([]uint64, k), make([]float32, k), make([]float64, k)}
		if vfBool("fixed") {
			*o = w
			d.fix = []interface{}{w.A, w.B, w.C, w.D, w.E, w.F, w.G, w.H, w.I, w.J}[f]
		}
		v.refElems(r, f)
		d.body, d.cnt = r.b, k
		d.same = func() bool { return v.sameField(o, f) }
		return
	}
	switch f {
	case 21:
		v, o := g1("x", k), &vIn1{}
		v.ref(r)
		d.val, d.dst, d.body = v, o, r.b
		d.same = func() bool { return same1(&v, o) }
		return
	case 22:
		v, o := &vIn1{}, &vIn1{}
		*v = g1("x", k)
		v.ref(r)
		d.val, d.dst, d.body = v, o, r.b
		d.same = func() bool { return same1(v, o) }
		return
	}
	n := vfChoose("n", 3)
	if f < 26 {
		n = 1
	}
	var a, b []*vBuf
	for i := 0; i < n; i++ {
		s := vfBytesN("s", (k+i)%3)
		for _, x := range s {
			r.u8(^x)
		}
		a = append(a, &vBuf{s})
		b = append(b, &vBuf{make([]byte, len(s))})
	}
	d.body = r.b
	d.same = func() bool {
		for i := range a {
			if !vfEqBytes(a[i].b, b[i].b) {
				return false
			}
		}
		return true
	}
	if n == 1 && f < 26 {
		d.auto = len(d.body) + 1 // has a count of its own
	}
	switch f {
	case 23:
		d.val, d.dst = vLV{a[0]}, &vLV{b[0]}
	case 24:
		d.val, d.dst = vSV{a[0]}, &vSV{b[0]}
	case 25:
		x := &vSP{*b[0]}
		d.val, d.dst = &vSP{*a[0]}, x
		d.same = func() bool { return vfEqBytes(a[0].b, x.P.b) }
	case 26:
		v, o := []IWriter{}, []IReader{}
		for i := range a {
			v, o = append(v, vLV{a[i]}), append(o, vLV{b[i]})
		}
		d.val, d.dst, d.fix, d.cnt = v, &o, o, n
	case 27:
		v, o := []IShortWriter{}, []IShortReader{}
		for i := range a {
			v, o = append(v, vSV{a[i]}), append(o, vSV{b[i]})
		}
		d.val, d.dst, d.fix, d.cnt = v, &o, o, n
	case 28:
		v, o := []interface{}{}, []interface{}{}
		for i := range a {
			v, o = append(v, vSV{a[i]}), append(o, vSV{b[i]})
		}
		d.val, d.dst, d.fix, d.cnt = v, &o, o, n
	}
	return
}
