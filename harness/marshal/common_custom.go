package marshal

// values with their own encoding: long form on the value, short form on the pointer
type vC1 []uint16

func (v vC1) IWrite(self interface{}, w *Writer) {
	for _, x := range v {
		w.Uint16(x ^ 0x5555)
	}
}
func (v vC1) ISize(self interface{}) int  { return 2 * len(v) }
func (v vC1) ICount(self interface{}) int { return len(v) }
func (v *vC1) IRead(self interface{}, r *Reader) {
	for i := range *v {
		(*v)[i] = r.Uint16() ^ 0x5555
	}
}
func (v *vC1) ISetSize(self interface{}, n int) (bool, error) {
	*v = make(vC1, n/2)
	return true, nil
}
func (v *vC1) ISetCount(self interface{}, n int) error {
	*v = make(vC1, n)
	return nil
}

type vC2 struct{ S []byte }

func (v *vC2) IWrite(w *Writer) {
	for _, x := range v.S {
		w.Uint8(^x)
	}
}
func (v *vC2) ISize() int  { return len(v.S) }
func (v *vC2) ICount() int { return len(v.S) }
func (v *vC2) IRead(r *Reader) {
	for i := range v.S {
		v.S[i] = ^r.Uint8()
	}
}
func (v *vC2) ISetSize(n int) (bool, error) { v.S = make([]byte, n); return true, nil }
func (v *vC2) ISetCount(n int) error        { v.S = make([]byte, n); return nil }

// no size known in advance, reads to the end of what it is given
type vC3 struct{ S []byte }

func (v *vC3) IWrite(self interface{}, w *Writer) { w.Bytes(v.S); w.Uint8(0) }
func (v *vC3) IRead(self interface{}, r *Reader) {
	for {
		c := r.Uint8()
		if c == 0 || r.Err != nil {
			return
		}
		v.S = append(v.S, c)
	}
}

type vC4 struct{ S []byte }

func (v vC4) IWrite(w *Writer)     { w.Bytes(v.S) }
func (v *vC4) IRead(r *Reader)     { r.Err = errFixed }
func (v *vC4) IReadTail(r *Reader) { v.S = r.Tail() }

type vErr string

func (e vErr) Error() string { return string(e) }

var errFixed error = vErr("cannot be read without a size")

type vCust struct {
	A vC1 `iproto:"size(ber)"`
	B vC1 `iproto:"cnt(i8)"`
	C vC1
	D vC2 `iproto:"size(i16)"`
	E vC2 `iproto:"cnt(ber)"`
	F vC2
	G vC3
	H vC3   `iproto:"size(i8)"`
	J []vC1 `iproto:"cnt(i8)"`
	K vC4   `iproto:"size(ber)"`
	L vC4   `iproto:"size(no)"`
}
type shCust struct{ v vCust }

func (s *shCust) gen() {
	v := &s.v
	k := vfConc(vfIntn("len", 0, 2))
	v.A, v.B, v.C = vC1(vhSl16("a", k)), vC1(vhSl16("b", k+1)), vC1(vhSl16("c", 2-k))
	v.D, v.E, v.F = vC2{vfBytesN("d", k)}, vC2{vfBytesN("e", 2-k)}, vC2{vfBytesN("f", k+1)}
	v.G, v.H = vC3{vfBytesN("g", k)}, vC3{vfBytesN("h", 2-k)}
	for _, x := range v.G.S {
		vfAssume(x != 0)
	}
	for _, x := range v.H.S {
		vfAssume(x != 0)
	}
	for i := 0; i < k; i++ {
		v.J = append(v.J, vC1(vhSl16("j", i)))
	}
	v.K, v.L = vC4{vfBytesN("kk", k)}, vC4{vfBytesN("ll", 2-k)}
}
func (v vC1) ref(r *rb) {
	for _, x := range v {
		r.u16(x ^ 0x5555)
	}
}
func (v *vC2) ref(r *rb) {
	for _, x := range v.S {
		r.u8(^x)
	}
}
func (s *shCust) ref(r *rb) {
	v := &s.v
	r.ber(uint64(2 * len(v.A)))
	v.A.ref(r)
	r.u8(uint8(len(v.B)))
	v.B.ref(r)
	r.u32(uint32(len(v.C)))
	v.C.ref(r)
	r.u16(uint16(len(v.D.S)))
	v.D.ref(r)
	r.ber(uint64(len(v.E.S)))
	v.E.ref(r)
	r.u32(uint32(len(v.F.S)))
	v.F.ref(r)
	r.bytes(v.G.S)
	r.u8(0)
	r.u8(uint8(1 + len(v.H.S)))
	r.bytes(v.H.S)
	r.u8(0)
	r.u8(uint8(len(v.J)))
	for _, x := range v.J {
		r.u32(uint32(len(x)))
		x.ref(r)
	}
	r.ber(uint64(len(v.K.S)))
	r.bytes(v.K.S)
	r.bytes(v.L.S)
}
func (s *shCust) val() interface{} { return &s.v }
func (s *shCust) ptr() interface{} { return &s.v }
func (s *shCust) fresh() vShape    { return &shCust{} }
func (s *shCust) same(o vShape) bool {
	a, b := &s.v, &o.(*shCust).v
	if len(a.J) != len(b.J) {
		return false
	}
	x := vfAnd(vhSame16(a.A, b.A), vfAnd(vhSame16(a.B, b.B), vhSame16(a.C, b.C)))
	x = vfAnd(x, vfAnd(vfEqBytes(a.D.S, b.D.S), vfAnd(vfEqBytes(a.E.S, b.E.S), vfEqBytes(a.F.S, b.F.S))))
	x = vfAnd(x, vfAnd(vfEqBytes(a.G.S, b.G.S), vfEqBytes(a.H.S, b.H.S)))
	x = vfAnd(x, vfAnd(vfEqBytes(a.K.S, b.K.S), vfEqBytes(a.L.S, b.L.S)))
	for i := range a.J {
		x = vfAnd(x, vhSame16(a.J[i], b.J[i]))
	}
	return x
}
