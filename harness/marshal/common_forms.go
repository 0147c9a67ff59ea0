package marshal

// the four ways a type can bring its own encoding: long and short form, on the value and on the pointer.
// Values written are complemented, so that the plain encoding of the field differs.

type vBuf struct{ b []byte }

func (p *vBuf) w(w *Writer) {
	for _, x := range p.b {
		w.Uint8(^x)
	}
}
func (p *vBuf) r(r *Reader) {
	for i := range p.b {
		p.b[i] = ^r.Uint8()
	}
}
func (p *vBuf) tail(r *Reader) {
	t := r.Tail()
	p.b = make([]byte, len(t))
	for i := range t {
		p.b[i] = ^t[i]
	}
}
func (p *vBuf) set(n int) { p.b = make([]byte, n) }

type vLV struct{ P *vBuf } // long, value

func (v vLV) IWrite(self interface{}, w *Writer)             { vLVof(self).w(w) }
func (v vLV) ISize(self interface{}) int                     { return len(vLVof(self).b) }
func (v vLV) ICount(self interface{}) int                    { return len(vLVof(self).b) }
func (v vLV) IRead(self interface{}, r *Reader)              { vLVof(self).r(r) }
func (v vLV) IReadTail(self interface{}, r *Reader)          { vLVof(self).tail(r) }
func (v vLV) ISetSize(self interface{}, n int) (bool, error) { vLVof(self).set(n); return n == 0, nil }
func (v vLV) ISetCount(self interface{}, n int) error        { vLVof(self).set(n); return nil }

func vLVof(self interface{}) *vBuf {
	if p, ok := self.(*vLV); ok {
		return p.P
	}
	return self.(vLV).P
}

type vLP struct{ P vBuf } // long, pointer

func (v *vLP) IWrite(self interface{}, w *Writer)    { self.(*vLP).P.w(w) }
func (v *vLP) ISize(self interface{}) int            { return len(self.(*vLP).P.b) }
func (v *vLP) ICount(self interface{}) int           { return len(self.(*vLP).P.b) }
func (v *vLP) IRead(self interface{}, r *Reader)     { self.(*vLP).P.r(r) }
func (v *vLP) IReadTail(self interface{}, r *Reader) { self.(*vLP).P.tail(r) }
func (v *vLP) ISetSize(self interface{}, n int) (bool, error) {
	self.(*vLP).P.set(n)
	return n == 0, nil
}
func (v *vLP) ISetCount(self interface{}, n int) error { self.(*vLP).P.set(n); return nil }

type vSV struct{ P *vBuf } // short, value

func (v vSV) IWrite(w *Writer)             { v.P.w(w) }
func (v vSV) ISize() int                   { return len(v.P.b) }
func (v vSV) ICount() int                  { return len(v.P.b) }
func (v vSV) IRead(r *Reader)              { v.P.r(r) }
func (v vSV) IReadTail(r *Reader)          { v.P.tail(r) }
func (v vSV) ISetSize(n int) (bool, error) { v.P.set(n); return n == 0, nil }
func (v vSV) ISetCount(n int) error        { v.P.set(n); return nil }

type vSP struct{ P vBuf } // short, pointer

func (v *vSP) IWrite(w *Writer)             { v.P.w(w) }
func (v *vSP) ISize() int                   { return len(v.P.b) }
func (v *vSP) ICount() int                  { return len(v.P.b) }
func (v *vSP) IRead(r *Reader)              { v.P.r(r) }
func (v *vSP) IReadTail(r *Reader)          { v.P.tail(r) }
func (v *vSP) ISetSize(n int) (bool, error) { v.P.set(n); return n == 0, nil }
func (v *vSP) ISetCount(n int) error        { v.P.set(n); return nil }

type vfmLV struct {
	A vLV `iproto:"size(i8)"`
	B vLV `iproto:"cnt(i16)"`
	C vLV
	D []vLV `iproto:"cnt(i8)"`
	E vLV   `iproto:"size(no)"`
}
type vfmLP struct {
	A vLP `iproto:"size(i8)"`
	B vLP `iproto:"cnt(i16)"`
	C vLP
	D []vLP `iproto:"cnt(i8)"`
	E vLP   `iproto:"size(no)"`
}
type vfmSV struct {
	A vSV `iproto:"size(i8)"`
	B vSV `iproto:"cnt(i16)"`
	C vSV
	D []vSV `iproto:"cnt(i8)"`
	E vSV   `iproto:"size(no)"`
}
type vfmSP struct {
	A vSP `iproto:"size(i8)"`
	B vSP `iproto:"cnt(i16)"`
	C vSP
	D []vSP `iproto:"cnt(i8)"`
	E vSP   `iproto:"size(no)"`
}

// vForm is a structure of a form, given the contents of A, B, C and E
func vForm(form int, p [4]*vBuf) interface{} {
	switch form {
	case 0:
		return &vfmLV{vLV{p[0]}, vLV{p[1]}, vLV{p[2]}, nil, vLV{p[3]}}
	case 1:
		return &vfmLP{vLP{*p[0]}, vLP{*p[1]}, vLP{*p[2]}, []vLP{{*p[0]}}, vLP{*p[3]}}
	case 2:
		return &vfmSV{vSV{p[0]}, vSV{p[1]}, vSV{p[2]}, nil, vSV{p[3]}}
	default:
		return &vfmSP{vSP{*p[0]}, vSP{*p[1]}, vSP{*p[2]}, []vSP{{*p[0]}}, vSP{*p[3]}}
	}
}

// vFormParts are the contents of the fields
func vFormParts(i interface{}) (p [4][]byte, d [][]byte) {
	switch v := i.(type) {
	case *vfmLV:
		return [4][]byte{v.A.P.b, v.B.P.b, v.C.P.b, v.E.P.b}, nil
	case *vfmLP:
		for _, x := range v.D {
			d = append(d, x.P.b)
		}
		return [4][]byte{v.A.P.b, v.B.P.b, v.C.P.b, v.E.P.b}, d
	case *vfmSV:
		return [4][]byte{v.A.P.b, v.B.P.b, v.C.P.b, v.E.P.b}, nil
	case *vfmSP:
		for _, x := range v.D {
			d = append(d, x.P.b)
		}
		return [4][]byte{v.A.P.b, v.B.P.b, v.C.P.b, v.E.P.b}, d
	}
	return
}

func vFormRef(form int, p [4]*vBuf) []byte {
	r := &rb{}
	inv := func(b []byte) {
		for _, x := range b {
			r.u8(^x)
		}
	}
	r.u8(uint8(len(p[0].b)))
	inv(p[0].b)
	r.u16(uint16(len(p[1].b)))
	inv(p[1].b)
	r.u32(uint32(len(p[2].b)))
	inv(p[2].b)
	if form&1 == 0 {
		r.u8(0)
	} else {
		r.u8(1)
		r.u32(uint32(len(p[0].b)))
		inv(p[0].b)
	}
	inv(p[3].b)
	return r.b
}

func vFormGen() (form int, p [4]*vBuf) {
	form = vfChoose("form", 4)
	k := vfChoose("k", 3)
	for i := range p {
		p[i] = &vBuf{vfBytesN("b", (k+i)%3)}
	}
	return
}
