package marshal

// types with their own encoding, in each of the four forms
// vf: seq
func VF_C01_forms() {
	form, p := vFormGen()
	b := Write(vForm(form, p))
	var z [4]*vBuf
	for i := range z {
		z[i] = &vBuf{[]byte{1, 2, 3}}
	}
	o := vForm(form, z)
	vhDec(b, o, true)
	q, d := vFormParts(o)
	for i := range p {
		vfAssert(vfEqBytes(p[i].b, q[i]), "the decoded value equals the encoded one")
	}
	vfAssert(len(d) == form&1, "the decoded value equals the encoded one")
	if len(d) == 1 {
		vfAssert(vfEqBytes(p[0].b, d[0]), "the decoded value equals the encoded one")
	}
	vfReach("end")
}

// the same, at the top, behind an interface and in a list of interfaces
// vf: seq
func VF_C01_formtop() {
	s := vfBytesN("s", vfChoose("k", 3))
	a, c := &vBuf{s}, &vBuf{make([]byte, len(s))}
	how := vfChoose("how", 11)
	inv := &rb{}
	for _, x := range s {
		inv.u8(^x)
	}
	var b []byte
	var o interface{}
	got := func() []byte { return c.b }
	switch how {
	case 0:
		b, o = Write(vLV{a}), vLV{c}
	case 1:
		x := &vLP{*c}
		b, o, got = Write(&vLP{*a}), x, func() []byte { return x.P.b }
	case 2:
		b, o = Write(vSV{a}), vSV{c}
	case 3:
		x := &vSP{*c}
		b, o, got = Write(&vSP{*a}), x, func() []byte { return x.P.b }
	case 4:
		b, o = Write([]IWriter{vLV{a}}), &[]IReader{vLV{c}}
		inv.b = append([]byte{1, 0, 0, 0}, inv.b...)
	case 5:
		b, o = Write([]IShortWriter{vSV{a}}), &[]IShortReader{vSV{c}}
		inv.b = append([]byte{1, 0, 0, 0}, inv.b...)
	case 6:
		b, o = Write([]interface{}{vSV{a}}), &[]interface{}{vSV{c}}
		inv.b = append([]byte{1, 0, 0, 0}, inv.b...)
	case 7:
		b, o = Write([]IShortWriter{vSV{a}, vSV{a}}), &[]IShortReader{vSV{&vBuf{make([]byte, len(s))}}, vSV{c}}
		inv.b = append([]byte{2, 0, 0, 0}, append(inv.b, inv.b...)...)
	case 8:
		type t struct {
			I IWriter
			J IShortWriter `iproto:"size(i8)"`
		}
		type u struct {
			I IReader
			J IShortReader `iproto:"size(i8)"`
		}
		b = Write(t{vLV{a}, vSV{a}})
		o = &u{vLV{&vBuf{make([]byte, len(s))}}, vSV{c}}
		inv.b = append(append(append([]byte{}, inv.b...), byte(len(s))), inv.b...)
	case 9:
		type t struct {
			I *vLP `iproto:"size(i8)"`
			J *vSP `iproto:"cnt(i8)"`
		}
		x := &t{}
		if vfBool("set") {
			x.I, x.J = &vLP{}, &vSP{}
		}
		y := &t{&vLP{*a}, &vSP{*a}}
		b, o = Write(y), x
		got = func() []byte {
			if len(s) == 0 && x.J == nil {
				return nil
			}
			vfAssert(x.I != nil && vfEqBytes(x.I.P.b, s), "the decoded value equals the encoded one")
			return x.J.P.b
		}
		inv.b = append(append(append([]byte{byte(len(s))}, inv.b...), byte(len(s))), inv.b...)
	}
	if how == 10 { // nothing in an interface
		type t struct {
			I IWriter      `iproto:"size(i8)"`
			J IShortWriter `iproto:"size(i8)"`
			K uint8
		}
		type u struct {
			I IReader      `iproto:"size(i8)"`
			J IShortReader `iproto:"size(i8)"`
			K uint8
		}
		x := uint8(vfU8("x"))
		b = Write(t{K: x})
		v := &u{I: vLV{c}, J: vSV{c}}
		if vfBool("nil") {
			v = &u{}
		}
		vfAssert(vfEqBytes(b, []byte{0, 0, x}), "the encoded bytes follow the wire layout")
		vhDec(b, v, false)
		vfAssert(v.K == x, "the decoded value equals the encoded one")
		vfReach("nil")
		return
	}
	vfAssert(vfEqBytes(b, inv.b), "the encoded bytes follow the wire layout")
	vhDec(b, o, false)
	vfAssert(vfEqBytes(got(), s), "the decoded value equals the encoded one")
	vfReach("end")
}
