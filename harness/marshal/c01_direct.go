package marshal

import "reflect"

// values of every kind, written and read by each of the ways to do so
// vf: seq
func VF_C01_direct() {
	d := vDirectGen()
	pfx := vfChoose("prefix", 5)
	ws := []func(*Writer, int){(*Writer).IntUint8, (*Writer).IntUint16, (*Writer).IntUint32, (*Writer).IntUint64, (*Writer).Intvar}[pfx]
	rs := []func(*Reader) int{(*Reader).IntUint8, (*Reader).IntUint16, (*Reader).IntUint32, (*Reader).IntUint64, (*Reader).Intvar}[pfx]
	mode := vfChoose("mode", 8)
	if mode >= 4 && !d.size || mode < 4 && pfx > 0 {
		return
	}
	w := &Writer{}
	w.Uint8(7)
	val := d.val
	switch mode {
	case 0:
		w.Write(val)
	case 1, 2:
		w.WriteTail(val)
	case 3:
		w.WriteValue(reflect.ValueOf(val))
	case 4, 6:
		w.WriteWithSize(val, ws)
	case 5, 7:
		w.WriteValueWithSize(reflect.ValueOf(val), ws)
	}
	r := Reader{Body: w.Written()}
	r.Uint8()
	var err error
	switch mode {
	case 0:
		err = r.Read(d.dst)
	case 1:
		if d.fix != nil {
			err = r.ReadTail(d.fix)
		} else {
			err = r.ReadTail(d.dst)
		}
	case 2:
		if d.fix == nil {
			return
		}
		err = r.Read(d.fix)
	case 3:
		err = r.ReadValueAuto(reflect.ValueOf(d.dst).Elem())
	case 4, 5:
		err = r.ReadWithSize(d.dst, rs)
	case 6:
		err = r.ReadValueWithSize(reflect.ValueOf(d.dst).Elem(), rs)
	case 7:
		if d.fix == nil {
			return
		}
		err = r.ReadWithSize(d.fix, rs)
	}
	vfAssert(err == nil && r.Err == nil, "decoding what was encoded reports no error")
	vfAssert(len(r.Body) == 0, "decoding consumes exactly the encoded bytes")
	vfAssert(r.Done() && r.Error() == nil, "decoding consumes exactly the encoded bytes")
	if mode != 2 && mode != 7 && (mode != 1 || d.fix == nil) {
		vfAssert(d.same(), "the decoded value equals the encoded one")
	} else {
		v := &Writer{}
		v.WriteTail(vDirectBack(d.fix))
		vfAssert(vfEqBytes(v.Written(), d.body), "the decoded value equals the encoded one")
	}
	vfReach("end")
}

// vDirectBack is what was read, as something which can be written
func vDirectBack(i interface{}) interface{} {
	switch o := i.(type) {
	case []IReader:
		var w []IWriter
		for _, x := range o {
			w = append(w, x.(IWriter))
		}
		return w
	case []IShortReader:
		var w []IShortWriter
		for _, x := range o {
			w = append(w, x.(IShortWriter))
		}
		return w
	}
	return i
}

// strings and slices behind pointers and interfaces, with a size or a count
// vf: seq
func VF_C01_behind() {
	type t struct {
		P *string     `iproto:"cnt(ber)"`
		Q *string     `iproto:"size(i8)"`
		R *[]uint16   `iproto:"cnt(i16)"`
		I interface{} `iproto:"cnt(i8)"`
		J interface{} `iproto:"size(i32)"`
		K uint8
	}
	var v, o t
	var u, x, z string
	var y []uint16
	k := vfChoose("k", 4)
	if k > 0 {
		p, q := vfStringN("p", k), vfStringN("q", 4-k)
		l := vhSl16("l", k)
		v.P, v.Q, v.R = &p, &q, &l
		u = vfStringN("u", k)
	}
	v.K = vfU8("k")
	o.P, o.I, o.J = &z, &x, &y
	r := &rb{}
	str := func(s *string) {
		if s == nil {
			r.u8(0)
			return
		}
		r.u8(uint8(len(*s)))
		r.str(*s)
	}
	str(v.P)
	str(v.Q)
	r.u16(uint16(k))
	if k > 0 {
		for _, x := range *v.R {
			r.u16(x)
		}
	}
	slices := vfBool("slices")
	if slices {
		v.I, v.J = vhSl16("i", k), u
		o.I, o.J = &y, &x
		r.u8(uint8(k))
		for _, x := range v.I.([]uint16) {
			r.u16(x)
		}
		r.u32(uint32(k))
		r.str(u)
	} else {
		v.I, v.J = u, vhSl16("i", k)
		str(&u)
		r.u32(uint32(2 * k))
		for _, x := range v.J.([]uint16) {
			r.u16(x)
		}
	}
	r.u8(v.K)
	b := Write(&v)
	vfAssert(vfEqBytes(b, r.b), "the encoded bytes follow the wire layout")
	if k > 0 && vfBool("nil") {
		o.P = nil
	}
	vhDec(b, &o, false)
	vfAssert(o.K == v.K, "the decoded value equals the encoded one")
	if k == 0 {
		vfAssert(o.P == nil && o.Q == nil && o.R == nil && o.I == nil && o.J == nil, "the decoded value equals the encoded one")
		vfReach("nil")
		return
	}
	vfAssert(*o.P == *v.P && *o.Q == *v.Q && vhSame16(*o.R, *v.R), "the decoded value equals the encoded one")
	if slices {
		vfAssert(vhSame16(y, v.I.([]uint16)) && x == u, "the decoded value equals the encoded one")
	} else {
		vfAssert(vhSame16(y, v.J.([]uint16)), "the decoded value equals the encoded one")
		vfAssert(*o.I.(*string) == u, "the decoded value equals the encoded one")
	}
	vfReach("end")
}
