package marshal

// C27: encoding and decoding from several goroutines

type vp27in struct {
	A uint16
	S []byte `iproto:"size(i8)"`
}

type vp27 struct {
	X uint32
	I []vp27in `iproto:"cnt(i8)"`
}

func vp27inRef(v vp27in) []byte {
	r := &rb{}
	r.u16(v.A)
	r.u8(uint8(len(v.S)))
	r.bytes(v.S)
	return r.b
}

func vp27outRef(v vp27) []byte {
	r := &rb{}
	r.u32(v.X)
	r.u8(uint8(len(v.I)))
	for _, i := range v.I {
		r.bytes(vp27inRef(i))
	}
	return r.b
}

func vp27eq(a, b vp27in) bool { return vfAnd(a.A == b.A, vfEqBytes(a.S, b.S)) }

// vp27task encodes and decodes a value of a kind, and tells what went wrong.
func vp27task(kind int, a uint16, x uint32, s []byte) (enc, dec, bad bool) {
	in := vp27in{a, s}
	switch kind {
	case 0:
		b := Write(in)
		enc = vfEqBytes(b, vp27inRef(in))
		var o vp27in
		err := Read(b, &o)
		dec = vfAnd(err == nil, vp27eq(o, in))
		bad = Read(b[:len(b)-1], &o) != nil
	case 1:
		v := vp27{x, []vp27in{in, in}}
		b := Write(v)
		enc = vfEqBytes(b, vp27outRef(v))
		var o vp27
		err := Read(b, &o)
		dec = vfAnd(err == nil, o.X == x)
		if len(o.I) != 2 {
			return enc, false, true
		}
		dec = vfAnd(dec, vfAnd(vp27eq(o.I[0], in), vp27eq(o.I[1], in)))
		bad = Read(b[:len(b)-1], &o) != nil
	case 2:
		b := WriteTail(s)
		enc = vfEqBytes(b, s)
		var o []byte
		err := ReadTail(b, &o)
		dec = vfAnd(err == nil, vfEqBytes(o, s))
		var y [3]uint16
		bad = ReadTail(b, &y) != nil
	case 3:
		w := &Writer{}
		w.Uint32(x)
		w.Write(a)
		b := w.Written()
		r := &Reader{Body: b}
		var p uint32
		var q uint16
		err := r.Read(&p)
		_ = err
		q = r.Uint16()
		enc = len(b) == 6
		dec = vfAnd(p == x, vfAnd(q == a, r.Err == nil))
		r.Uint8()
		bad = r.Err != nil
	}
	return
}

func vp27run(n int, kinds []int) {
	type res struct{ enc, dec, bad bool }
	out := make([]chan res, n)
	as, xs, ss := make([]uint16, n), make([]uint32, n), make([][]byte, n)
	for i := 0; i < n; i++ {
		as[i], xs[i], ss[i] = vfU16("a"), vfU32("x"), vfBytesN("s", 1+i)
		out[i] = make(chan res, 1)
	}
	for i := 0; i < n; i++ {
		i := i
		go func() {
			var r res
			r.enc, r.dec, r.bad = vp27task(kinds[i], as[i], xs[i], ss[i])
			out[i] <- r
		}()
	}
	for i := 0; i < n; i++ {
		r := <-out[i]
		vfAssert(r.enc, "a value is encoded as if alone")
		vfAssert(r.dec, "a value is decoded as if alone")
		vfAssert(r.bad, "a truncated value is an error")
	}
	vfReach("end")
}

// types used for the first time
// vf: preempt=1 tpreempt=2 time=200
func VF_C27_marshal_first() {
	k := []int{vfChoose("k0", 3), vfChoose("k1", 3)}
	vfAssume(k[0] >= k[1])
	vp27run(2, k)
}

// types which have been used
// vf: preempt=2 tpreempt=3 time=200
func VF_C27_marshal_known() {
	k := []int{vfChoose("k0", 4), vfChoose("k1", 4)}
	vfAssume(k[0] >= k[1])
	for _, x := range k {
		vp27task(x, 1, 2, []byte{3})
	}
	vp27run(2, k)
}

// three goroutines, types which contain each other
// vf: preempt=1 tpreempt=2 time=200
func VF_C27_marshal_three() {
	vp27run(3, []int{0, 1, []int{1, 2}[vfChoose("k", 2)]})
}
