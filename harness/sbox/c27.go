package sbox

import "github.com/funny-falcon/go-iproto/marshal"

// C27: tuples written and read from several goroutines

type vp27in struct {
	A uint16
	S []byte
}

type vp27out struct {
	X uint32
	I vp27in
	T []vp27in `sbox:"tail"`
}

func vp27task(kind int, a uint16, x uint32, s []byte) (enc, dec, bad bool) {
	in := vp27in{a, s}
	ref := &rb{}
	switch kind {
	case 0: // a tuple
		ref.u32(2)
		ref.f16(a)
		ref.fb(s)
		b := vhWrite(in)
		enc = vfEqBytes(b, ref.b)
		var o vp27in
		r := &marshal.Reader{Body: b}
		err := ReadRawTuple(r, &o)
		dec = vfAnd(vfAnd(err == nil, len(r.Body) == 0), vfAnd(o.A == a, vfEqBytes(o.S, s)))
		bad = ReadRawTuple(&marshal.Reader{Body: b[:len(b)-1]}, &o) != nil
	case 1: // a tuple which contains the other, with a tail
		v := vp27out{x, in, []vp27in{in, in}}
		b := vhWrite(v)
		enc = len(b) > 0
		var o vp27out
		r := &marshal.Reader{Body: b}
		err := ReadRawTuple(r, &o)
		if err != nil || len(o.T) != 2 || len(r.Body) != 0 {
			return enc, false, true
		}
		dec = vfAnd(o.X == x, vfAnd(o.I.A == a, vfEqBytes(o.I.S, s)))
		dec = vfAnd(dec, vfAnd(o.T[1].A == a, vfEqBytes(o.T[1].S, s)))
		bad = ReadRawTuple(&marshal.Reader{Body: b[:len(b)-1]}, &o) != nil
	case 2: // results
		b := vhWrite(in)
		res := &rb{}
		res.u32(2)
		for i := 0; i < 2; i++ {
			res.u32(uint32(len(b) - 4))
			res.b = append(res.b, b...)
		}
		var l []vp27in
		n, total, err := ReadMany(res.b, &l)
		enc = n == 2 && total == 2
		if len(l) != 2 {
			return enc, false, true
		}
		var o vp27in
		got, total, err1 := ReadFirst(res.b, &o)
		dec = vfAnd(err == nil && err1 == nil && got && total == 2, vfAnd(vfAnd(l[0].A == a, l[1].A == a), vfAnd(o.A == a, vfEqBytes(o.S, s))))
		_, _, err = ReadMany(res.b[:len(res.b)-1], &l)
		bad = err != nil
	case 3: // a request
		q := SelectReq{Space: x, Index: 1, Offset: 2, Limit: SelectN, Keys: []vp27in{in}}
		ref.u32(x)
		ref.u32(1)
		ref.u32(2)
		ref.u32(1)
		ref.u32(1)
		ref.u32(2)
		ref.f16(a)
		ref.fb(s)
		enc = vfEqBytes(marshal.Write(q), ref.b)
		dec, bad = true, true
	}
	return
}

func vp27run(n int, kinds []int) {
	type res struct{ enc, dec, bad bool }
	out := make([]chan res, n)
	as, xs, ss := make([]uint16, n), make([]uint32, n), make([][]byte, n)
	for i := 0; i < n; i++ {
		as[i], xs[i], ss[i] = vfU16("a"), vfU32("x"), vfBytesN("s", 1+i)
		out[i] = make(chan res, 1)
	}
	for i := 0; i < n; i++ {
		i := i
		go func() {
			var r res
			r.enc, r.dec, r.bad = vp27task(kinds[i], as[i], xs[i], ss[i])
			out[i] <- r
		}()
	}
	for i := 0; i < n; i++ {
		r := <-out[i]
		vfAssert(r.enc, "a value is written as if alone")
		vfAssert(r.dec, "a value is read as if alone")
		vfAssert(r.bad, "a truncated tuple is an error")
	}
	vfReach("end")
}

// types used for the first time
// vf: preempt=1 tpreempt=2 time=150
func VF_C27_sbox_first() {
	k := []int{vfChoose("k0", 4), vfChoose("k1", 4)}
	vfAssume(k[0] >= k[1])
	vp27run(2, k)
}

// types which have been used
// vf: preempt=1 tpreempt=3 time=150
func VF_C27_sbox_known() {
	k := []int{vfChoose("k0", 4), vfChoose("k1", 4)}
	vfAssume(k[0] >= k[1])
	for _, x := range k {
		vp27task(x, 1, 2, []byte{3})
	}
	vp27run(2, k)
}
