package marshal

import (
	"errors"
	"reflect"
)

// one decoding step; reports whether a zero value was delivered
func vhStep(r *Reader, op int) bool {
	switch op {
	case 0:
		return r.Uint8() == 0
	case 1:
		return r.Int8() == 0
	case 2:
		return r.Uint16() == 0
	case 3:
		return r.Int16() == 0
	case 4:
		return r.Uint32() == 0
	case 5:
		return r.Int32() == 0
	case 6:
		return r.Uint64() == 0
	case 7:
		return r.Int64() == 0
	case 8:
		return r.Float32() == 0
	case 9:
		return r.Float64() == 0
	case 10:
		return r.Uint64var() == 0
	case 11:
		return r.Intvar() == 0
	case 12:
		return len(r.Slice(1)) == 0
	case 13:
		return r.String(2) == ""
	case 14:
		return len(r.Tail()) == 0
	case 15:
		x := [2]uint16{}
		r.Uint16sl(x[:])
		return x[0]|x[1] == 0
	case 16:
		x := [2]uint8{}
		r.Bytes(x[:])
		return x[0]|x[1] == 0
	case 17:
		x := [2]int8{}
		r.Int8sl(x[:])
		return x[0]|x[1] == 0
	case 18:
		x := [1]float64{}
		r.Float64sl(x[:])
		return x[0] == 0
	case 19:
		x := [1]uint64{}
		r.Uint64sl(x[:])
		return x[0] == 0
	case 20:
		var d d11
		r.Read(&d)
		return d.A.I == 0 && d.A.S == "" && d.B == 0
	case 21:
		var d d04
		r.Read(&d)
		return len(d.A) == 0 && d.B == 0
	case 22:
		var d tlU16
		r.ReadTail(&d)
		return d.P == 0 && len(d.T) == 0
	case 23:
		var d uint32
		r.ReadWithSize(&d, (*Reader).IntUint8)
		return d == 0
	case 24:
		var d vIn2
		r.ReadWithSize(&d, (*Reader).Intvar)
		return d.X == 0 && len(d.Y) == 0 && d.Z == 0
	case 25:
		var d []string
		r.Read(&d)
		return len(d) == 0
	case 26:
		var s string
		r.Read(&s)
		return s == ""
	case 27:
		var d vKidTl
		r.ReadTail(&d)
		return d.A.I == 0 && len(d.T) == 0
	case 28:
		var d []uint32
		r.ReadTail(&d)
		return len(d) == 0
	case 29:
		var d vBerTl
		r.ReadTail(&d)
		return d.A == 0 && len(d.T) == 0
	case 30:
		var d d15
		r.ReadValueAuto(reflect.ValueOf(&d).Elem())
		return d.A == nil || (d.A.X == 0 && len(d.A.Y) == 0)
	case 31:
		var d d25
		r.ReadValueFixed(reflect.ValueOf(&d).Elem())
		return d.A == 0 && d.B == 0
	case 32:
		var d d16
		r.ReadValueWithSize(reflect.ValueOf(&d).Elem(), (*Reader).IntUint8)
		return len(d.A) == 0 && d.B == 0
	case 33:
		x := [2]uint32{}
		r.Uint32sl(x[:])
		return x[0]|x[1] == 0
	case 34:
		x := [2]int16{}
		r.Int16sl(x[:])
		return x[0]|x[1] == 0
	case 35:
		x := [2]int32{}
		r.Int32sl(x[:])
		return x[0]|x[1] == 0
	case 36:
		x := [1]int64{}
		r.Int64sl(x[:])
		return x[0] == 0
	case 37:
		x := [1]float32{}
		r.Float32sl(x[:])
		return x[0] == 0
	case 38:
		x := [2]uint8{}
		r.Uint8sl(x[:])
		return x[0]|x[1] == 0
	case 39:
		return r.IntUint8() == 0
	case 40:
		return r.IntUint16() == 0
	case 41:
		return r.IntUint32() == 0
	case 42:
		return r.IntUint64() == 0
	}
	return true
}

const nStep = 43

// any step on a reader that has already failed
// vf: seq
func VF_C04_sticky() {
	e := errors.New("first")
	n := vfConc(vfIntn("n", 0, 9))
	body := vfBytesN("body", n)
	r := Reader{Body: body, Err: e}
	op := vfChoose("op", nStep)
	zero := vhStep(&r, op)
	vfAssert(r.Err == e, "the first error is kept")
	vfAssert(zero, "a failed reader delivers only zero values")
	vfAssert(len(r.Body) == n, "a failed reader consumes nothing more")
	vfReach("end")
}

// a failing step followed by another one
// vf: seq
func VF_C04_sequence() {
	n := vfConc(vfIntn("n", 0, 6))
	body := vfBytesN("body", n)
	r := Reader{Body: body}
	vhStep(&r, vfChoose("op1", nStep))
	if r.Err == nil {
		return
	}
	e := r.Err
	vfAssert(r.Error() == e && !r.Done(), "the error is reported")
	zero := vhStep(&r, vfChoose("op2", 8)*5+2)
	vfAssert(r.Err == e, "the first error is kept")
	vfAssert(zero, "a failed reader delivers only zero values")
	vfReach("end")
}

// reading fields after a failure inside one structure: nothing of the later fields is delivered
type vAfter struct {
	A []uint16 `iproto:"size(i8)"`
	B uint8
	C string  `iproto:"size(i8)"`
	D []uint8 `iproto:"cnt(i8)"`
	E uint16
}

// vf: seq
func VF_C04_fields() {
	nmax := 6
	if vfThorough() {
		nmax = 8
	}
	n := vfConc(vfIntn("n", 0, nmax))
	body := vfBytesN("body", n)
	r := Reader{Body: body}
	var d vAfter
	err := r.Read(&d)
	// reference
	p, ok := 0, true
	take := func(k int) []byte {
		if !ok || n-p < k {
			ok = false
			return nil
		}
		p += k
		return body[p-k : p]
	}
	var a, c, dd []byte
	var b uint8
	var e uint16
	if x := take(1); ok {
		a = take(vfConc(int(x[0])))
		ok = ok && len(a)%2 == 0
	}
	if x := take(1); ok {
		b = x[0]
	}
	bOK := ok
	if x := take(1); ok {
		c = take(vfConc(int(x[0])))
	}
	cOK := ok
	if x := take(1); ok {
		dd = take(vfConc(int(x[0])))
	}
	if x := take(2); ok {
		e = uint16(x[0]) | uint16(x[1])<<8
	}
	vfAssert((err == nil) == ok, "an error is reported exactly when the fields are not all there")
	if ok {
		vfAssert(len(r.Body) == n-p, "exactly the fields are consumed")
		vfAssert(vfEqBytes(d.D, dd) && d.E == e, "fields after sized ones")
	}
	vfAssert(d.B == b || !bOK, "field after a sized one")
	vfAssert(bOK || d.B == 0, "a field after a failed one stays zero")
	vfAssert(cOK || (d.C == "" && len(d.D) == 0 && d.E == 0), "fields after a failed one stay zero")
	vfAssert(!cOK || vfEqBytes([]byte(d.C), c), "sized string")
	vfAssert(!ok || len(d.A)*2 == len(a), "sized slice")
	vfReach("end")
}

// a sized value consumes its size or fails, whatever the destination
// vf: seq
func VF_C04_sized() {
	n := vfConc(vfIntn("n", 0, 11))
	body := vfBytesN("body", n)
	r := Reader{Body: body}
	p := vfChoose("prefix", 3)
	pl, sz := 0, -1
	switch p {
	case 0:
		if n >= 1 {
			pl, sz = 1, int(body[0])
		}
	case 1:
		if n >= 2 {
			pl, sz = 2, int(body[0])|int(body[1])<<8
		}
	case 2:
		vfAssume(n < 10 || body[8] < 0x80) // sizes of up to nine bytes; longer ones overflow
		x := uint64(0)
		for i := 0; i < n && i < 9; i++ {
			x = x<<7 | uint64(body[i]&0x7f)
			if body[i] < 0x80 {
				pl, sz = i+1, int(x)
				break
			}
		}
	}
	rs := []func(*Reader) int{(*Reader).IntUint8, (*Reader).IntUint16, (*Reader).Intvar}[p]
	var a int8
	var b uint16
	var c float32
	var d uint64
	var e vIn1
	var f []uint32
	var g []vIn2
	var h []string
	var k string
	var l []byte
	m := make([]byte, 3)
	var o vStrTl
	var q [2]uint16
	var s vIn3
	var t vC1
	var u vC4
	i := vfChoose("dest", 16)
	dst := []interface{}{&a, &b, &c, &d, &e, &f, &g, &h, &k, &l, m, &o, &q, &s, &t, &u}[i]
	want := []int{1, 2, 4, 8, -1, -1, -1, -1, -1, -1, 3, -1, 4, 11, -1, -1}[i]
	if i == 14 {
		vfAssume(sz <= 9 && sz >= 0 && sz%2 == 0)
	}
	err := r.ReadWithSize(dst, rs)
	vfAssert((err == nil) == (r.Err == nil), "the error is returned")
	if sz < 0 || sz > n-pl {
		vfAssert(err != nil, "a size beyond the input is an error")
		vfReach("toolong")
		return
	}
	if want >= 0 {
		vfAssert((err == nil) == (sz == want), "a size other than that of the value is an error")
	}
	if i == 8 || i == 9 || i == 15 {
		vfAssert(err == nil, "any size fits")
	}
	if i == 5 {
		vfAssert((err == nil) == (sz%4 == 0), "a size that is not a multiple of the element size is an error")
	}
	if err == nil {
		vfAssert(len(r.Body) == n-pl-sz, "a sized value consumes exactly its size")
		vfReach("ok")
	}
	vfReach("end")
}
