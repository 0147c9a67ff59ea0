package net

import "io"

func c07op(w *BufWriter, op int, x uint32, ref *[]byte) (err error) {
	switch op {
	case 0:
		err = w.WriteByte(byte(x))
		*ref = append(*ref, byte(x))
	case 1:
		err = w.WriteUint32(x)
		*ref = append(*ref, vhU32(x)...)
	case 2:
		err = w.Write3Uint32(x, x+1, x^7)
		*ref = append(*ref, vhU32(x)...)
		*ref = append(*ref, vhU32(x+1)...)
		*ref = append(*ref, vhU32(x^7)...)
	case 3:
		err = w.Flush()
	default:
		n := []int{0, 1, 5, 11, 1023, 1024, 1025, 4096, 4097, 9000}[op-4]
		b := vhBody("b", n)
		err = w.Write(b)
		*ref = append(*ref, b...)
		for i := range b { // the caller may reuse its slice
			b[i] = 0xEE
		}
	}
	return
}

const c07ops = 14

func c07run(w *BufWriter, rec *vhRec, pre int, steps int) {
	var ref []byte
	if pre > 0 {
		// single bytes: fills the buffer without bypassing it
		k := 0
		for ; k+12 <= pre; k += 12 {
			vfAssert(w.Write3Uint32(1, 2, uint32(k)) == nil, "no error without a failure")
			ref = append(ref, 1, 0, 0, 0, 2, 0, 0, 0)
			ref = append(ref, vhU32(uint32(k))...)
		}
		for ; k < pre; k++ {
			vfAssert(w.WriteByte(byte(k)) == nil, "no error without a failure")
			ref = append(ref, byte(k))
		}
	}
	for i := 0; i < steps; i++ {
		vfAssert(c07op(w, vfChoose("op", c07ops), vfU32("x"), &ref) == nil, "no error without a failure")
	}
	vfAssert(w.Flush() == nil, "no error without a failure")
	vfAssert(vfEqBytes(rec.got, ref), "what is delivered is what was written")
	vfReach("end")
}

// vf: seq
func VF_C07_empty() {
	rec := &vhRec{}
	n := 3
	if vfThorough() {
		n = 4
	}
	c07run(&BufWriter{w: rec}, rec, 0, n)
}

// the buffer is nearly full
// vf: seq
func VF_C07_full() {
	rec := &vhRec{}
	c07run(&BufWriter{w: rec}, rec, 4096-vfChoose("room", 18), 2)
}

// the buffer is a quarter full, where large blocks start to bypass it
// vf: seq
func VF_C07_quarter() {
	rec := &vhRec{}
	c07run(&BufWriter{w: rec}, rec, 1020+vfChoose("fill", 8), 2)
}

// the connection fails at some write: the error comes back and nothing but a prefix was delivered
// vf: seq
func VF_C07_fail() {
	rec := &vhRec{failAt: 1 + vfChoose("failAt", 3), part: []int{0, 1, 13}[vfChoose("part", 3)], once: vfChoose("once", 2) == 1}
	w := &BufWriter{w: rec}
	var ref []byte
	var err error
	for i := 0; i < 3 && err == nil; i++ {
		err = c07op(w, vfChoose("op", c07ops), vfU32("x"), &ref)
		vfAssert((err != nil) == rec.failed, "a failure is returned by the call which met it")
	}
	if err == nil {
		err = w.Flush()
		vfAssert((err != nil) == rec.failed, "a failure is returned by the call which met it")
	}
	vfAssert(err == nil || err == vhErr, "the error of the connection is returned")
	vfAssert(len(rec.got) <= len(ref) && vfEqBytes(rec.got, ref[:len(rec.got)]), "nothing but a prefix is delivered")
	vfAssert(err != nil || len(rec.got) == len(ref), "everything is delivered when there is no error")
	vfReach("end")
}

var _ io.Writer = (*vhRec)(nil)
