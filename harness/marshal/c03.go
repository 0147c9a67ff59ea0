package marshal

import "math"

// dests lists decoding destinations; exact tells that a decoded value has only one encoding.
func decDest(i int) (p interface{}, exact bool) {
	switch i {
	case 0:
		return &d01{}, false
	case 1:
		return &d02{}, true
	case 2:
		return &d03{}, true
	case 3:
		return &d04{}, false
	case 4:
		return &d05{}, true
	case 5:
		return &d06{}, true
	case 6:
		return &d07{}, true
	case 7:
		return &d08{}, false
	case 8:
		return &d09{}, true
	case 9:
		return &d10{}, false
	case 10:
		return &d11{}, true
	case 11:
		return &d12{}, true
	case 12:
		return &d13{}, false
	case 13:
		return &d14{}, false
	case 14:
		return &d15{}, true
	case 15:
		return &d16{}, true
	case 16:
		return &d17{}, true
	case 17:
		return &d18{}, false
	case 18:
		return &d19{}, false
	case 19:
		return &d20{}, false
	case 20:
		return &d21{}, false
	case 21:
		return &d22{}, true
	case 22:
		return &d23{}, true
	case 23:
		return &d24{}, true
	case 24:
		return &d25{}, false
	}
	return nil, false
}

const nDest = 25

func vhArb(lo, hi, max int) {
	i := lo + vfChoose("dest", hi-lo)
	n := vfConc(vfIntn("n", 0, max))
	body := vfBytesN("body", n)
	p, exact := decDest(i)
	tail := vfBool("tail")
	vfAllocMax(n)
	r := Reader{Body: body}
	var err error
	if tail {
		err = r.ReadTail(p)
	} else {
		err = r.Read(p)
	}
	vfAllocMax(-1)
	vfAssert((err != nil) == (r.Err != nil), "the error is returned and kept")
	vfAssert(len(r.Body) <= n, "nothing beyond the input")
	if err == nil {
		vfAssert(!tail || len(r.Body) == 0, "a tail read that leaves bytes reports it")
		used := n - len(r.Body)
		b := Write(p)
		if exact {
			vfAssert(vfEqBytes(b, body[:used]), "without an error the value is exactly what the consumed bytes encode")
		} else {
			vfAssert(len(b) <= used, "without an error the consumed bytes contain the whole value")
		}
		vfReach("decoded")
	}
	vfReach("end")
}

// arbitrary input into structures with sized and counted fields
// vf: seq
func VF_C03_structs1() { vhArb(0, 7, 10) }

// vf: seq
func VF_C03_structs2() { vhArb(7, 14, 10) }

// vf: seq
func VF_C03_structs3() { vhArb(14, 20, 10) }

// vf: seq
func VF_C03_structs4() { vhArb(20, 25, 12) }

// arbitrary input into structures with tails
// vf: seq
func VF_C03_tails() {
	n := vfConc(vfIntn("n", 0, 11))
	body := vfBytesN("body", n)
	ps := []interface{}{&tlI8{}, &tlU8{}, &tlI16{}, &tlU16{}, &tlI32{}, &tlU32{}, &tlI64{}, &tlU64{}, &tlF32{}, &vKidTl{}, &vStrTl{}, &vBytTl{}, &vN8Tl{}, &vStrsTl{}, &vPtrTl{}, &vStTl{}, &vSzTl{}, &vArrTl{}, &vBerTl{}}
	i := vfChoose("dest", len(ps))
	p := ps[i]
	vfAllocMax(2*n + 2)
	r := Reader{Body: body}
	err := r.ReadTail(p)
	vfAllocMax(-1)
	vfAssert((err != nil) == (r.Err != nil), "the error is returned and kept")
	if err == nil {
		vfAssert(len(r.Body) == 0, "a tail read consumes everything")
		b := Write(p)
		if i != len(ps)-1 {
			vfAssert(vfEqBytes(b, body), "without an error the value is exactly what the input encodes")
		} else {
			vfAssert(len(b) <= n, "without an error the input contains the whole value")
		}
		vfReach("decoded")
	}
	vfReach("end")
}

// arbitrary input into top level destinations
// vf: seq
func VF_C03_top() {
	n := vfConc(vfIntn("n", 0, 13))
	body := vfBytesN("body", n)
	d := &vKinds{}
	v := &vScal{}
	var s string
	ps := []interface{}{&d.A, &d.B, &d.C, &d.D, &d.E, &d.F, &d.G, &d.H, &d.I, &s, &v.A, &v.B, &v.C, &v.D, &v.E, &v.G, &v.H, &v.I, &v.J, &[]string{}, &[][]uint16{}, &[2]string{}, &map[int]int{}}
	i := vfChoose("dest", len(ps)-1)
	p := ps[i]
	vfAllocMax(n)
	r := Reader{Body: body}
	err := r.Read(p)
	vfAllocMax(-1)
	vfAssert((err != nil) == (r.Err != nil), "the error is returned and kept")
	if err == nil {
		used := n - len(r.Body)
		var val interface{}
		switch i {
		case 0:
			val = d.A
		case 1:
			val = d.B
		case 2:
			val = d.C
		case 3:
			val = d.D
		case 4:
			val = d.E
		case 5:
			val = d.F
		case 6:
			val = d.G
		case 7:
			val = d.H
		case 8:
			val = d.I
		case 9:
			val = s
		default:
			val = p
		}
		vfAssert(vfEqBytes(Write(val), body[:used]), "without an error the value is exactly what the consumed bytes encode")
		vfReach("decoded")
	}
	vfReach("end")
}

// the basic readers on arbitrary input and arbitrary lengths
// vf: seq
func VF_C03_prims() {
	n := vfConc(vfIntn("n", 0, 11))
	body := vfBytesN("body", n)
	sz := vfInt("sz")
	r := Reader{Body: body}
	switch vfChoose("op", 9) {
	case 0:
		res := r.Slice(sz)
		vfAssert((r.Err == nil) == (sz >= 0 && sz <= n), "Slice succeeds exactly when the bytes are there")
		if r.Err == nil {
			vfAssert(len(res) == sz && vfEqBytes(res, body[:sz]) && len(r.Body) == n-sz, "Slice returns the next bytes")
		}
	case 1:
		res := r.String(sz)
		vfAssert((r.Err == nil) == (sz >= 0 && sz <= n), "String succeeds exactly when the bytes are there")
		if r.Err == nil {
			vfAssert(res == string(body[:sz]) && len(r.Body) == n-sz, "String returns the next bytes")
		}
	case 2:
		res := r.Uint64var()
		end := -1
		var x uint64
		over := false
		for i := 0; i < n && end < 0; i++ {
			if x>>57 != 0 {
				over = true
			}
			x = x<<7 | uint64(body[i]&0x7f)
			if body[i] < 0x80 {
				end = i + 1
			}
		}
		if end < 0 || over {
			vfAssert(r.Err != nil, "an incomplete or too long variable-length integer is an error")
		} else {
			vfAssert(r.Err == nil && res == x && len(r.Body) == n-end, "variable-length integers are read to their last byte")
		}
	case 3:
		res := r.Uint16()
		vfAssert((r.Err == nil) == (n >= 2), "Uint16 needs two bytes")
		vfAssert(n >= 2 || res == 0, "zero on failure")
	case 4:
		res := r.Uint32()
		vfAssert((r.Err == nil) == (n >= 4), "Uint32 needs four bytes")
		vfAssert(n >= 4 || res == 0, "zero on failure")
	case 5:
		res := r.Uint64()
		vfAssert((r.Err == nil) == (n >= 8), "Uint64 needs eight bytes")
		vfAssert(n >= 8 || res == 0, "zero on failure")
	case 6:
		k := vfConc(vfIntn("k", 0, 6))
		dst := make([]uint16, k)
		r.Uint16sl(dst)
		vfAssert((r.Err == nil) == (n >= 2*k), "a fixed slice needs all its bytes")
	case 7:
		k := vfConc(vfIntn("k", 0, 3))
		dst := make([]float64, k)
		r.Float64sl(dst)
		vfAssert((r.Err == nil) == (n >= 8*k), "a fixed slice needs all its bytes")
	case 8:
		k := vfConc(vfIntn("k", 0, 12))
		dst := make([]uint8, k)
		r.Bytes(dst)
		vfAssert((r.Err == nil) == (n >= k), "a fixed slice needs all its bytes")
		vfAssert(r.Err != nil || vfEqBytes(dst, body[:k]), "bytes are copied")
	}
	vfReach("end")
}

// each of the readers of single values and of blocks, on all input around its needs
// vf: seq
func VF_C03_every() {
	body := vfBytesN("body", vfChoose("n", 25))
	n := len(body)
	r := Reader{Body: body}
	op, k := vfChoose("op", 24), vfChoose("k", 4)
	need := 0
	le64 := func(p, sz int) (x uint64) {
		for i := sz - 1; i >= 0; i-- {
			x = x<<8 | uint64(body[p+i])
		}
		return
	}
	wrong := false
	switch op {
	case 0:
		need = 1
		if x := r.Uint8(); need <= n {
			wrong = uint64(uint8(x)) != le64(0, 1)
		} else {
			wrong = x != 0
		}
	case 1:
		need = 1 * k
		x := make([]uint8, k)
		r.Uint8sl(x)
		for i := 0; i < k && need <= n; i++ {
			wrong = vfOr(wrong, uint64(uint8(x[i])) != le64(i*1, 1))
		}
	case 2:
		need = 1
		if x := r.Int8(); need <= n {
			wrong = uint64(uint8(x)) != le64(0, 1)
		} else {
			wrong = x != 0
		}
	case 3:
		need = 1 * k
		x := make([]int8, k)
		r.Int8sl(x)
		for i := 0; i < k && need <= n; i++ {
			wrong = vfOr(wrong, uint64(uint8(x[i])) != le64(i*1, 1))
		}
	case 4:
		need = 2
		if x := r.Uint16(); need <= n {
			wrong = uint64(uint16(x)) != le64(0, 2)
		} else {
			wrong = x != 0
		}
	case 5:
		need = 2 * k
		x := make([]uint16, k)
		r.Uint16sl(x)
		for i := 0; i < k && need <= n; i++ {
			wrong = vfOr(wrong, uint64(uint16(x[i])) != le64(i*2, 2))
		}
	case 6:
		need = 2
		if x := r.Int16(); need <= n {
			wrong = uint64(uint16(x)) != le64(0, 2)
		} else {
			wrong = x != 0
		}
	case 7:
		need = 2 * k
		x := make([]int16, k)
		r.Int16sl(x)
		for i := 0; i < k && need <= n; i++ {
			wrong = vfOr(wrong, uint64(uint16(x[i])) != le64(i*2, 2))
		}
	case 8:
		need = 4
		if x := r.Uint32(); need <= n {
			wrong = uint64(uint32(x)) != le64(0, 4)
		} else {
			wrong = x != 0
		}
	case 9:
		need = 4 * k
		x := make([]uint32, k)
		r.Uint32sl(x)
		for i := 0; i < k && need <= n; i++ {
			wrong = vfOr(wrong, uint64(uint32(x[i])) != le64(i*4, 4))
		}
	case 10:
		need = 4
		if x := r.Int32(); need <= n {
			wrong = uint64(uint32(x)) != le64(0, 4)
		} else {
			wrong = x != 0
		}
	case 11:
		need = 4 * k
		x := make([]int32, k)
		r.Int32sl(x)
		for i := 0; i < k && need <= n; i++ {
			wrong = vfOr(wrong, uint64(uint32(x[i])) != le64(i*4, 4))
		}
	case 12:
		need = 8
		if x := r.Uint64(); need <= n {
			wrong = uint64(uint64(x)) != le64(0, 8)
		} else {
			wrong = x != 0
		}
	case 13:
		need = 8 * k
		x := make([]uint64, k)
		r.Uint64sl(x)
		for i := 0; i < k && need <= n; i++ {
			wrong = vfOr(wrong, uint64(uint64(x[i])) != le64(i*8, 8))
		}
	case 14:
		need = 8
		if x := r.Int64(); need <= n {
			wrong = uint64(uint64(x)) != le64(0, 8)
		} else {
			wrong = x != 0
		}
	case 15:
		need = 8 * k
		x := make([]int64, k)
		r.Int64sl(x)
		for i := 0; i < k && need <= n; i++ {
			wrong = vfOr(wrong, uint64(uint64(x[i])) != le64(i*8, 8))
		}
	case 16:
		need = 4
		if x := r.Float32(); need <= n {
			wrong = uint64(math.Float32bits(x)) != le64(0, 4)
		} else {
			wrong = x != 0
		}
	case 17:
		need = 4 * k
		x := make([]float32, k)
		r.Float32sl(x)
		for i := 0; i < k && need <= n; i++ {
			wrong = vfOr(wrong, uint64(math.Float32bits(x[i])) != le64(i*4, 4))
		}
	case 18:
		need = 8
		if x := r.Float64(); need <= n {
			wrong = uint64(math.Float64bits(x)) != le64(0, 8)
		} else {
			wrong = x != 0
		}
	case 19:
		need = 8 * k
		x := make([]float64, k)
		r.Float64sl(x)
		for i := 0; i < k && need <= n; i++ {
			wrong = vfOr(wrong, uint64(math.Float64bits(x[i])) != le64(i*8, 8))
		}
	case 20:
		need = 1
		if x := r.IntUint8(); need <= n {
			wrong = uint64(x) != le64(0, 1)
		} else {
			wrong = x != 0
		}
	case 21:
		need = 2
		if x := r.IntUint16(); need <= n {
			wrong = uint64(x) != le64(0, 2)
		} else {
			wrong = x != 0
		}
	case 22:
		need = 4
		if x := r.IntUint32(); need <= n {
			wrong = uint64(x) != le64(0, 4)
		} else {
			wrong = x != 0
		}
	case 23:
		need = 8
		if x := r.IntUint64(); need <= n {
			wrong = uint64(x) != le64(0, 8)
		} else {
			wrong = x != 0
		}
	}
	vfAssert((r.Err == nil) == (need <= n), "a value is read exactly when all its bytes are there")
	vfAssert(!wrong, "a value is what its bytes say, and zero when they are not there")
	vfAssert(r.Err != nil || len(r.Body) == n-need, "a value takes its bytes and no more")
	vfReach("end")
}
