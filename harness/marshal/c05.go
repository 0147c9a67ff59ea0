package marshal

type c05t struct {
	A uint16
	B []uint8 `iproto:"size(i8)"`
}

// one encoding step; ref receives the expected bytes
func c05step(w *Writer, ref *rb, i int, op int) {
	x := vfU64("x" + string(rune('0'+i)))
	switch op {
	case 0:
		w.Uint8(uint8(x))
		ref.u8(uint8(x))
	case 1:
		w.Uint32(uint32(x))
		ref.u32(uint32(x))
	case 2:
		w.Uint64sl([]uint64{x, x + 1})
		ref.u64(x)
		ref.u64(x + 1)
	case 3:
		w.Bytes([]byte{uint8(x), uint8(x >> 8), uint8(x >> 16)})
		ref.bytes([]byte{uint8(x), uint8(x >> 8), uint8(x >> 16)})
	case 4:
		copy(w.Need(2), []byte{uint8(x), 7})
		ref.bytes([]byte{uint8(x), 7})
	case 5:
		v := c05t{A: uint16(x), B: []uint8{uint8(x >> 20), 9}}
		w.Write(&v)
		ref.u16(v.A)
		ref.u8(2)
		ref.bytes(v.B)
	case 6:
		v := c05t{A: uint16(x), B: []uint8{3, uint8(x >> 20), 9}}
		w.WriteWithSize(v, (*Writer).IntUint32)
		ref.u32(6)
		ref.u16(v.A)
		ref.u8(3)
		ref.bytes(v.B)
	case 7:
		w.String("xyzuvwxy")
		ref.str("xyzuvwxy")
	case 8:
		w.Uint64var(uint64(uint8(x)) | 1<<14)
		ref.ber(uint64(uint8(x)) | 1<<14)
	case 9:
		w.WriteTail([]uint16{uint16(x), uint16(x >> 16)})
		ref.u16(uint16(x))
		ref.u16(uint16(x >> 16))
	}
}

const c05n = 10

func c05snap(b []byte) []byte {
	r := make([]byte, len(b))
	copy(r, b)
	return r
}

// slices taken at arbitrary points of a sequence of writes, with every small buffer size
// vf: seq
func VF_C05_stable() {
	w := Writer{DefSize: 1 + vfChoose("def", 12)}
	steps := 3
	if vfThorough() {
		steps = 4
	}
	var got, want [][]byte
	ref := &rb{}
	for i := 0; i < steps; i++ {
		c05step(&w, ref, i, vfChoose("op", c05n))
		if vfChoose("take", 2) == 1 || i == steps-1 {
			b := w.Written()
			vfAssert(vfEqBytes(b, ref.b), "exactly what was written since the last take")
			got = append(got, b)
			want = append(want, ref.b)
			ref = &rb{}
		}
	}
	for i := range got {
		vfAssert(vfEqBytes(got[i], want[i]), "a taken slice keeps its contents")
	}
	vfReach("end")
}

// the default buffer: writes which cross its end
// vf: seq
func VF_C05_default() {
	var w Writer
	pre := vfConc(vfIntn("pre", 490, 516))
	for i := range w.Need(pre) {
		_ = i
	}
	first := w.Written()
	for i := range first {
		first[i] = byte(i)
	}
	ref := &rb{}
	c05step(&w, ref, 0, vfChoose("op", c05n))
	if vfChoose("take", 2) == 1 {
		b := w.Written()
		vfAssert(vfEqBytes(b, ref.b), "exactly what was written since the last take")
		sn := c05snap(b)
		ref = &rb{}
		c05step(&w, ref, 1, vfChoose("op2", c05n))
		vfAssert(vfEqBytes(b, sn), "a taken slice keeps its contents")
	} else {
		c05step(&w, ref, 1, vfChoose("op2", c05n))
	}
	vfAssert(vfEqBytes(w.Written(), ref.b), "exactly what was written since the last take")
	for i := range first {
		vfAssert(first[i] == byte(i), "a taken slice keeps its contents")
	}
	vfReach("end")
}

// writes which cross the end of the buffer while nothing has been taken
// vf: seq
func VF_C05_grow() {
	w := Writer{DefSize: 1 + vfChoose("def", 3)*7}
	n := vfConc(vfIntn("n", 0, 40))
	ref := &rb{}
	p := vfBytesN("p", n)
	w.Bytes(p)
	ref.bytes(p)
	c05step(&w, ref, 0, vfChoose("op", c05n))
	b := w.Written()
	vfAssert(vfEqBytes(b, ref.b), "exactly what was written")
	vfAssert(len(w.Written()) == 0, "nothing is taken twice")
	vfReach("end")
}

// Reset drops what has not been taken and nothing else
// vf: seq
func VF_C05_reset() {
	w := Writer{DefSize: 1 + vfChoose("def", 40)}
	ref := &rb{}
	c05step(&w, ref, 0, vfChoose("op0", c05n))
	a := w.Written()
	sa := c05snap(a)
	c05step(&w, &rb{}, 1, vfChoose("op1", c05n))
	w.Reset()
	ref = &rb{}
	c05step(&w, ref, 2, vfChoose("op2", c05n))
	vfAssert(vfEqBytes(a, sa), "a taken slice keeps its contents")
	b := w.Written()
	vfAssert(vfEqBytes(b, ref.b), "exactly what was written since the reset")
	vfReach("end")
}

// the owner of a taken slice may append to it and write into it
// vf: seq
func VF_C05_owner() {
	w := Writer{DefSize: 1 + vfChoose("def", 40)}
	ref := &rb{}
	c05step(&w, ref, 0, vfChoose("op0", c05n))
	a := w.Written()
	ref = &rb{}
	c05step(&w, ref, 1, vfChoose("op1", c05n))
	a2 := append(a, 0xaa, 0xbb, 0xcc)
	for i := range a {
		a[i] = 0x55
	}
	a2[0] = 1
	c05step(&w, ref, 2, vfChoose("op2", c05n))
	vfAssert(vfEqBytes(w.Written(), ref.b), "what is written later does not share memory with taken slices")
	vfReach("end")
}
