package marshal

func layShape(s vShape) {
	s.gen()
	var b []byte
	if vfBool("byptr") {
		b = Write(s.ptr())
	} else {
		b = Write(s.val())
	}
	r := &rb{}
	s.ref(r)
	vfObserveBytes("b", b)
	vfAssert(vfEqBytes(b, r.b), "the encoded bytes follow the wire layout")
	vfReach("end")
}

// vf: seq
func VF_C02_scalars() { layShape(&shScal{}) }

// vf: seq
func VF_C02_ber() { layShape(&shBer{}) }

// vf: seq
func VF_C02_sizedscalars() { layShape(&shSzScal{}) }

// vf: seq
func VF_C02_slices() { layShape(&shSl{}) }

// vf: seq
func VF_C02_kinds() { layShape(&shKinds{}) }

// vf: seq
func VF_C02_arrays() { layShape(&shArr{}) }

// vf: seq
func VF_C02_berslices() { layShape(&shBerSl{}) }

// vf: seq
func VF_C02_strings() { layShape(&shStrs{}) }

// vf: seq
func VF_C02_nested() { layShape(&shNest{}) }

// vf: seq
func VF_C02_varint() {
	x := vfU64("x")
	w := Writer{}
	w.Uint64var(x)
	got := w.Written()
	r := &rb{}
	r.ber(x)
	vfAssert(vfEqBytes(got, r.b), "variable-length integers are minimal big-endian base-128")
	vfReach("end")
}

// vf: seq
func VF_C02_custom() { layShape(&shCust{}) }
