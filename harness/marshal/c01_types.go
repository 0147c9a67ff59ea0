package marshal

func rtShape(s vShape) {
	s.gen()
	var b []byte
	if vfBool("byptr") {
		b = Write(s.ptr())
	} else {
		b = Write(s.val())
	}
	d := s.fresh()
	vhDec(b, d.ptr(), false)
	vfAssert(s.same(d), "the decoded value equals the encoded one")
	vfObserveBytes("b", b)
	vfReach("end")
}

// vf: seq
func VF_C01_scalars() { rtShape(&shScal{}) }

// vf: seq
func VF_C01_ber() { rtShape(&shBer{}) }

// vf: seq
func VF_C01_sizedscalars() { rtShape(&shSzScal{}) }

// vf: seq
func VF_C01_slices() { rtShape(&shSl{}) }

// vf: seq
func VF_C01_kinds() { rtShape(&shKinds{}) }

// vf: seq
func VF_C01_arrays() { rtShape(&shArr{}) }

// vf: seq
func VF_C01_berslices() { rtShape(&shBerSl{}) }

// vf: seq
func VF_C01_strings() { rtShape(&shStrs{}) }

// vf: seq
func VF_C01_nested() { rtShape(&shNest{}) }

// values with their own encoding, the last one read as a tail
// vf: seq
func VF_C01_custom() {
	s, d := &shCust{}, &shCust{}
	s.gen()
	b := Write(s.ptr())
	vhDec(b, d.ptr(), true)
	vfAssert(s.same(d), "the decoded value equals the encoded one")
	vfObserveBytes("b", b)
	vfReach("end")
}
