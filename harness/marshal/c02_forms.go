package marshal

// types with their own encoding, in each of the four forms
// vf: seq
func VF_C02_forms() {
	form, p := vFormGen()
	vfAssert(vfEqBytes(Write(vForm(form, p)), vFormRef(form, p)), "the encoded bytes follow the wire layout")
	vfReach("end")
}
