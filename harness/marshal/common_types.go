package marshal

// Shapes used by several properties. Every shape has a generator, a reference layout and a comparison.

type vShape interface {
	gen()
	ref(r *rb)
	val() interface{} // the value, as passed to Write
	ptr() interface{} // pointer to the value
	fresh() vShape
	same(o vShape) bool // equality of contents
}

// fixed-width scalars
type vScal struct {
	A int8
	B uint16
	C int32
	D uint64
	E float32
	F float64
	G uint8
	H int16
	I uint32
	J int64
}
type shScal struct{ v vScal }

func (s *shScal) gen() {
	s.v = vScal{vfI8("a"), vfU16("b"), vfI32("c"), vfU64("d"), vhF32("e"), vhF64("f"), vfU8("g"), vfI16("h"), vfU32("i"), vfI64("j")}
}
func (s *shScal) ref(r *rb) {
	v := &s.v
	r.u8(uint8(v.A))
	r.u16(v.B)
	r.u32(uint32(v.C))
	r.u64(v.D)
	r.f32(v.E)
	r.f64(v.F)
	r.u8(v.G)
	r.u16(uint16(v.H))
	r.u32(v.I)
	r.u64(uint64(v.J))
}
func (s *shScal) val() interface{} { return s.v }
func (s *shScal) ptr() interface{} { return &s.v }
func (s *shScal) fresh() vShape    { return &shScal{} }
func (s *shScal) same(o vShape) bool {
	a, b := &s.v, &o.(*shScal).v
	x := vfAnd(a.A == b.A, a.B == b.B)
	x = vfAnd(x, vfAnd(a.C == b.C, a.D == b.D))
	x = vfAnd(x, vfAnd(a.E == b.E, a.F == b.F))
	x = vfAnd(x, vfAnd(a.G == b.G, a.H == b.H))
	return vfAnd(x, vfAnd(a.I == b.I, a.J == b.J))
}

// variable-length scalars
type vBer struct {
	A uint8  `iproto:"ber"`
	B uint16 `iproto:"ber"`
	C uint32 `iproto:"ber"`
	D uint64 `iproto:"ber"`
	E uint64 `iproto:"size(i16),ber"`
	F uint32 `iproto:"cnt(i8),ber"`
}
type shBer struct {
	v   vBer
	pos int
}

func (s *shBer) gen() {
	// one field at a time is fully symbolic, the others stay small (bounds the number of length combinations)
	s.v = vBer{A: 1, B: 2, C: 3, D: 4, E: 5, F: 6}
	switch s.pos = vfChoose("pos", 5); s.pos {
	case 0:
		s.v.A = vfU8("a")
	case 1:
		s.v.B = vfU16("b")
	case 2:
		s.v.C = vfU32("c")
	case 3:
		s.v.D = vfU64("d")
	case 4:
		s.v.E = vfU64("e")
		s.v.F = vfU32("f") & 0x7f
	}
}
func (s *shBer) ref(r *rb) {
	v := &s.v
	r.ber(uint64(v.A))
	r.ber(uint64(v.B))
	r.ber(uint64(v.C))
	r.ber(v.D)
	r.u16(uint16(refVarLen(v.E)))
	r.ber(v.E)
	r.u8(1)
	r.ber(uint64(v.F))
}
func (s *shBer) val() interface{} { return s.v }
func (s *shBer) ptr() interface{} { return &s.v }
func (s *shBer) fresh() vShape    { return &shBer{} }
func (s *shBer) same(o vShape) bool {
	a, b := &s.v, &o.(*shBer).v
	x := vfAnd(a.A == b.A, a.B == b.B)
	x = vfAnd(x, vfAnd(a.C == b.C, a.D == b.D))
	return vfAnd(x, vfAnd(a.E == b.E, a.F == b.F))
}

// scalars with a size or a count
type vSzScal struct {
	A int8    `iproto:"size(ber)"`
	B uint16  `iproto:"size(i8)"`
	C int32   `iproto:"size(i16)"`
	D uint64  `iproto:"size(i32)"`
	E float32 `iproto:"size(i64)"`
	F float64 `iproto:"cnt(ber)"`
	G uint8   `iproto:"cnt(i8)"`
	H int16   `iproto:"cnt(i16)"`
	I uint32  `iproto:"cnt(i32)"`
	J int64   `iproto:"cnt(i64)"`
	K int8    `iproto:"skip"`
	l int8
	M uint8
}
type shSzScal struct{ v vSzScal }

func (s *shSzScal) gen() {
	s.v = vSzScal{A: vfI8("a"), B: vfU16("b"), C: vfI32("c"), D: vfU64("d"), E: vhF32("e"), F: vhF64("f"), G: vfU8("g"), H: vfI16("h"), I: vfU32("i"), J: vfI64("j"), M: vfU8("m")}
}
func (s *shSzScal) ref(r *rb) {
	v := &s.v
	r.ber(1)
	r.u8(uint8(v.A))
	r.u8(2)
	r.u16(v.B)
	r.u16(4)
	r.u32(uint32(v.C))
	r.u32(8)
	r.u64(v.D)
	r.u64(4)
	r.f32(v.E)
	r.ber(1)
	r.f64(v.F)
	r.u8(1)
	r.u8(v.G)
	r.u16(1)
	r.u16(uint16(v.H))
	r.u32(1)
	r.u32(v.I)
	r.u64(1)
	r.u64(uint64(v.J))
	r.u8(v.M)
}
func (s *shSzScal) val() interface{} { return s.v }
func (s *shSzScal) ptr() interface{} { return &s.v }
func (s *shSzScal) fresh() vShape    { return &shSzScal{} }
func (s *shSzScal) same(o vShape) bool {
	a, b := &s.v, &o.(*shSzScal).v
	x := vfAnd(a.A == b.A, a.B == b.B)
	x = vfAnd(x, vfAnd(a.C == b.C, a.D == b.D))
	x = vfAnd(x, vfAnd(a.E == b.E, a.F == b.F))
	x = vfAnd(x, vfAnd(a.G == b.G, a.H == b.H))
	x = vfAnd(x, a.M == b.M)
	return vfAnd(x, vfAnd(a.I == b.I, a.J == b.J))
}

func vhSl16(n string, k int) []uint16 {
	r := make([]uint16, k)
	for i := range r {
		r[i] = vfU16(n)
	}
	return r
}

func vhSame16(a, b []uint16) bool {
	if len(a) != len(b) {
		return false
	}
	x := true
	for i := range a {
		x = vfAnd(x, a[i] == b[i])
	}
	return x
}

// slices with every prefix
type vSl struct {
	A []uint16
	B []uint16 `iproto:"size(ber)"`
	C []uint16 `iproto:"size(i8)"`
	D []uint16 `iproto:"size(i16)"`
	E []uint16 `iproto:"size(i32)"`
	F []uint16 `iproto:"size(i64)"`
	G []uint16 `iproto:"cnt(ber)"`
	H []uint16 `iproto:"cnt(i8)"`
	I []uint16 `iproto:"cnt(i16)"`
	J []uint16 `iproto:"cnt(i32)"`
	K []uint16 `iproto:"cnt(i64)"`
}

func (v *vSl) all() []*[]uint16 {
	return []*[]uint16{&v.A, &v.B, &v.C, &v.D, &v.E, &v.F, &v.G, &v.H, &v.I, &v.J, &v.K}
}

type shSl struct{ v vSl }

func (s *shSl) gen() {
	k := vfConc(vfIntn("len", 0, 2))
	for i, p := range s.v.all() {
		n := k + i&1
		*p = vhSl16("x", n)
	}
}
func (s *shSl) ref(r *rb) {
	for i, p := range s.v.all() {
		n := uint64(len(*p))
		switch i {
		case 0:
			r.u32(uint32(n))
		case 1:
			r.ber(2 * n)
		case 2:
			r.u8(uint8(2 * n))
		case 3:
			r.u16(uint16(2 * n))
		case 4:
			r.u32(uint32(2 * n))
		case 5:
			r.u64(2 * n)
		case 6:
			r.ber(n)
		case 7:
			r.u8(uint8(n))
		case 8:
			r.u16(uint16(n))
		case 9:
			r.u32(uint32(n))
		case 10:
			r.u64(n)
		}
		for _, x := range *p {
			r.u16(x)
		}
	}
}
func (s *shSl) val() interface{} { return s.v }
func (s *shSl) ptr() interface{} { return &s.v }
func (s *shSl) fresh() vShape    { return &shSl{} }
func (s *shSl) same(o vShape) bool {
	x := true
	b := o.(*shSl).v.all()
	for i, p := range s.v.all() {
		x = vfAnd(x, vhSame16(*p, *b[i]))
	}
	return x
}

// slices of every element kind
type vKinds struct {
	A []int8
	B []uint8
	C []int16
	D []uint16
	E []int32
	F []uint32
	G []int64
	H []uint64
	I []float32
	J []float64
}
type shKinds struct{ v vKinds }

func (s *shKinds) gen() {
	k := vfConc(vfIntn("len", 0, 3))
	v := &s.v
	for i := 0; i < k; i++ {
		v.A = append(v.A, vfI8("a"))
		v.B = append(v.B, vfU8("b"))
		v.C = append(v.C, vfI16("c"))
		v.D = append(v.D, vfU16("d"))
		v.E = append(v.E, vfI32("e"))
		v.F = append(v.F, vfU32("f"))
		v.G = append(v.G, vfI64("g"))
		v.H = append(v.H, vfU64("h"))
		v.I = append(v.I, vhF32("i"))
		v.J = append(v.J, vhF64("j"))
	}
}
func (v *vKinds) refElems(r *rb, f int) {
	switch f {
	case 0:
		for _, x := range v.A {
			r.u8(uint8(x))
		}
	case 1:
		r.bytes(v.B)
	case 2:
		for _, x := range v.C {
			r.u16(uint16(x))
		}
	case 3:
		for _, x := range v.D {
			r.u16(x)
		}
	case 4:
		for _, x := range v.E {
			r.u32(uint32(x))
		}
	case 5:
		for _, x := range v.F {
			r.u32(x)
		}
	case 6:
		for _, x := range v.G {
			r.u64(uint64(x))
		}
	case 7:
		for _, x := range v.H {
			r.u64(x)
		}
	case 8:
		for _, x := range v.I {
			r.f32(x)
		}
	case 9:
		for _, x := range v.J {
			r.f64(x)
		}
	}
}
func (s *shKinds) ref(r *rb) {
	n := uint32(len(s.v.A))
	for f := 0; f < 10; f++ {
		r.u32(n)
		s.v.refElems(r, f)
	}
}
func (s *shKinds) val() interface{} { return s.v }
func (s *shKinds) ptr() interface{} { return &s.v }
func (s *shKinds) fresh() vShape    { return &shKinds{} }
func (v *vKinds) sameField(o *vKinds, f int) bool {
	x := true
	switch f {
	case 0:
		x = len(v.A) == len(o.A)
		for i := 0; x && i < len(v.A); i++ {
			vfAssert(v.A[i] == o.A[i], "int8 element")
		}
	case 1:
		x = vfEqBytes(v.B, o.B)
	case 2:
		x = len(v.C) == len(o.C)
		for i := 0; x && i < len(v.C); i++ {
			vfAssert(v.C[i] == o.C[i], "int16 element")
		}
	case 3:
		x = vhSame16(v.D, o.D)
	case 4:
		x = len(v.E) == len(o.E)
		for i := 0; x && i < len(v.E); i++ {
			vfAssert(v.E[i] == o.E[i], "int32 element")
		}
	case 5:
		x = len(v.F) == len(o.F)
		for i := 0; x && i < len(v.F); i++ {
			vfAssert(v.F[i] == o.F[i], "uint32 element")
		}
	case 6:
		x = len(v.G) == len(o.G)
		for i := 0; x && i < len(v.G); i++ {
			vfAssert(v.G[i] == o.G[i], "int64 element")
		}
	case 7:
		x = len(v.H) == len(o.H)
		for i := 0; x && i < len(v.H); i++ {
			vfAssert(v.H[i] == o.H[i], "uint64 element")
		}
	case 8:
		x = len(v.I) == len(o.I)
		for i := 0; x && i < len(v.I); i++ {
			vfAssert(v.I[i] == o.I[i], "float32 element")
		}
	case 9:
		x = len(v.J) == len(o.J)
		for i := 0; x && i < len(v.J); i++ {
			vfAssert(v.J[i] == o.J[i], "float64 element")
		}
	}
	return x
}
func (s *shKinds) same(o vShape) bool {
	for f := 0; f < 10; f++ {
		if !s.v.sameField(&o.(*shKinds).v, f) {
			return false
		}
	}
	return true
}

// arrays
type vArr struct {
	A [3]uint32
	B [2]uint16  `iproto:"size(ber)"`
	C [2]int8    `iproto:"size(i8)"`
	D [3]uint8   `iproto:"size(i16)"`
	E [2]int64   `iproto:"cnt(ber)"`
	F [2]int16   `iproto:"cnt(i8)"`
	G [1]float32 `iproto:"cnt(i64)"`
	H [2]float64
	I [2]int32
	J [1]uint64
}
type shArr struct{ v vArr }

func (s *shArr) gen() {
	v := &s.v
	v.A = [3]uint32{vfU32("a"), vfU32("a"), vfU32("a")}
	v.B = [2]uint16{vfU16("b"), vfU16("b")}
	v.C = [2]int8{vfI8("c"), vfI8("c")}
	v.D = [3]uint8{vfU8("d"), vfU8("d"), vfU8("d")}
	v.E = [2]int64{vfI64("e"), vfI64("e")}
	v.F = [2]int16{vfI16("f"), vfI16("f")}
	v.G = [1]float32{vhF32("g")}
	v.H = [2]float64{vhF64("h"), vhF64("h")}
	v.I = [2]int32{vfI32("i"), vfI32("i")}
	v.J = [1]uint64{vfU64("j")}
}
func (s *shArr) ref(r *rb) {
	v := &s.v
	for _, x := range v.A {
		r.u32(x)
	}
	r.ber(4)
	for _, x := range v.B {
		r.u16(x)
	}
	r.u8(2)
	for _, x := range v.C {
		r.u8(uint8(x))
	}
	r.u16(3)
	for _, x := range v.D {
		r.u8(x)
	}
	r.ber(2)
	for _, x := range v.E {
		r.u64(uint64(x))
	}
	r.u8(2)
	for _, x := range v.F {
		r.u16(uint16(x))
	}
	r.u64(1)
	r.f32(v.G[0])
	r.f64(v.H[0])
	r.f64(v.H[1])
	r.u32(uint32(v.I[0]))
	r.u32(uint32(v.I[1]))
	r.u64(v.J[0])
}
func (s *shArr) val() interface{} { return s.v }
func (s *shArr) ptr() interface{} { return &s.v }
func (s *shArr) fresh() vShape    { return &shArr{} }
func (s *shArr) same(o vShape) bool {
	a, b := &s.v, &o.(*shArr).v
	x := vfAnd(a.A == b.A, a.B == b.B)
	x = vfAnd(x, vfAnd(a.C == b.C, a.D == b.D))
	x = vfAnd(x, vfAnd(a.E == b.E, a.F == b.F))
	x = vfAnd(x, vfAnd(a.G == b.G, a.H == b.H))
	return vfAnd(x, vfAnd(a.I == b.I, a.J == b.J))
}

// variable-length integers in slices and arrays
type vBerSl struct {
	A []uint64  `iproto:"ber"`
	B []uint32  `iproto:"size(ber),ber"`
	C []uint16  `iproto:"cnt(i8),ber"`
	D [2]uint32 `iproto:"size(i16),ber"`
	E [2]uint16 `iproto:"cnt(ber),ber"`
	F [2]uint64 `iproto:"ber"`
	G *uint32   `iproto:"size(i8),ber"`
}
type shBerSl struct{ v vBerSl }

func (s *shBerSl) gen() {
	v := &s.v
	v.B, v.C = []uint32{7}, []uint16{}
	g := uint32(9)
	v.G = &g
	switch vfChoose("pos", 7) {
	case 0:
		for n := vfConc(vfIntn("n", 0, 2)); n > 0; n-- {
			v.A = append(v.A, vfU64("a")>>40)
		}
	case 1:
		v.B = append(v.B, vfU32("b"))
	case 2:
		v.C = append(v.C, vfU16("c"), 3)
	case 3:
		v.D = [2]uint32{vfU32("d"), 1}
	case 4:
		v.E = [2]uint16{vfU16("e"), 300}
	case 5:
		v.F = [2]uint64{5, vfU64("f")}
	case 6:
		if vfBool("nil") {
			v.G = nil
		} else {
			g = vfU32("g")
		}
	}
}
func berLen32(a []uint32) (n int) {
	for _, x := range a {
		n += refVarLen(uint64(x))
	}
	return
}
func (s *shBerSl) ref(r *rb) {
	v := &s.v
	r.u32(uint32(len(v.A)))
	for _, x := range v.A {
		r.ber(x)
	}
	r.ber(uint64(berLen32(v.B)))
	for _, x := range v.B {
		r.ber(uint64(x))
	}
	r.u8(uint8(len(v.C)))
	for _, x := range v.C {
		r.ber(uint64(x))
	}
	r.u16(uint16(berLen32(v.D[:])))
	for _, x := range v.D {
		r.ber(uint64(x))
	}
	r.ber(2)
	for _, x := range v.E {
		r.ber(uint64(x))
	}
	for _, x := range v.F {
		r.ber(x)
	}
	if v.G == nil {
		r.u8(0)
	} else {
		r.u8(uint8(refVarLen(uint64(*v.G))))
		r.ber(uint64(*v.G))
	}
}
func (s *shBerSl) val() interface{} { return s.v }
func (s *shBerSl) ptr() interface{} { return &s.v }
func (s *shBerSl) fresh() vShape    { return &shBerSl{} }
func (s *shBerSl) same(o vShape) bool {
	a, b := &s.v, &o.(*shBerSl).v
	if len(a.A) != len(b.A) || len(a.B) != len(b.B) || (a.G == nil) != (b.G == nil) {
		return false
	}
	x := vhSame16(a.C, b.C)
	for i := range a.A {
		x = vfAnd(x, a.A[i] == b.A[i])
	}
	for i := range a.B {
		x = vfAnd(x, a.B[i] == b.B[i])
	}
	if a.G != nil {
		x = vfAnd(x, *a.G == *b.G)
	}
	return vfAnd(x, vfAnd(a.D == b.D, vfAnd(a.E == b.E, a.F == b.F)))
}

// strings and byte strings
type vBytesT []byte
type vNamed8 uint8
type vStrs struct {
	A string
	B string `iproto:"size(ber)"`
	C string `iproto:"cnt(i8)"`
	D []byte `iproto:"size(i16)"`
	E []byte `iproto:"cnt(ber)"`
	F vBytesT
	G []vNamed8 `iproto:"size(i64)"`
	H []string
	I [2]string `iproto:"size(ber)"`
	J []string  `iproto:"size(i16)"`
	K [][]byte  `iproto:"cnt(i8)"`
	L *string   `iproto:"size(i8)"`
	M string    `iproto:"size(i64)"`
}
type shStrs struct{ v vStrs }

func (s *shStrs) gen() {
	v := &s.v
	k := vfConc(vfIntn("len", 0, 2))
	v.A = vfStringN("a", k)
	v.B = vfStringN("b", 3-k)
	v.C = vfStringN("c", k+1)
	v.D = vfBytesN("d", k)
	v.E = vfBytesN("e", 2*k)
	v.F = vBytesT(vfBytesN("f", k+1))
	for i := 0; i < k; i++ {
		v.G = append(v.G, vNamed8(vfU8("g")))
		v.H = append(v.H, vfStringN("h", i+k))
		v.J = append(v.J, vfStringN("j", 2-i))
		v.K = append(v.K, vfBytesN("k", i))
	}
	v.I = [2]string{vfStringN("i", k), vfStringN("i", 1)}
	if k != 1 {
		l := vfStringN("l", k+1)
		v.L = &l
	}
	v.M = vfStringN("m", k)
}
func (s *shStrs) ref(r *rb) {
	v := &s.v
	r.u32(uint32(len(v.A)))
	r.str(v.A)
	r.ber(uint64(len(v.B)))
	r.str(v.B)
	r.u8(uint8(len(v.C)))
	r.str(v.C)
	r.u16(uint16(len(v.D)))
	r.bytes(v.D)
	r.ber(uint64(len(v.E)))
	r.bytes(v.E)
	r.u32(uint32(len(v.F)))
	r.bytes(v.F)
	r.u64(uint64(len(v.G)))
	for _, x := range v.G {
		r.u8(uint8(x))
	}
	r.u32(uint32(len(v.H)))
	for _, x := range v.H {
		r.u32(uint32(len(x)))
		r.str(x)
	}
	r.ber(uint64(8 + len(v.I[0]) + len(v.I[1])))
	for _, x := range v.I {
		r.u32(uint32(len(x)))
		r.str(x)
	}
	n := 0
	for _, x := range v.J {
		n += 4 + len(x)
	}
	r.u16(uint16(n))
	for _, x := range v.J {
		r.u32(uint32(len(x)))
		r.str(x)
	}
	r.u8(uint8(len(v.K)))
	for _, x := range v.K {
		r.u32(uint32(len(x)))
		r.bytes(x)
	}
	if v.L == nil {
		r.u8(0)
	} else {
		r.u8(uint8(len(*v.L)))
		r.str(*v.L)
	}
	r.u64(uint64(len(v.M)))
	r.str(v.M)
}
func (s *shStrs) val() interface{} { return s.v }
func (s *shStrs) ptr() interface{} { return &s.v }
func (s *shStrs) fresh() vShape    { return &shStrs{} }
func (s *shStrs) same(o vShape) bool {
	a, b := &s.v, &o.(*shStrs).v
	if len(a.G) != len(b.G) || len(a.H) != len(b.H) || len(a.J) != len(b.J) || len(a.K) != len(b.K) || (a.L == nil) != (b.L == nil) {
		return false
	}
	x := vfAnd(a.A == b.A, vfAnd(a.B == b.B, a.C == b.C))
	x = vfAnd(x, vfAnd(vfEqBytes(a.D, b.D), vfAnd(vfEqBytes(a.E, b.E), vfEqBytes(a.F, b.F))))
	for i := range a.G {
		x = vfAnd(x, a.G[i] == b.G[i])
	}
	for i := range a.H {
		x = vfAnd(x, a.H[i] == b.H[i])
	}
	for i := range a.J {
		x = vfAnd(x, a.J[i] == b.J[i])
	}
	for i := range a.K {
		x = vfAnd(x, vfEqBytes(a.K[i], b.K[i]))
	}
	if a.L != nil {
		x = vfAnd(x, *a.L == *b.L)
	}
	x = vfAnd(x, a.M == b.M)
	return vfAnd(x, vfAnd(a.I[0] == b.I[0], a.I[1] == b.I[1]))
}

// nested structures
type vIn1 struct {
	I int32
	S string
}
type vIn2 struct {
	X uint8
	Y []uint16 `iproto:"cnt(i8)"`
	Z uint32
}
type vIn3 struct {
	P uint16
	Q int64 `iproto:"cnt(i8)"`
}
type vNest struct {
	A vIn1
	B vIn1   `iproto:"size(ber)"`
	C vIn2   `iproto:"size(i16)"`
	D []vIn1 `iproto:"cnt(i8)"`
	E []vIn2 `iproto:"size(i16)"`
	F [2]vIn3
	G *vIn1  `iproto:"size(i8)"`
	H *vIn3  `iproto:"cnt(i8)"`
	I []vIn3 `iproto:"size(ber)"`
	J vIn3   `iproto:"size(i8)"`
	K vIn2   `iproto:"cnt(i16)"`
	L [][]uint16
	M [2]vIn1 `iproto:"size(i32)"`
	N []*vIn3X
}

// a pointer element that frames itself
type vIn3X struct{ V uint16 }

func (v *vIn3X) IWrite(w *Writer) { w.Uint16(v.V) }
func (v *vIn3X) IRead(r *Reader)  { v.V = r.Uint16() }

func (v *vIn1) ref(r *rb) { r.u32(uint32(v.I)); r.u32(uint32(len(v.S))); r.str(v.S) }
func (v *vIn1) size() int { return 8 + len(v.S) }
func (v *vIn2) ref(r *rb) {
	r.u8(v.X)
	r.u8(uint8(len(v.Y)))
	for _, y := range v.Y {
		r.u16(y)
	}
	r.u32(v.Z)
}
func (v *vIn2) size() int     { return 6 + 2*len(v.Y) }
func (v *vIn3) ref(r *rb)     { r.u16(v.P); r.u8(1); r.u64(uint64(v.Q)) }
func g1(n string, k int) vIn1 { return vIn1{vfI32(n), vfStringN(n+"s", k)} }
func g2(n string, k int) vIn2 { return vIn2{vfU8(n), vhSl16(n+"y", k), vfU32(n + "z")} }
func g3(n string) vIn3        { return vIn3{vfU16(n), vfI64(n + "q")} }
func same1(a, b *vIn1) bool   { return vfAnd(a.I == b.I, a.S == b.S) }
func same2(a, b *vIn2) bool   { return vfAnd(vfAnd(a.X == b.X, a.Z == b.Z), vhSame16(a.Y, b.Y)) }
func same3(a, b *vIn3) bool   { return vfAnd(a.P == b.P, a.Q == b.Q) }

type shNest struct{ v vNest }

func (s *shNest) gen() {
	v := &s.v
	k := vfConc(vfIntn("len", 0, 2))
	v.A, v.B, v.C = g1("a", k), g1("b", 2-k), g2("c", k)
	for i := 0; i < k; i++ {
		v.D = append(v.D, g1("d", i))
		v.E = append(v.E, g2("e", 1-i))
		v.I = append(v.I, g3("i"))
		v.L = append(v.L, vhSl16("l", i+1))
	}
	v.F = [2]vIn3{g3("f"), g3("f")}
	if k != 1 {
		g := g1("g", k)
		v.G = &g
		h := g3("h")
		v.H = &h
	}
	v.J = g3("j")
	v.K = g2("k", 1)
	v.M = [2]vIn1{g1("m", k), g1("m", 0)}
}
func (s *shNest) ref(r *rb) {
	v := &s.v
	v.A.ref(r)
	r.ber(uint64(v.B.size()))
	v.B.ref(r)
	r.u16(uint16(v.C.size()))
	v.C.ref(r)
	r.u8(uint8(len(v.D)))
	for i := range v.D {
		v.D[i].ref(r)
	}
	n := 0
	for i := range v.E {
		n += v.E[i].size()
	}
	r.u16(uint16(n))
	for i := range v.E {
		v.E[i].ref(r)
	}
	v.F[0].ref(r)
	v.F[1].ref(r)
	if v.G == nil {
		r.u8(0)
	} else {
		r.u8(uint8(v.G.size()))
		v.G.ref(r)
	}
	if v.H == nil {
		r.u8(0)
	} else {
		r.u8(1)
		v.H.ref(r)
	}
	r.ber(uint64(11 * len(v.I)))
	for i := range v.I {
		v.I[i].ref(r)
	}
	r.u8(11)
	v.J.ref(r)
	r.u16(1)
	v.K.ref(r)
	r.u32(uint32(len(v.L)))
	for _, l := range v.L {
		r.u32(uint32(len(l)))
		for _, x := range l {
			r.u16(x)
		}
	}
	r.u32(uint32(v.M[0].size() + v.M[1].size()))
	v.M[0].ref(r)
	v.M[1].ref(r)
	r.u32(0)
}
func (s *shNest) val() interface{} { return s.v }
func (s *shNest) ptr() interface{} { return &s.v }
func (s *shNest) fresh() vShape    { return &shNest{} }
func (s *shNest) same(o vShape) bool {
	a, b := &s.v, &o.(*shNest).v
	if len(a.D) != len(b.D) || len(a.E) != len(b.E) || len(a.I) != len(b.I) || len(a.L) != len(b.L) || (a.G == nil) != (b.G == nil) || (a.H == nil) != (b.H == nil) {
		return false
	}
	x := vfAnd(same1(&a.A, &b.A), vfAnd(same1(&a.B, &b.B), same2(&a.C, &b.C)))
	for i := range a.D {
		x = vfAnd(x, same1(&a.D[i], &b.D[i]))
	}
	for i := range a.E {
		x = vfAnd(x, same2(&a.E[i], &b.E[i]))
	}
	for i := range a.I {
		x = vfAnd(x, same3(&a.I[i], &b.I[i]))
	}
	for i := range a.L {
		x = vfAnd(x, vhSame16(a.L[i], b.L[i]))
	}
	for i := range a.F {
		x = vfAnd(x, same3(&a.F[i], &b.F[i]))
	}
	if a.G != nil {
		x = vfAnd(x, same1(a.G, b.G))
	}
	if a.H != nil {
		x = vfAnd(x, same3(a.H, b.H))
	}
	x = vfAnd(x, vfAnd(same3(&a.J, &b.J), same2(&a.K, &b.K)))
	return vfAnd(x, vfAnd(same1(&a.M[0], &b.M[0]), same1(&a.M[1], &b.M[1])))
}
