package marshal

// structures with a tail

type tlI8 struct {
	P uint16
	T []int8 `iproto:"size(no)"`
}

type tlU8 struct {
	P uint16
	T []uint8 `iproto:"cnt(no)"`
}

type tlI16 struct {
	P uint16
	T []int16 `iproto:"size(no)"`
}

type tlU16 struct {
	P uint16
	T []uint16 `iproto:"cnt(no)"`
}

type tlI32 struct {
	P uint16
	T []int32 `iproto:"size(no)"`
}

type tlU32 struct {
	P uint16
	T []uint32 `iproto:"size(no)"`
}

type tlI64 struct {
	P uint16
	T []int64 `iproto:"size(no)"`
}

type tlU64 struct {
	P uint16
	T []uint64 `iproto:"size(no)"`
}

type tlF32 struct {
	P uint16
	T []float32 `iproto:"size(no)"`
}

type tlF64 struct {
	P uint16
	T []float64 `iproto:"size(no)"`
}

type vKidTl struct {
	A vIn1
	T []vIn1 `iproto:"size(no)"`
}

type vStrTl struct {
	A uint32
	T string `iproto:"size(no)"`
}

type vBytTl struct {
	A uint32
	T vBytesT `iproto:"size(no)"`
}

type vN8Tl struct {
	A uint32
	T []vNamed8 `iproto:"size(no)"`
}

type vStrsTl struct {
	A uint32
	T []string `iproto:"cnt(no)"`
}

type vBerTl struct {
	A uint32
	T []uint32 `iproto:"size(no),ber"`
}

type vPtrTl struct {
	A uint32
	T *vIn1 `iproto:"size(no)"`
}

type vStTl struct {
	A uint32
	T vStrTl `iproto:"size(no)"`
}

type vSzTl struct {
	A vStrTl `iproto:"size(i8)"`
	B uint16
}

type vArrTl struct {
	A uint8
	T [2]vIn1 `iproto:"size(no)"`
}

func vhKinds(k int) *shKinds {
	s := &shKinds{}
	v := &s.v
	for i := 0; i < k; i++ {
		v.A = append(v.A, vfI8("a"))
		v.B = append(v.B, vfU8("b"))
		v.C = append(v.C, vfI16("c"))
		v.D = append(v.D, vfU16("d"))
		v.E = append(v.E, vfI32("e"))
		v.F = append(v.F, vfU32("f"))
		v.G = append(v.G, vfI64("g"))
		v.H = append(v.H, vfU64("h"))
		v.I = append(v.I, vhF32("i"))
		v.J = append(v.J, vhF64("j"))
	}
	return s
}
