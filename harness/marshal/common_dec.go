package marshal

type d01 struct {
	A []uint16 `iproto:"size(ber)"`
	B uint8
}
type d02 struct {
	A []uint32 `iproto:"size(i8)"`
	B uint8
}
type d03 struct {
	A []uint64 `iproto:"cnt(i64)"`
	B uint8
}
type d04 struct {
	A []int8 `iproto:"cnt(ber)"`
	B uint8
}
type d05 struct {
	A []int16 `iproto:"size(i64)"`
	B uint8
}
type d06 struct {
	A []int32 `iproto:"cnt(i8)"`
	B uint8
}
type d07 struct {
	A []uint8 `iproto:"size(i16)"`
	B string  `iproto:"size(i8)"`
}
type d08 struct {
	A string  `iproto:"cnt(ber)"`
	B []uint8 `iproto:"cnt(i64)"`
}
type d09 struct {
	A string
	B vBytesT
}
type d10 struct {
	A []vNamed8 `iproto:"cnt(ber)"`
	B uint16
}
type d11 struct {
	A vIn1 `iproto:"size(i8)"`
	B uint8
}
type d12 struct {
	A []vIn2 `iproto:"size(i8)"`
	B uint8
}
type d13 struct {
	A []vIn2 `iproto:"cnt(ber)"`
}
type d14 struct {
	A []vIn3 `iproto:"size(ber)"`
	B uint8
}
type d15 struct {
	A *vIn2 `iproto:"size(i8)"`
	B *vIn3 `iproto:"cnt(i8)"`
}
type d16 struct {
	A []string `iproto:"size(i8)"`
	B uint8
}
type d17 struct {
	A []string `iproto:"cnt(i64)"`
}
type d18 struct {
	A [2]uint16 `iproto:"size(ber)"`
	B [2]uint8  `iproto:"cnt(i8)"`
}
type d19 struct {
	A []uint32 `iproto:"size(i8),ber"`
	B uint8
}
type d20 struct {
	A []uint16 `iproto:"cnt(i64),ber"`
	B uint64   `iproto:"ber"`
}
type d21 struct {
	A *[]uint16 `iproto:"size(i8)"`
	B *uint32   `iproto:"size(i8),ber"`
}
type d22 struct {
	A vIn1   `iproto:"size(i64)"`
	B string `iproto:"size(i64)"`
}
type d23 struct {
	A *string `iproto:"size(i64)"`
	B int16   `iproto:"size(i16)"`
}
type d24 struct {
	A [][]uint8 `iproto:"cnt(i8)"`
	B *[]uint64 `iproto:"cnt(i64)"`
}
type d25 struct {
	A float32 `iproto:"size(ber)"`
	B float64
}
type d26 struct {
	A []*vIn3 `iproto:"size(i8)"`
	B uint8
}
