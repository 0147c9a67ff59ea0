package sbox

import (
	"math"

	"github.com/funny-falcon/go-iproto/marshal"
)

// Reference encoder of tuples, written independently of the code under test.
type rb struct{ b []byte }

func (r *rb) u8(x uint8)   { r.b = append(r.b, x) }
func (r *rb) u16(x uint16) { r.b = append(r.b, byte(x), byte(x>>8)) }
func (r *rb) u32(x uint32) { r.b = append(r.b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24)) }
func (r *rb) u64(x uint64) { r.u32(uint32(x)); r.u32(uint32(x >> 32)) }
func (r *rb) ber(x int) {
	if x >= 1<<14 {
		r.u8(0x80 | byte(x>>14))
	}
	if x >= 1<<7 {
		r.u8(0x80 | byte(x>>7))
	}
	r.u8(byte(x) & 0x7f)
}

// fields of one to eight bytes and byte strings
func (r *rb) f8(x uint8)   { r.ber(1); r.u8(x) }
func (r *rb) f16(x uint16) { r.ber(2); r.u16(x) }
func (r *rb) f32(x uint32) { r.ber(4); r.u32(x) }
func (r *rb) f64(x uint64) { r.ber(8); r.u64(x) }
func (r *rb) fs(x string)  { r.ber(len(x)); r.b = append(r.b, x...) }
func (r *rb) fb(x []byte)  { r.ber(len(x)); r.b = append(r.b, x...) }

func vhF32(name string) float32 {
	b := vfU32(name)
	vfAssume(b>>23&0xff != 0xff)
	return math.Float32frombits(b)
}

func vhF64(name string) float64 {
	b := vfU64(name)
	vfAssume(b>>52&0x7ff != 0x7ff)
	return math.Float64frombits(b)
}

func vhStr(name string, max int) string {
	return vfStringN(name, vfConc(vfIntn(name+".n", 0, max)))
}

func vhBytes(name string, max int) []byte {
	return vfBytesN(name, vfConc(vfIntn(name+".n", 0, max)))
}

func vhWrite(i interface{}) []byte {
	w := &marshal.Writer{}
	WriteTuple(w, i)
	return w.Written()
}

// vhRead reads a tuple in one of the possible ways
func vhRead(b []byte, p interface{}) {
	switch vfChoose("how", 3) {
	case 0:
		r := &marshal.Reader{Body: b}
		err := ReadRawTuple(r, p)
		vfAssert(err == nil && r.Err == nil, "a tuple which was written is read without an error")
		vfAssert(len(r.Body) == 0, "the whole tuple is read")
	case 1:
		f := &rb{}
		f.u32(uint32(len(b) - 4))
		f.b = append(f.b, b...)
		f.u8(0xcc)
		r := &marshal.Reader{Body: f.b}
		err := ReadSizedTuple(r, p)
		vfAssert(err == nil && r.Err == nil, "a tuple which was written is read without an error")
		vfAssert(len(r.Body) == 1, "only the tuple is read")
	case 2:
		f := &rb{}
		f.u32(1)
		f.u32(uint32(len(b) - 4))
		f.b = append(f.b, b...)
		read, total, err := ReadFirst(f.b, p)
		vfAssert(read && total == 1 && err == nil, "a tuple which was written is read without an error")
	}
}

// types of tuples

type tIn struct {
	X uint16
	Y []byte
}

type tAll struct {
	A int8
	B uint8
	C int16
	D uint16
	E int32
	F uint32
	G int64
	H uint64
	I float32
	J float64
	K string
	L []byte
	M [3]uint8
}

type tNest struct {
	A []uint32
	B [2]uint16
	C tIn
	D []string
	E *uint32
	F *tIn
	G []tIn
	H [2]tIn
	I tName
}

type tName uint16
type tBytes []byte

type tTail struct {
	A uint32
	T []uint32 `sbox:"tail"`
}
type tTailS struct {
	A string
	b int
	C uint8
	T []string `sbox:"tail"`
}
type tTailB struct {
	T [][]byte `sbox:"tail"`
}
type tTailIn struct {
	Z uint16 `iproto:"skip"`
	A uint16
	T []tIn `sbox:"tail"`
}
type tTailP struct {
	A uint8
	T []*uint16 `sbox:"tail"`
}

type tPair struct {
	a int
	B uint16
	C string
}
type tOne struct{ A uint8 }
type tSplit struct {
	A uint32
	T []tPair `sbox:"tailsplit"`
}
type tSplit1 struct {
	a uint8
	B string
	T []tOne `sbox:"tailsplit"`
}
type tTri struct {
	A uint8
	B []uint16
	C string
}
type tSplit3 struct {
	T []tTri `sbox:"tailsplit"`
}
