package marshal

import "math"

// Reference encoder: the wire layout written down independently of the code under test.
type rb struct{ b []byte }

func (r *rb) u8(x uint8)    { r.b = append(r.b, x) }
func (r *rb) u16(x uint16)  { r.b = append(r.b, byte(x), byte(x>>8)) }
func (r *rb) u32(x uint32)  { r.b = append(r.b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24)) }
func (r *rb) u64(x uint64)  { r.u32(uint32(x)); r.u32(uint32(x >> 32)) }
func (r *rb) f32(x float32) { r.u32(math.Float32bits(x)) }
func (r *rb) f64(x float64) { r.u64(math.Float64bits(x)) }
func (r *rb) ber(x uint64) {
	n := refVarLen(x)
	for i := n - 1; i >= 0; i-- {
		c := byte(x>>(7*uint(i))) & 0x7f
		if i != 0 {
			c |= 0x80
		}
		r.b = append(r.b, c)
	}
}
func (r *rb) str(s string)   { r.b = append(r.b, s...) }
func (r *rb) bytes(s []byte) { r.b = append(r.b, s...) }

func refVarLen(x uint64) int {
	n := 1
	for x >= 0x80 {
		x >>= 7
		n++
	}
	return n
}

func vhF32(name string) float32 {
	b := vfU32(name)
	vfAssume(b>>23&0xff != 0xff) // finite
	return math.Float32frombits(b)
}

func vhF64(name string) float64 {
	b := vfU64(name)
	vfAssume(b>>52&0x7ff != 0x7ff)
	return math.Float64frombits(b)
}

func vhStr(name string, max int) string {
	return vfStringN(name, vfConc(vfIntn(name+".n", 0, max)))
}

// vhDec decodes b with the given function and checks that everything was consumed without an error.
func vhDec(b []byte, p interface{}, tail bool) {
	r := Reader{Body: b}
	var err error
	if tail {
		err = r.ReadTail(p)
	} else {
		err = r.Read(p)
	}
	vfAssert(err == nil && r.Err == nil, "decoding what was encoded reports no error")
	vfAssert(len(r.Body) == 0, "decoding consumes exactly the encoded bytes")
}
