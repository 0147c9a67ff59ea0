package sbox

import "github.com/funny-falcon/go-iproto/marshal"

func c22header(s SelectReq, cnt int) *rb {
	r := &rb{}
	r.u32(s.Space)
	r.u32(s.Index)
	r.u32(s.Offset)
	lim := uint64(uint32(s.Limit))
	r.u32(uint32(vfIte(s.Limit >= 0, lim, vfIte(s.Limit == SelectN, uint64(cnt), 1<<31-1))))
	r.u32(uint32(cnt))
	return r
}

type c22u32 uint32
type c22key struct {
	A uint32
	B string
}
type c22list []uint32
type c22any []interface{}
type c22strs []string
type c22bytes []byte

func c22req() SelectReq {
	s := SelectReq{Space: vfU32("space"), Index: vfU32("index"), Offset: vfU32("offset"), Limit: vfI32("limit")}
	vfAssume(s.Limit >= SelectN)
	return s
}

func c22check(s SelectReq, ref *rb) {
	var b []byte
	switch vfChoose("how", 2) {
	case 0:
		b = marshal.Write(s)
	case 1:
		b = marshal.Write(&s)
	}
	vfAssert(vfEqBytes(b, ref.b), "the request follows the documented layout")
	vfReach("end")
}

// number keys of every width in every type that carries them
// vf: seq
func VF_C22_numbers() {
	s := c22req()
	n := vfChoose("n", 4)
	x := make([]uint64, n)
	for i := range x {
		x[i] = vfU64("x")
	}
	ref := c22header(s, n)
	sz := []int{1, 2, 4, 8}[vfChoose("size", 4)]
	for _, v := range x {
		ref.u32(1)
		switch sz {
		case 1:
			ref.f8(uint8(v))
		case 2:
			ref.f16(uint16(v))
		case 4:
			ref.f32(uint32(v))
		case 8:
			ref.f64(v)
		}
	}
	var i8 []int8
	var u8 []interface{}
	var i16 []int16
	var u16 []uint16
	var i32 []int32
	var u32 []uint32
	var i64 []int64
	var u64 []uint64
	var n32 []c22u32
	var p32 []*uint32
	var a32 []interface{}
	var l32 c22list
	var any c22any
	var one [][1]uint64
	for i := range x {
		v := x[i]
		i8 = append(i8, int8(v))
		u8 = append(u8, uint8(v))
		i16 = append(i16, int16(v))
		u16 = append(u16, uint16(v))
		i32 = append(i32, int32(v))
		u32 = append(u32, uint32(v))
		i64 = append(i64, int64(v))
		u64 = append(u64, v)
		n32 = append(n32, c22u32(v))
		w := uint32(v)
		p32 = append(p32, &w)
		a32 = append(a32, []interface{}{w, []uint32{w}, &w, [1]uint32{w}, []interface{}{w}}[vfChoose("elem", 5)])
		l32 = append(l32, w)
		any = append(any, v)
		one = append(one, [1]uint64{v})
	}
	switch sz {
	case 1:
		s.Keys = []interface{}{i8, u8, &i8}[vfChoose("type", 3)]
	case 2:
		s.Keys = []interface{}{i16, u16, &u16}[vfChoose("type", 3)]
	case 4:
		s.Keys = []interface{}{i32, u32, n32, p32, a32, l32, &u32}[vfChoose("type", 7)]
	case 8:
		s.Keys = []interface{}{i64, u64, any, one, &u64, &any}[vfChoose("type", 6)]
	}
	c22check(s, ref)
}

// floats, strings and byte strings
// vf: seq
func VF_C22_strings() {
	s := c22req()
	n := vfChoose("n", 3)
	ref := c22header(s, n)
	var str []string
	var bs [][]byte
	var any []interface{}
	var named []c22bytes
	var tup [][][]byte
	var strs c22strs
	for i := 0; i < n; i++ {
		x := vhStr("x", 2)
		ref.u32(1)
		ref.fs(x)
		str = append(str, x)
		bs = append(bs, []byte(x))
		any = append(any, []interface{}{x, []byte(x), c22bytes(x), []string{x}, [][]byte{[]byte(x)}}[vfChoose("elem", 5)])
		named = append(named, c22bytes(x))
		tup = append(tup, [][]byte{[]byte(x)})
		strs = append(strs, x)
	}
	s.Keys = []interface{}{str, bs, any, named, tup, strs, &str, &bs}[vfChoose("type", 8)]
	c22check(s, ref)
}

// a single key
// vf: seq
func VF_C22_single() {
	s := c22req()
	x := vfU64("x")
	ref := c22header(s, 1)
	ref.u32(1)
	f4 := vhF32("f4")
	f8 := vhF64("f8")
	str := vhStr("s", 3)
	bs := []byte(str)
	var arr [2]uint8
	arr[0], arr[1] = uint8(x), uint8(x>>8)
	u4 := uint32(x)
	switch vfChoose("size", 7) {
	case 0:
		ref.f8(uint8(x))
		s.Keys = []interface{}{uint8(x), int8(x)}[vfChoose("type", 2)]
	case 1:
		ref.f16(uint16(x))
		s.Keys = []interface{}{uint16(x), int16(x)}[vfChoose("type", 2)]
	case 2:
		ref.f32(u4)
		s.Keys = []interface{}{u4, int32(x), c22u32(x), &u4, []uint32{u4}, []interface{}{u4}, [1]uint32{u4}}[vfChoose("type", 7)]
	case 3:
		ref.f64(x)
		s.Keys = []interface{}{x, int64(x)}[vfChoose("type", 2)]
	case 4:
		ref.fs(str)
		s.Keys = []interface{}{str, bs, c22bytes(bs), &bs, &str, []string{str}}[vfChoose("type", 6)]
	case 5:
		ref.fb(arr[:])
		s.Keys = []interface{}{arr, arr[:], &arr, c22bytes(arr[:])}[vfChoose("type", 4)]
	case 6:
		if vfChoose("type", 2) == 0 {
			ref.fb(marshal.Write(f4))
			s.Keys = []interface{}{f4, []float32{f4}}[vfChoose("list", 2)]
		} else {
			ref.fb(marshal.Write(f8))
			s.Keys = []interface{}{f8, []float64{f8}}[vfChoose("list", 2)]
		}
	}
	c22check(s, ref)
}

// keys of several fields
// vf: seq
func VF_C22_composite() {
	s := c22req()
	n := vfChoose("n", 3)
	ref := c22header(s, n)
	var st []c22key
	var sp []*c22key
	var any []interface{}
	var bs [][][]byte
	for i := 0; i < n; i++ {
		k := c22key{vfU32("a"), vhStr("b", 2)}
		ref.u32(2)
		ref.f32(k.A)
		ref.fs(k.B)
		st = append(st, k)
		sp = append(sp, &k)
		any = append(any, []interface{}{k, &k, []interface{}{k.A, k.B}, []interface{}{k.A, []byte(k.B)}, [][]byte{marshal.Write(k.A), []byte(k.B)}}[vfChoose("elem", 5)])
		bs = append(bs, [][]byte{marshal.Write(k.A), []byte(k.B)})
	}
	if n == 1 && vfChoose("alone", 2) == 1 {
		s.Keys = []interface{}{st[0], sp[0]}[vfChoose("type", 2)]
	} else {
		s.Keys = []interface{}{st, sp, any, &st, bs}[vfChoose("type", 5)]
	}
	c22check(s, ref)
}

// vf: seq
func VF_C22_nil() {
	s := c22req()
	ref := c22header(s, 1)
	x := vfU32("x")
	ref.u32(1)
	ref.f32(x)
	s.Keys = []interface{}{nil, x, nil}
	c22check(s, ref)
}

// vf: seq
func VF_C22_store() {
	a, b := vfU32("a"), vhStr("b", 3)
	k := c22key{a, b}
	tup := []interface{}{k, &k, []interface{}{a, b}, []interface{}{a, []byte(b)}, [][]byte{marshal.Write(a), []byte(b)}}[vfChoose("tuple", 5)]
	ret := vfBool("return")
	space := vfU32("space")
	ref := &rb{}
	ref.u32(space)
	fl := uint32(vfIte(ret, 1, 0))
	var got []byte
	if vfChoose("req", 2) == 0 {
		mode := vfU16("mode")
		r := StoreReq{Space: space, Return: ret, Mode: mode, Tuple: tup}
		vfAssert(r.IMsg() == 13, "type of a store request")
		ref.u32(fl | uint32(mode)<<1)
		got = marshal.Write(r)
	} else {
		r := DeleteReq{Space: space, Return: ret, Key: tup}
		vfAssert(r.IMsg() == 21, "type of a delete request")
		ref.u32(fl)
		got = marshal.Write(r)
	}
	ref.u32(2)
	ref.f32(a)
	ref.fs(b)
	vfAssert(vfEqBytes(got, ref.b), "the request follows the documented layout")
	vfAssert(StoreReq{}.IMsg() == 13 && SelectReq{}.IMsg() == 17 && (UpdateReq{}).IMsg() == 19 && (RPCReq{}).IMsg() == 22, "types of requests")
	vfAssert(InsertOrReplace == 0 && Insert == 1 && Replace == 2, "modes")
	vfReach("end")
}

func c22op(i int, ref *rb) Op {
	kinds := []OpKind{OpSet, OpAdd, OpAnd, OpOr, OpXor, OpSplice, OpDelete, OpInsert}
	var k int
	if i == 0 {
		k = vfChoose("kind", 16)
	} else {
		k = vfChoose("kind2", 2) * 3
	}
	o := Op{Field: vfU32("field")}
	ref.u32(o.Field)
	ref.u8(uint8(k & 7))
	if k < 8 {
		o.Op = kinds[k]
	} else {
		o.Op = OpKind(k - 8)
	}
	x := vfU64("val")
	s := vhStr("str", 2)
	u := uint16(x)
	var how int
	if i == 0 {
		how = vfChoose("val", 15)
	} else {
		how = []int{0, 4, 11, 14}[vfChoose("val2", 4)]
	}
	switch how {
	case 0:
		ref.f32(uint32(x))
		o.Val = uint32(x)
	case 1:
		ref.f32(uint32(x))
		o.Val = int32(x)
	case 2:
		ref.f64(x)
		o.Val = x
	case 3:
		ref.f64(x)
		o.Val = int64(x)
	case 4:
		ref.fs(s)
		o.Val = s
	case 5:
		ref.fs(s)
		o.Val = []byte(s)
	case 6:
		ref.f16(u)
		o.Val = u
	case 7:
		ref.f8(uint8(x))
		o.Val = int8(x)
	case 8:
		ref.f16(u)
		o.Val = &u
	case 9:
		ref.fs(s)
		o.Val = c22bytes(s)
	case 10:
		ref.f32(uint32(x))
		o.Val = c22u32(x)
	case 11:
		ref.ber(0)
	case 12:
		sp := &rb{}
		sp.f32(uint32(x))
		sp.f32(uint32(x >> 32))
		sp.fs(s)
		ref.fb(sp.b)
		o.Val = []interface{}{Slice{int32(x), int32(x >> 32), s}, &Slice{int32(x), int32(x >> 32), []byte(s)}}[vfChoose("ptr", 2)]
	case 13:
		sp := &rb{}
		sp.f32(uint32(x))
		sp.f32(uint32(x >> 32))
		sp.fs("")
		ref.fb(sp.b)
		o.Val = Slice{Offset: int32(x), Length: int32(x >> 32)}
	case 14:
		sp := &rb{}
		sp.u32(uint32(x))
		sp.u32(7)
		ref.fb(sp.b)
		o.Val = []uint32{uint32(x), 7}
	}
	return o
}

// vf: seq
func VF_C22_update() {
	a := vfU32("key")
	r := UpdateReq{Space: vfU32("space"), Return: vfBool("return"), Key: a}
	ref := &rb{}
	ref.u32(r.Space)
	ref.u32(uint32(vfIte(r.Return, 1, 0)))
	ref.u32(1)
	ref.f32(a)
	n := vfChoose("n", 3)
	ref.u32(uint32(n))
	for i := 0; i < n; i++ {
		r.Ops = append(r.Ops, c22op(i, ref))
	}
	vfAssert(vfEqBytes(marshal.Write(r), ref.b), "the request follows the documented layout")
	vfReach("end")
}

// vf: seq
func VF_C22_call() {
	r := RPCReq{Name: vhStr("name", 3)}
	ref := &rb{}
	ref.u32(0)
	ref.fs(r.Name)
	n := vfChoose("n", 4)
	ref.u32(uint32(n))
	for i := 0; i < n; i++ {
		r.Args = append(r.Args, vhStr("arg", 2))
		ref.fs(r.Args[i])
	}
	vfAssert(vfEqBytes(marshal.Write(r), ref.b), "the request follows the documented layout")
	long := make([]byte, []int{127, 128, 300}[vfChoose("long", 3)])
	long[len(long)-1] = vfU8("last")
	r = RPCReq{Name: string(long), Args: []string{string(long), "x"}}
	ref = &rb{}
	ref.u32(0)
	ref.fb(long)
	ref.u32(2)
	ref.fb(long)
	ref.fs("x")
	vfAssert(vfEqBytes(marshal.Write(&r), ref.b), "the request follows the documented layout")
	vfReach("end")
}

// requests are encoded the same while others are encoded by other goroutines
// vf: preempt=1
func VF_C22_concurrent() {
	a, b := vfU32("a"), vfU32("b")
	done := make(chan []byte)
	go func() {
		done <- marshal.Write(UpdateReq{Space: 1, Key: a, Ops: []Op{{1, OpAdd, []string{"x", "yz"}}}})
	}()
	q := marshal.Write(SelectReq{Space: 2, Limit: SelectN, Keys: []c22key{{b, "q"}}})
	p := <-done
	ref := c22header(SelectReq{Space: 2, Limit: SelectN}, 1)
	ref.u32(2)
	ref.f32(b)
	ref.fs("q")
	vfAssert(vfEqBytes(q, ref.b), "the select request")
	ref = &rb{}
	ref.u32(1)
	ref.u32(0)
	ref.u32(1)
	ref.f32(a)
	ref.u32(1)
	ref.u32(1)
	ref.u8(1)
	ref.ber(11)
	ref.u32(1)
	ref.b = append(ref.b, 'x')
	ref.u32(2)
	ref.b = append(ref.b, 'y', 'z')
	vfAssert(vfEqBytes(p, ref.b), "the update request")
	vfReach("end")
}
