package sbox

import "github.com/funny-falcon/go-iproto/marshal"

// c23parse is the reference view of a result: the announced total and the tuples which are there completely.
func c23parse(b []byte) (total int, ok bool, tuples [][]byte) {
	le := func(p int) int {
		return int(uint32(b[p]) | uint32(b[p+1])<<8 | uint32(b[p+2])<<16 | uint32(b[p+3])<<24)
	}
	if len(b) < 4 {
		return 0, false, nil
	}
	total = le(0)
	p := 4
	for len(tuples) < 6 && len(tuples) < total && len(b)-p >= 4 {
		sz := le(p)
		if sz+4 > len(b)-p-4 {
			break
		}
		sz = vfConc(sz)
		tuples = append(tuples, b[p+4:p+8+sz])
		p += 8 + sz
	}
	return total, true, tuples
}

// c23fields returns the first max fields of a tuple, when it is well formed.
func c23fields(t []byte, max int) (f [][]byte, ok bool) {
	n := int(uint32(t[0]) | uint32(t[1])<<8 | uint32(t[2])<<16 | uint32(t[3])<<24)
	p := 4
	if n > len(t)-p {
		return nil, false
	}
	for i := 0; i < n; i++ {
		if p >= len(t) || t[p] >= 0x80 {
			return nil, false
		}
		l := int(t[p])
		p++
		if l > len(t)-p {
			return nil, false
		}
		l = vfConc(l)
		if i < max {
			f = append(f, t[p:p+l])
		}
		p += l
	}
	return f, true
}

func c23body() []byte {
	ns := []int{0, 3, 4, 7, 8, 12, 14, 16, 18}
	if vfThorough() {
		ns = []int{0, 1, 3, 4, 5, 7, 8, 11, 12, 13, 14, 15, 16, 18, 20, 22, 24}
	}
	return vfBytesN("body", ns[vfChoose("n", len(ns))])
}

func c23min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// c23counts checks what ReadMany reports for a destination of the given capacity (-1: grows)
func c23counts(read, total int, err error, wtotal int, ok bool, there int, capacity int) {
	vfAssert(total == wtotal || !ok, "the announced total is returned")
	if !ok {
		vfAssert(err != nil && read == 0, "a result without a total is an error")
		return
	}
	want := wtotal
	if capacity >= 0 && want > capacity {
		want = capacity
	}
	vfAssert(read <= total, "no more tuples are read than announced")
	vfAssert(read <= there, "no more tuples are read than there are")
	if there >= want {
		vfAssert(err == nil, "no error when the tuples are there")
		vfAssert(read == want, "every tuple which is there is read")
	} else {
		vfAssert(err != nil, "missing tuples are an error")
	}
}

// slices which grow
// vf: seq concslice
func VF_C23_slices() {
	b := c23body()
	vfAllocMax(400)
	wtotal, ok, tuples := c23parse(b)
	first := func(i int, sz int) ([]byte, bool) {
		f, good := c23fields(tuples[i], 1)
		return append([]byte(nil), flat(f)...), good && len(f) == 1 && (sz < 0 || len(f[0]) == sz)
	}
	var read, total int
	var err error
	n := 0
	rest := true
	switch vfChoose("dest", 7) {
	case 0:
		var d []uint16
		read, total, err = ReadMany(b, &d)
		n = len(d)
		for i := range d {
			if i >= read {
				rest = rest && d[i] == 0
			} else if x, good := first(i, 2); good {
				vfAssert(d[i] == uint16(x[0])|uint16(x[1])<<8, "a tuple is read into its element")
			}
		}
	case 1:
		var d []string
		read, total, err = ReadMany(b, &d)
		n = len(d)
		for i := range d {
			if i >= read {
				rest = rest && d[i] == ""
			} else if x, good := first(i, -1); good {
				vfAssert(vfEqBytes([]byte(d[i]), x), "a tuple is read into its element")
			}
		}
	case 2:
		var d []tIn
		read, total, err = ReadMany(b, &d)
		n = len(d)
		for i := range d {
			if i >= read {
				rest = rest && d[i].X == 0 && len(d[i].Y) == 0
			} else if f, good := c23fields(tuples[i], 2); good && len(f) == 2 && len(f[0]) == 2 {
				vfAssert(d[i].X == uint16(f[0][0])|uint16(f[0][1])<<8 && vfEqBytes(d[i].Y, f[1]), "a tuple is read into its element")
			}
		}
	case 3:
		var d []*tTailB
		read, total, err = ReadMany(b, &d)
		n = len(d)
		for i := range d {
			if i >= read {
				rest = rest && d[i] == nil
			} else if f, good := c23fields(tuples[i], 9); good {
				vfAssert(len(d[i].T) == len(f), "a tuple is read into its element")
				for j := range f {
					vfAssert(vfEqBytes(d[i].T[j], f[j]), "a tuple is read into its element")
				}
			}
		}
	case 4:
		var d [][]byte
		read, total, err = ReadMany(b, &d)
		n = len(d)
		for i := range d {
			if i >= read {
				rest = rest && len(d[i]) == 0
			} else if x, good := first(i, -1); good {
				vfAssert(vfEqBytes(d[i], x), "a tuple is read into its element")
			}
		}
	case 5:
		var d [][]string
		read, total, err = ReadMany(b, &d)
		n = len(d)
		for i := range d {
			if i >= read {
				rest = rest && len(d[i]) == 0
			} else if f, good := c23fields(tuples[i], 9); good {
				vfAssert(len(d[i]) == len(f), "a tuple is read into its element")
				for j := range f {
					vfAssert(vfEqBytes([]byte(d[i][j]), f[j]), "a tuple is read into its element")
				}
			}
		}
	case 6:
		var d [][2]uint8
		read, total, err = ReadMany(b, &d)
		n = len(d)
		for i := range d {
			if i >= read {
				rest = rest && d[i] == [2]uint8{}
			} else if x, good := first(i, 2); good {
				vfAssert(d[i][0] == x[0] && d[i][1] == x[1], "a tuple is read into its element")
			}
		}
	}
	c23counts(read, total, err, wtotal, ok, len(tuples), -1)
	vfAssert(read <= n || n == 0 && read == 0, "as many tuples are reported as were put into the destination")
	vfAssert(err != nil || n == read, "a slice holds exactly the tuples read")
	vfAssert(rest, "elements which were not read stay empty")
	vfReach("end")
}

func flat(f [][]byte) (r []byte) {
	for _, x := range f {
		r = append(r, x...)
	}
	return
}

// destinations of a fixed size
// vf: seq concslice
func VF_C23_fixed() {
	b := c23body()
	vfAllocMax(400)
	wtotal, ok, tuples := c23parse(b)
	var read, total, capacity int
	var err error
	first := func(i int) (string, bool) {
		if i >= len(tuples) || i >= capacity {
			return "", false
		}
		f, good := c23fields(tuples[i], 1)
		return string(flat(f)), good && len(f) == 1
	}
	check := func(i int, s string) {
		if w, good := first(i); good {
			vfAssert(s == w, "a tuple is read into its element")
		} else if i >= read {
			vfAssert(s == "", "elements which were not read stay empty")
		}
	}
	switch vfChoose("dest", 10) {
	case 0:
		var d string
		capacity = 1
		read, total, err = ReadMany(b, &d)
		check(0, d)
	case 1:
		var d [2]string
		capacity = 2
		read, total, err = ReadMany(b, &d)
		check(0, d[0])
		check(1, d[1])
	case 2:
		d := []*string{nil, new(string)}
		capacity = 2
		read, total, err = ReadMany(b, d)
		if d[0] != nil {
			check(0, *d[0])
		} else {
			vfAssert(read == 0, "elements which are read are allocated")
		}
		check(1, *d[1])
	case 3:
		d := make([][]byte, 2)
		capacity = 2
		read, total, err = ReadMany(b, d)
		check(0, string(d[0]))
		check(1, string(d[1]))
	case 4:
		var x, y string
		capacity = 2
		read, total, err = ReadMany(b, []interface{}{&x, &y})
		check(0, x)
		check(1, y)
	case 5:
		var x string
		var y [1]string
		var z []string
		capacity = -1
		read, total, err = ReadMany(b, []interface{}{&x, &y, &z})
		capacity = 99
		check(0, x)
		check(1, y[0])
		for i := range z {
			check(2+i, z[i])
		}
		vfAssert(err != nil || read <= 2 || len(z) == read-2, "a slice holds exactly the tuples read")
		capacity = -1
	case 6:
		var x string
		d := [1]interface{}{&x}
		capacity = 1
		read, total, err = ReadMany(b, d)
		check(0, x)
	case 7:
		var p *string
		capacity = 1
		read, total, err = ReadMany(b, &p)
		if p != nil {
			check(0, *p)
		}
	case 8:
		var x, y string
		d := []interface{}{&x, &y}
		capacity = 2
		read, total, err = ReadMany(b, &d)
		check(0, x)
		check(1, y)
	case 9:
		var d [0]string
		read, total, err = ReadMany(b, &d)
	}
	c23counts(read, total, err, wtotal, ok, len(tuples), capacity)
	vfReach("end")
}

// tuples in destinations of every kind
// vf: seq concslice
func VF_C23_tuple() {
	ns := []int{0, 4, 5, 8, 10, 11, 13}
	if vfThorough() {
		ns = []int{0, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16}
	}
	n := ns[vfChoose("n", len(ns))]
	b := vfBytesN("body", n)
	vfAllocMax(4000)
	var a tAll
	var c tNest
	var d tTail
	var e tTailS
	var f tTailB
	var g tTailIn
	var h tTailP
	var i tSplit
	var j tSplit1
	var k tSplit3
	var l []uint32
	var m [2]uint16
	var o float64
	var p [3]uint8
	var q [][]uint16
	var s **tSplit
	var t []tIn
	var u []*uint32
	var v tBytes
	x, y := new(uint32), new(string)
	w := []interface{}{x, y}
	dst := []interface{}{&a, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m, &o, &p, &q, &s, &t, &u, &v, w, make([]uint32, 2), make([]byte, 3)}
	dest := dst[vfChoose("dest", len(dst))]
	r := &marshal.Reader{Body: b}
	err := ReadRawTuple(r, dest)
	vfAssert((err == nil) == (r.Err == nil), "the error is returned")
	vfAssert(n >= 4 || err != nil, "a tuple without a count is an error")
	vfReach("end")
}

// a sized tuple
// vf: seq concslice
func VF_C23_sized() {
	n := []int{0, 3, 4, 7, 8, 11, 12}[vfChoose("n", 7)]
	b := vfBytesN("body", n)
	r := &marshal.Reader{Body: b}
	var d []string
	var x string
	var err error
	how := vfChoose("dest", 4)
	switch how {
	case 0:
		err = ReadSizedTuple(r, &d)
	case 1:
		err = ReadSizedTuple(r, &x)
	case 2:
		err = ReadSizedTuple(r, nil)
	case 3:
		var t tTail
		err = ReadSizedTuple(r, &t)
	}
	vfAssert((err == nil) == (r.Err == nil), "the error is returned")
	if n < 4 {
		vfAssert(err != nil, "a tuple without a size is an error")
		return
	}
	sz := int(uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24)
	if sz > n-8 {
		vfAssert(err != nil, "a tuple which is cut off is an error")
	} else if err == nil {
		vfAssert(len(r.Body) == n-8-sz, "exactly the tuple is consumed")
	}
	vfReach("end")
}

// vf: seq concslice
func VF_C23_first() {
	b := c23body()
	vfAllocMax(400)
	wtotal, ok, tuples := c23parse(b)
	var d string
	var l []string
	var u tTailS
	how := vfChoose("dest", 4)
	var read bool
	var total int
	var err error
	switch how {
	case 0:
		read, total, err = ReadFirst(b, &d)
	case 1:
		read, total, err = ReadFirst(b, &l)
	case 2:
		read, total, err = ReadFirst(b, &u)
	case 3:
		read, total, err = ReadFirst(b, nil)
	}
	vfAssert(ok || err != nil, "a result without a total is an error")
	vfAssert(!ok || total == wtotal, "the announced total is returned")
	vfAssert(!read || total > 0, "nothing is read from an empty result")
	vfAssert(err != nil || read == (total > 0), "a tuple is read when there is one")
	if ok && total > 0 && len(tuples) == 0 && how != 3 {
		vfAssert(err != nil, "a tuple which is cut off is an error")
	}
	if len(tuples) > 0 {
		f, good := c23fields(tuples[0], 9)
		if how == 0 && good && len(f) > 0 {
			vfAssert(err == nil && vfEqBytes([]byte(d), f[0]), "the first tuple is read")
		}
		if how == 1 && good {
			vfAssert(err == nil && len(l) == len(f), "the first tuple is read")
			for i := range f {
				vfAssert(vfEqBytes([]byte(l[i]), f[i]), "the first tuple is read")
			}
		}
	}
	vfReach("end")
}

// results read one after another do not depend on each other, even when the first is malformed
// vf: seq concslice
func VF_C23_sequence() {
	x := vfU16("x")
	good := &rb{}
	good.u32(2)
	for i := 0; i < 2; i++ {
		good.u32(3)
		good.u32(1)
		good.f16(x + uint16(i))
	}
	read := func() {
		n := []int{0, 3, 4, 8, 12, 13, 15, 16, 17}[vfChoose("n", 9)]
		bad := vfBytesN("body", n)
		vfAllocMax(400)
		var d uint16
		var l []uint16
		switch vfChoose("call", 4) {
		case 0:
			ReadFirst(bad, &d)
		case 1:
			ReadFirst(bad, nil)
		case 2:
			ReadMany(bad, &d)
		case 3:
			ReadMany(bad, &l)
		}
	}
	read()
	var z uint16
	one, total, err := ReadFirst(good.b, &z)
	vfAssert(one && total == 2 && err == nil && z == x, "a good result is read, whatever was read before")
	var l []uint16
	n, total, err := ReadMany(good.b, &l)
	vfAssert(n == 2 && total == 2 && err == nil && len(l) == 2 && l[0] == x && l[1] == x+1, "a good result is read, whatever was read before")
	one, total, err = ReadFirst(good.b, nil)
	vfAssert(total == 2 && err == nil, "a good result is read, whatever was read before")
	vfReach("end")
}

// results read at the same time do not mix
// vf: preempt=1
func VF_C23_concurrent() {
	mk := func(x uint16) []byte {
		r := &rb{}
		r.u32(2)
		for i := 0; i < 2; i++ {
			r.u32(3)
			r.u32(1)
			r.f16(x + uint16(i))
		}
		return r.b
	}
	x, y := vfU16("x"), vfU16("y")
	bx, by := mk(x), mk(y)
	done := make(chan bool)
	var d [2]uint16
	go func() {
		read, total, err := ReadMany(bx, &d)
		vfAssert(read == 2 && total == 2 && err == nil, "the first result")
		done <- true
	}()
	var e []uint16
	var z uint16
	read, total, err := ReadMany(by, &e)
	vfAssert(read == 2 && total == 2 && err == nil, "the second result")
	one, total, err := ReadFirst(by, &z)
	vfAssert(one && total == 2 && err == nil, "the third result")
	<-done
	vfAssert(d[0] == x && d[1] == x+1, "the first result")
	vfAssert(e[0] == y && e[1] == y+1, "the second result")
	vfAssert(z == y, "the third result")
	vfReach("end")
}
