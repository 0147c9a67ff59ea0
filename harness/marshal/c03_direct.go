package marshal

import "reflect"

// lists of things which are there already: as many as there are, complete, or an error
// vf: seq
func VF_C03_lists() {
	n := vfChoose("n", 9)
	body := vfBytesN("body", n)
	k := vfChoose("k", 3)
	f := vfChoose("kind", 8)
	var a []*vBuf
	var x []uint16
	for i := 0; i < k; i++ {
		a = append(a, &vBuf{make([]byte, 1)})
		x = append(x, 0)
	}
	var l []IReader
	var s []IShortReader
	var g, p []interface{}
	for i := range a {
		l = append(l, vLV{a[i]})
		s = append(s, vSV{a[i]})
		g = append(g, vSV{a[i]})
		p = append(p, &x[i])
	}
	dst := []interface{}{&l, &s, &g, &p, l, s, g, p}[f]
	e := 1
	if f&3 == 3 {
		e = 2
	}
	h := 4
	r := Reader{Body: body}
	var err error
	if f >= 4 {
		h = 0
		if vfBool("tail") {
			err = r.ReadTail(dst)
			vfAssert((err == nil) == (n == e*k), "an error is reported exactly when the value is not complete")
		} else {
			err = r.Read(dst)
			vfAssert((err == nil) == (n >= e*k), "an error is reported exactly when the value is not complete")
		}
	} else {
		err = r.Read(dst)
		c := n >= 4
		if c {
			c = uint32(body[0])|uint32(body[1])<<8|uint32(body[2])<<16|uint32(body[3])<<24 == uint32(k)
		}
		vfAssert((err == nil) == (c && n >= 4+e*k), "an error is reported exactly when the value is not complete")
	}
	if err != nil {
		vfReach("refused")
		return
	}
	vfAssert(len(r.Body) == n-h-e*k, "exactly the value is consumed")
	for i := range a {
		if e == 1 {
			vfAssert(a[i].b[0] == ^body[h+i], "elements are read in order")
		} else {
			vfAssert(x[i] == uint16(body[h+2*i])|uint16(body[h+2*i+1])<<8, "elements are read in order")
		}
	}
	vfReach("end")
}

// every kind of a value, given to be filled as it is
// vf: seq
func VF_C03_values() {
	n := vfChoose("n", 10)
	body := vfBytesN("body", n)
	f := vfChoose("kind", 14)
	v := vScal{}
	s16, ar := []uint16{1, 2}, [3]uint8{}
	var st, sp vIn3
	pp := &sp
	dst := []interface{}{&v.A, &v.B, &v.C, &v.D, &v.E, &v.F, &v.G, &v.H, &v.I, &v.J, &s16, &ar, &st, &pp}[f]
	want := []int{1, 2, 4, 8, 4, 8, 1, 2, 4, 8, 4, 3, -1, -1}[f]
	r := Reader{Body: body}
	how := vfChoose("how", 2)
	var err error
	if how == 0 {
		err = r.ReadValueFixed(reflect.ValueOf(dst).Elem())
	} else {
		err = r.ReadTail(dst)
		if f == 10 {
			want = n &^ 1
		}
	}
	vfAssert(err == r.Err, "the error is reported")
	if want >= 0 {
		ok := n >= want
		if how == 1 {
			ok = n == want || f == 11 && n == 0 && false
		}
		vfAssert((err == nil) == ok, "an error is reported exactly when the value is not complete")
		if err == nil {
			vfAssert(len(r.Body) == n-want, "exactly the value is consumed")
		}
	}
	vfReach("end")
}
