package marshal

import "reflect"

// a size given to a value which has its own: read when they agree, refused otherwise
// vf: seq
func VF_C04_directsize() {
	n := vfChoose("n", 12)
	body := vfBytesN("body", n)
	f := vfChoose("kind", 16)
	how := vfChoose("how", 2)
	v := vScal{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
	bf, ar := []byte{1, 2, 3}, [3]uint8{1, 2, 3}
	s16 := []uint16{1, 2}
	var st vIn3
	var bs []byte
	ap := &ar
	dst := []interface{}{&v.A, &v.B, &v.C, &v.D, &v.E, &v.F, &v.G, &v.H, &v.I, &v.J, bf, &ar, s16, &bs, &st, &ap}[f]
	want := []int{1, 2, 4, 8, 4, 8, 1, 2, 4, 8, 3, 3, 4, -1, -1, 3}[f]
	r := Reader{Body: body}
	var err error
	if how == 0 {
		err = r.ReadWithSize(dst, (*Reader).IntUint8)
	} else {
		x := reflect.ValueOf(dst)
		if x.Kind() == reflect.Ptr {
			x = x.Elem()
		}
		err = r.ReadValueWithSize(x, (*Reader).IntUint8)
	}
	vfAssert(err == r.Err, "the error is reported")
	if err != nil {
		if n > 0 && (want >= 0 || f == 13) {
			z := int(body[0])
			vfAssert(z > n-1 || z != want && f != 13, "a sized value which is there is read")
		}
		vfReach("refused")
		return
	}
	vfAssert(n > 0, "a size which is not there is an error")
	z := vfConc(int(body[0]))
	vfAssert(z <= n-1 && len(r.Body) == n-1-z, "a sized value consumes its size")
	if f == 15 && z == 0 {
		vfReach("end")
		return
	}
	vfAssert(want < 0 || z == want, "a size which does not fit is an error")
	vfAssert(vfEqBytes(r.Body, body[1+z:]), "a sized value consumes its size")
	if f == 14 {
		return
	}
	w := &Writer{}
	w.WriteTail([]interface{}{v.A, v.B, v.C, v.D, v.E, v.F, v.G, v.H, v.I, v.J, bf, ar[:], s16, bs, st, ar[:]}[f])
	g := w.Written()
	if f == 4 || f == 5 { // a NaN may come out as another one
		vfAssert(len(g) == z, "a sized value is what was there")
	} else {
		vfAssert(vfEqBytes(g, body[1:1+z]), "a sized value is what was there")
	}
	vfReach("end")
}

// what is behind pointers and interfaces, with a size or a count before it and something after it
// vf: seq
func VF_C04_behind() {
	n := vfChoose("n", 9)
	body := vfBytesN("body", n)
	type sz struct {
		I interface{} `iproto:"size(i8)"`
		P *[]uint16   `iproto:"size(i8)"`
		K uint8
	}
	type ct struct {
		I interface{} `iproto:"cnt(i8)"`
		P *[]uint16   `iproto:"cnt(i8)"`
		K uint8
	}
	var i interface{}
	var x32 uint32
	var sl []uint16
	var st string
	counted := vfBool("counted")
	what := vfChoose("what", 7)
	switch what {
	case 1:
		i = &x32
	case 2:
		i = &sl
	case 3:
		i = &st
	case 4:
		sl = []uint16{7, 8}
		i = sl
	case 5:
		i = (*uint32)(nil)
	case 6:
		i = (*string)(nil)
	}
	if counted && (what == 1 || what == 5) {
		return
	}
	var p *[]uint16
	if vfBool("set") {
		p = &[]uint16{1, 2, 3}
	}
	r := Reader{Body: body}
	var err error
	var k uint8
	var j interface{}
	if counted {
		d := &ct{I: i, P: p}
		err = r.Read(d)
		p, k, j = d.P, d.K, d.I
	} else {
		d := &sz{I: i, P: p}
		err = r.Read(d)
		p, k, j = d.P, d.K, d.I
	}
	if err != nil {
		vfReach("refused")
		return
	}
	// where everything has to be
	vfAssert(n >= 3, "a field which is not there is an error")
	z := vfConc(int(body[0]))
	vfAssert(z == 0 || j != nil && what < 5, "there is no place for it")
	m := z
	if counted && (what == 2 || what == 4) {
		m = 2 * z
	}
	vfAssert(what != 1 || z == 0 || z == 4, "a size which does not fit is an error")
	vfAssert(what != 4 || z == 0 || m == 4, "a size which does not fit is an error")
	vfAssert(1+m+1 < n, "a field which is not there is an error")
	y := vfConc(int(body[1+m]))
	q := y
	if counted {
		q = 2 * y
	}
	vfAssert(1+m+1+q < n, "a field which is not there is an error")
	vfAssert(len(r.Body) == n-m-q-3, "a sized field consumes its size")
	vfAssert(k == body[2+m+q], "a field after a sized one is read from its place")
	w := &Writer{}
	if z > 0 {
		switch what {
		case 1:
			w.Write(x32)
		case 2, 4:
			w.WriteTail(sl)
		case 3:
			w.WriteTail(st)
		}
		vfAssert(vfEqBytes(w.Written(), body[1:1+m]), "a sized value is what was there")
	}
	vfAssert((p == nil) == (y == 0), "a pointer is nil when there is nothing for it")
	if p != nil {
		w.WriteTail(*p)
		vfAssert(vfEqBytes(w.Written(), body[2+m:2+m+q]), "a sized value is what was there")
	}
	vfReach("end")
}
