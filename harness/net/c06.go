package net

import (
	"io"
	"time"

	"github.com/funny-falcon/go-iproto"
)

// vhCut makes a source which splits data in an arbitrary way (two cuts anywhere, or small pieces)
func vhCut(data []byte) *vhSrc {
	s := &vhSrc{data: data, end: io.EOF}
	switch vfChoose("split", 3) {
	case 0:
		a := vfChoose("cut1", len(data)+1)
		s.cuts = []int{a, a + vfChoose("cut2", len(data)+1-a)}
	case 1:
		s.max = 1 + vfChoose("piece", 5)
	case 2:
		s.max = 1 + vfChoose("piece", 3)*3
		s.zero = 1
		s.early = true
	}
	return s
}

// vf: seq
func VF_C06_requests() {
	rec := &vhRec{}
	var w HeaderWriter
	rc := []RCType{RC4byte, RC1byte, RC0byte}[vfChoose("rc", 3)]
	w.Init(rec, 0, rc)
	var reqs []Request
	k := 2
	if vfThorough() {
		k = 3
	}
	for i := 0; i < k; i++ {
		r := Request{Msg: iproto.RequestType(vfU32("msg")), Id: vfU32("id"), Body: vhBody("body", vfChoose("len", 4))}
		vfAssert(w.WriteRequest(r) == nil, "written")
		reqs = append(reqs, r)
	}
	vfAssert(w.Flush() == nil, "flushed")
	var h HeaderReader
	h.Init(vhCut(rec.got), 0, rc)
	for i := range reqs {
		r, err := h.ReadRequest()
		vfAssert(err == nil, "a request which was written is read")
		vfAssert(r.Msg == reqs[i].Msg && r.Id == reqs[i].Id, "type and id of the request")
		vfAssert(vfEqBytes(r.Body, reqs[i].Body), "body of the request")
	}
	_, err := h.ReadRequest()
	vfAssert(err != nil, "nothing more")
	vfReach("end")
}

func vhCode(rc RCType, c iproto.RetCode) iproto.RetCode {
	switch rc {
	case RC1byte:
		return c & 0xff
	case RC0byte:
		return iproto.RcOK
	}
	return c
}

// vf: seq
func VF_C06_responses() {
	rec := &vhRec{}
	var w HeaderWriter
	rc := []RCType{RC4byte, RC1byte, RC0byte}[vfChoose("rc", 3)]
	w.Init(rec, 0, rc)
	var ress []Response
	for i := 0; i < 2; i++ {
		r := Response{Msg: iproto.RequestType(vfU32("msg")), Id: vfU32("id"), Code: iproto.RetCode(vfU32("code")), Body: vhBody("body", vfChoose("len", 4))}
		if r.Msg == iproto.Ping {
			vfAssume(len(r.Body) == 0)
		}
		vfAssert(w.WriteResponse(r) == nil, "written")
		ress = append(ress, r)
	}
	vfAssert(w.Flush() == nil, "flushed")
	var h HeaderReader
	h.Init(vhCut(rec.got), 0, rc)
	for i := range ress {
		r, err := h.ReadResponse()
		vfAssert(err == nil, "a response which was written is read")
		vfAssert(r.Msg == ress[i].Msg && r.Id == ress[i].Id, "type and id of the response")
		if r.Msg == iproto.Ping {
			vfAssert(len(r.Body) == 0, "a ping has no body")
			continue
		}
		vfAssert(r.Code == vhCode(rc, ress[i].Code), "code of the response")
		vfAssert(vfEqBytes(r.Body, ress[i].Body), "body of the response")
	}
	_, err := h.ReadResponse()
	vfAssert(err != nil, "nothing more")
	vfReach("end")
}

// pings among other frames, in both directions
// vf: seq
func VF_C06_pings() {
	rc := []RCType{RC4byte, RC1byte, RC0byte}[vfChoose("rc", 3)]
	rec := &vhRec{}
	var w HeaderWriter
	w.Init(rec, 0, rc)
	msg, id, code := iproto.RequestType(vfU32("msg")), vfU32("id"), iproto.RetCode(vfU32("code"))
	vfAssume(msg != iproto.Ping)
	body := vhBody("body", vfChoose("len", 3))
	first := vfChoose("first", 2) == 1
	dir := vfChoose("dir", 2)
	put := func(ping bool) {
		switch {
		case ping && dir == 0:
			vfAssert(w.Ping() == nil, "written")
		case ping:
			vfAssert(w.WriteResponse(Response{Msg: iproto.Ping, Id: iproto.PingRequestId, Code: code}) == nil, "written")
		case dir == 0:
			vfAssert(w.WriteRequest(Request{Msg: msg, Id: id, Body: body}) == nil, "written")
		default:
			vfAssert(w.WriteResponse(Response{Msg: msg, Id: id, Code: code, Body: body}) == nil, "written")
		}
	}
	put(first)
	put(!first)
	vfAssert(w.Flush() == nil, "flushed")
	var h HeaderReader
	h.Init(vhCut(rec.got), 0, rc)
	for i := 0; i < 2; i++ {
		isPing := first == (i == 0)
		if isPing && vfChoose("readping", 2) == 1 {
			vfAssert(h.ReadPing() == nil, "a ping is read as a ping")
			continue
		}
		var m iproto.RequestType
		var d uint32
		var b []byte
		c := code
		var err error
		if dir == 0 {
			var r Request
			r, err = h.ReadRequest()
			m, d, b = r.Msg, r.Id, r.Body
		} else {
			var r Response
			r, err = h.ReadResponse()
			m, d, b, c = r.Msg, r.Id, r.Body, r.Code
		}
		vfAssert(err == nil, "a frame which was written is read")
		if isPing {
			vfAssert(m == iproto.Ping && d == iproto.PingRequestId && len(b) == 0, "a ping is read as a ping")
		} else {
			vfAssert(m == msg && d == id && vfEqBytes(b, body), "the frame")
			vfAssert(dir == 0 || c == vhCode(rc, code), "the code")
		}
	}
	vfReach("end")
}

// anything but a ping is refused as a ping
// vf: seq
func VF_C06_notping() {
	msg, id := vfU32("msg"), vfU32("id")
	data := append(append(vhU32(msg), 0, 0, 0, 0), vhU32(id)...)
	var h HeaderReader
	h.Init(&vhSrc{data: data, end: io.EOF}, 0, RC4byte)
	err := h.ReadPing()
	vfAssert((err == nil) == (msg == uint32(iproto.Ping) && id == iproto.PingRequestId), "only a ping is a ping")
	vfReach("end")
}

// bodies around the sizes of the buffers
// vf: seq
func VF_C06_large() {
	sizes := []int{0, 1011, 1012, 1013, 1024, 1025, 3060, 4083, 4084, 4085, 4096, 8191}
	rc := []RCType{RC4byte, RC1byte, RC0byte}[vfChoose("rc", 3)]
	rec := &vhRec{}
	var w HeaderWriter
	w.Init(rec, time.Duration(vfChoose("timeout", 2))*time.Second, rc)
	code := vfU32("code")
	n := 2
	if vfThorough() {
		n = 3
	}
	var bodies [][]byte
	for i := 0; i < n; i++ {
		b := vhBody("b", sizes[vfChoose("n", len(sizes))])
		bodies = append(bodies, b)
		vfAssert(w.WriteResponse(Response{Msg: 5, Id: uint32(i), Code: iproto.RetCode(code), Body: b}) == nil, "written")
	}
	vfAssert(w.Flush() == nil, "flushed")
	var h HeaderReader
	h.Init(&vhSrc{data: rec.got, end: io.EOF, max: []int{0, 1460}[vfChoose("max", 2)]}, 0, rc)
	for i := range bodies {
		r, err := h.ReadResponse()
		vfAssert(err == nil && r.Id == uint32(i) && r.Msg == 5, "a response which was written is read")
		vfAssert(r.Code == vhCode(rc, iproto.RetCode(code)) && vfEqBytes(r.Body, bodies[i]), "code and body")
	}
	_, err := h.ReadResponse()
	vfAssert(err == io.EOF, "nothing more")
	vfReach("end")
}

// a response too short for its code
// vf: seq
func VF_C06_shortcode() {
	rc := []RCType{RC4byte, RC1byte}[vfChoose("rc", 2)]
	n := vfChoose("n", 4)
	body := vfBytesN("body", n)
	data := append(append(append([]byte{1, 0, 0, 0, byte(n), 0, 0, 0}, 9, 0, 0, 0), body...), 2, 0, 0, 0, 4, 0, 0, 0, 8, 0, 0, 0, 1, 0, 0, 0)
	var h HeaderReader
	h.Init(&vhSrc{data: data, end: io.EOF}, 0, rc)
	r, err := h.ReadResponse()
	vfAssert(err == nil && r.Id == 9, "the frame is read")
	if n < 4 && rc == RC4byte || n == 0 {
		vfAssert(r.Code == iproto.RcProtocolError, "a body without a code is a protocol error")
	}
	r, err = h.ReadResponse()
	vfAssert(err == nil && r.Id == 8 && r.Code&0xff == 1, "the next frame is not disturbed")
	vfReach("end")
}

// frames reach the peer only complete and in order when the connection fails
// vf: seq
func VF_C06_writefail() {
	rec := &vhRec{failAt: 1, part: vfChoose("part", 40)}
	var w HeaderWriter
	w.Init(rec, 0, RC4byte)
	b := vhBody("b", 2)
	e1 := w.WriteRequest(Request{Msg: 3, Id: 4, Body: b})
	e2 := w.WriteRequest(Request{Msg: 5, Id: 6, Body: b})
	e3 := w.Flush()
	vfAssert(e1 != nil || e2 != nil || e3 != nil, "the failure is reported")
	var h HeaderReader
	h.Init(&vhSrc{data: rec.got, end: io.EOF}, 0, RC4byte)
	r, err := h.ReadRequest()
	vfAssert((err == nil) == (len(rec.got) >= 14), "only complete frames are read")
	if err == nil {
		vfAssert(r.Msg == 3 && r.Id == 4 && vfEqBytes(r.Body, b), "the first frame")
	}
	vfReach("end")
}
