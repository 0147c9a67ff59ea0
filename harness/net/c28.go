package net

import (
	"io"
	"time"

	"github.com/funny-falcon/go-iproto"
)

// vhTimed is a connection which checks the deadline of each operation
type vhTimed struct {
	src      *vhSrc
	rec      *vhRec
	rd, wr   time.Duration
	rdl, wdl time.Time
	reads    int
	slow     int64
}

func vhDeadline(dl time.Time, d time.Duration) {
	if d == 0 {
		vfAssert(dl.IsZero(), "without a time-out an operation has no deadline")
		return
	}
	vfAssert(!dl.IsZero(), "with a time-out every operation has a deadline")
	left := dl.Sub(time.Now())
	vfAssert(left <= d && left > d-time.Millisecond, "an operation ends its time-out after its start")
}

func (c *vhTimed) Read(p []byte) (int, error) {
	vhDeadline(c.rdl, c.rd)
	c.reads++
	vfClockAdd(c.slow)
	return c.src.Read(p)
}

func (c *vhTimed) Write(p []byte) (int, error) {
	vhDeadline(c.wdl, c.wr)
	n, err := c.rec.Write(p)
	vfClockAdd(c.slow)
	return n, err
}

func (c *vhTimed) SetReadDeadline(t time.Time) error  { c.rdl = t; return nil }
func (c *vhTimed) SetWriteDeadline(t time.Time) error { c.wdl = t; return nil }

// vhTimeout is no time-out, or any up to some seconds
func vhTimeout(name string) time.Duration {
	if vfChoose(name, 2) == 0 {
		return 0
	}
	return time.Duration(vfU32(name)) + 1
}

// frames are read in pieces, slowly
// vf: seq nonative
func VF_C28_read() {
	rc := []RCType{RC4byte, RC1byte, RC0byte}[vfChoose("rc", 3)]
	var data []byte
	n := []int{0, 5, 8170, 9000}[vfChoose("n", 4)]
	for i := 0; i < 2; i++ {
		data = append(data, vhU32(5)...)
		data = append(data, vhU32(uint32(n))...)
		data = append(data, vhU32(uint32(i))...)
		data = append(data, make([]byte, n)...)
	}
	cut := vfChoose("cut", 3) * 7
	c := &vhTimed{src: &vhSrc{data: data, end: io.EOF, cuts: []int{cut, 12, len(data) / 2, len(data) - 3}, zero: vfChoose("zero", 2), early: vfBool("early")}, rd: vhTimeout("rd")}
	c.wr = 1
	c.slow = int64(vfU32("slow"))
	var h HeaderReader
	h.Init(c, c.rd, rc)
	how := vfChoose("how", 3)
	for i := 0; i < 3; i++ {
		var err error
		switch how {
		case 0:
			_, err = h.ReadRequest()
		case 1:
			_, err = h.ReadResponse()
		case 2:
			_, err = h.ReadRequest()
			how = 1
		}
		if err != nil {
			break
		}
	}
	vfAssert(c.wdl.IsZero(), "reading does not limit writing")
	vfAssert(c.reads > 2, "everything is read")
	vfReach("end")
}

// frames are written one by one, and collected
// vf: seq nonative
func VF_C28_write() {
	rc := []RCType{RC4byte, RC1byte, RC0byte}[vfChoose("rc", 3)]
	c := &vhTimed{rec: &vhRec{failAt: vfChoose("fail", 4), once: true}, wr: vhTimeout("wr")}
	c.slow = int64(vfU32("slow"))
	var w HeaderWriter
	w.Init(c, c.wr, rc)
	for i := 0; i < 4; i++ {
		switch vfChoose("op", 6) {
		case 0:
			w.WriteRequest(Request{Msg: 5, Id: 6, Body: make([]byte, 10)})
		case 1:
			w.WriteRequest(Request{Msg: 5, Id: 6, Body: make([]byte, 2000)})
		case 2:
			w.WriteRequest(Request{Msg: 5, Id: 6, Body: make([]byte, 5000)})
		case 3:
			w.WriteResponse(Response{Msg: 5, Id: 6, Code: iproto.RcOK, Body: make([]byte, 3000)})
		case 4:
			w.Ping()
		case 5:
			w.Flush()
		}
	}
	w.Flush()
	vfAssert(c.rdl.IsZero(), "writing does not limit reading")
	vfReach("end")
}

// a connection which has no deadlines is used without
// vf: seq
func VF_C28_plain() {
	rec := &vhRec{}
	var w HeaderWriter
	d := time.Duration(vfChoose("d", 2)) * time.Hour
	w.Init(rec, d, RC4byte)
	id := vfU32("id")
	vfAssert(w.WriteRequest(Request{Msg: 5, Id: id, Body: make([]byte, vfChoose("n", 2)*3000)}) == nil && w.Flush() == nil, "a request is written")
	var h HeaderReader
	h.Init(&vhSrc{data: rec.got, max: 1000, end: io.EOF}, d, RC4byte)
	r, err := h.ReadRequest()
	vfAssert(err == nil && r.Id == id, "a request is read")
	vfReach("end")
}
