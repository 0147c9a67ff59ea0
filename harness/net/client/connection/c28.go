package connection

import (
	"time"

	"github.com/funny-falcon/go-iproto"
)

// vtimed is a connection which checks the deadline of each operation
type vtimed struct {
	*vconn
	rd, wr   time.Duration
	rdl, wdl time.Time
	reads    int
	written  int
}

func vdeadline(dl time.Time, d time.Duration) {
	if d == 0 {
		vfAssert(dl.IsZero(), "without a time-out an operation has no deadline")
		return
	}
	vfAssert(!dl.IsZero(), "with a time-out every operation has a deadline")
	left := dl.Sub(time.Now())
	vfAssert(left <= d && left > d-time.Millisecond, "an operation ends its time-out after its start")
}

func (c *vtimed) Read(p []byte) (int, error) {
	vdeadline(c.rdl, c.rd)
	c.reads++
	return c.vconn.Read(p)
}

func (c *vtimed) Write(p []byte) (int, error) {
	vdeadline(c.wdl, c.wr)
	c.written++
	return c.vconn.Write(p)
}

func (c *vtimed) SetReadDeadline(t time.Time) error  { c.rdl = t; return nil }
func (c *vtimed) SetWriteDeadline(t time.Time) error { c.wdl = t; return nil }

// vtimeout is no time-out, or any up to some seconds
func vtimeout(name string) time.Duration {
	if vfChoose(name, 2) == 0 {
		return 0
	}
	return time.Duration(vfU32(name)) + 1
}

// a connection with time-outs
// vf: nofree nonative
func VF_C28_connection() {
	c := &vtimed{vconn: vnewConn(), rd: vtimeout("rd"), wr: vtimeout("wr")}
	vdial.conn = c
	c.in <- vping
	errs := make(chan Error, 8)
	ch := make(chan *iproto.Request, 4)
	conn := NewConnection(&CConf{Network: "tcp", Address: "a:1", ReadTimeout: c.rd, WriteTimeout: c.wr, PingInterval: time.Second, ConnErr: errs}, 1)
	conn.Run(ch)
	slow := int64(vfU16("slow"))
	recs := [3]vrec{}
	for i := range recs {
		r := &iproto.Request{Msg: iproto.RequestType(5 + i), Body: make([]byte, i*1500), Responder: &recs[i]}
		r.SetPending()
		ch <- r
		c.got = nil
		vfQuiesce()
		sent, _, _ := vparse(c.got)
		vfAssert(len(sent) == 1, "a request is written")
		a := vanswer(sent[0].msg, sent[0].id, 0, make([]byte, i*1500))
		c.in <- a[:9]
		vfQuiesce()
		vfClockAdd(slow)
		c.in <- a[9:]
		vfQuiesce()
		vfAssert(recs[i].n == 1 && recs[i].code == iproto.RcOK, "an answer is delivered")
	}
	if vfBool("ping") {
		vfClockAdd(int64(time.Second) + int64(time.Second)/10)
		vfQuiesce()
		c.in <- vping
		vfQuiesce()
	}
	c.end()
	vfQuiesce()
	vover(c.vconn, vcount(errs), true)
	vfAssert(c.reads > 3 && c.written >= 4, "everything is read and written")
	vfReach("end")
}
