package server

import (
	"time"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
)

// vtimed is a connection which checks the deadline of each operation
type vtimed struct {
	*vconn
	rd, wr   time.Duration
	rdl, wdl time.Time
	reads    int
	written  int
}

func vdeadline(dl time.Time, d time.Duration) {
	if d == 0 {
		vfAssert(dl.IsZero(), "without a time-out an operation has no deadline")
		return
	}
	vfAssert(!dl.IsZero(), "with a time-out every operation has a deadline")
	left := dl.Sub(time.Now())
	vfAssert(left <= d && left > d-time.Millisecond, "an operation ends its time-out after its start")
}

func (c *vtimed) Read(p []byte) (int, error) {
	vdeadline(c.rdl, c.rd)
	c.reads++
	return c.vconn.Read(p)
}

func (c *vtimed) Write(p []byte) (int, error) {
	vdeadline(c.wdl, c.wr)
	c.written++
	return c.vconn.Write(p)
}

func (c *vtimed) SetReadDeadline(t time.Time) error  { c.rdl = t; return nil }
func (c *vtimed) SetWriteDeadline(t time.Time) error { c.wdl = t; return nil }

// vtimeout is no time-out, or any up to some seconds
func vtimeout(name string) time.Duration {
	if vfChoose(name, 2) == 0 {
		return 0
	}
	return time.Duration(vfU32(name)) + 1
}

// a connection with time-outs
// vf: nofree nonative
func VF_C28_server() {
	c := &vtimed{vconn: vnewConn(), rd: vtimeout("rd"), wr: vtimeout("wr")}
	calls := 0
	serv := vserver(Config{ReadTimeout: c.rd, WriteTimeout: c.wr, RCType: nt.RC4byte}, func(r *iproto.Request) {
		calls++
		r.RespondBytes(iproto.RcOK, r.Body)
	})
	e := vdrain(serv)
	NewConnection(serv, c, 1).Run()
	slow := int64(vfU16("slow"))
	n := 3
	for i := 0; i < n; i++ {
		b := vframe(7, uint32(i), make([]byte, i*1500))
		c.in <- b[:9]
		vfQuiesce()
		vfClockAdd(slow)
		c.in <- b[9:]
		vfQuiesce()
	}
	close(c.in)
	vfQuiesce()
	e.check(c.vconn)
	res, rest := vparse(c.got, nt.RC4byte)
	vfAssert(calls == n && len(res) == n && len(rest) == 0, "every request is answered before the connection ends")
	vfAssert(c.reads > n && c.written >= n, "every request is read and answered")
	vfReach("end")
}
