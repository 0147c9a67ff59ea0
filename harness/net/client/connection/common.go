package connection

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
)

var vhErr = errors.New("connection failed")

// vconn is a connection whose far end is the harness.
type vconn struct {
	in     chan []byte // what the server sends; closed at its end
	stop   chan bool   // reading is closed
	rest   []byte
	endErr error

	got     []byte // what the server gets
	writes  int
	failAt  int // write call which fails, from 1
	part    int // bytes it takes before
	failed  bool
	closedR bool
	closedW bool
	closed  bool
	eofOnW  bool // the far end closes when this end does
	inEnd   bool
	onWrite func()
}

func vnewConn() *vconn {
	return &vconn{in: make(chan []byte, 64), stop: make(chan bool), endErr: io.EOF}
}

func (c *vconn) Read(p []byte) (int, error) {
	if len(c.rest) == 0 {
		select {
		case b, ok := <-c.in:
			if !ok {
				return 0, c.endErr
			}
			c.rest = b
		case <-c.stop:
			return 0, vhErr
		}
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *vconn) Write(p []byte) (int, error) {
	c.writes++
	if c.failed || c.closedW || c.writes == c.failAt {
		c.failed = true
		k := c.part
		if k > len(p) {
			k = len(p)
		}
		c.part = 0
		c.got = append(c.got, p[:k]...)
		return k, vhErr
	}
	c.got = append(c.got, p...)
	return len(p), nil
}

func (c *vconn) CloseRead() error {
	if !c.closedR {
		c.closedR = true
		close(c.stop)
	}
	return nil
}

// end is the end of what the far end sends
func (c *vconn) end() {
	if !c.inEnd {
		c.inEnd = true
		close(c.in)
	}
}

func (c *vconn) CloseWrite() error {
	c.closedW = true
	if c.eofOnW {
		c.end()
	}
	return nil
}
func (c *vconn) Close() error                  { c.closed = true; c.CloseWrite(); return c.CloseRead() }
func (c *vconn) LocalAddr() net.Addr           { return vaddr{} }
func (c *vconn) RemoteAddr() net.Addr          { return vaddr{} }
func (c *vconn) SetDeadline(t time.Time) error { return nil }

type vaddr struct{}

func (vaddr) Network() string { return "test" }
func (vaddr) String() string  { return "test" }

var _ nt.NetConn = (*vconn)(nil)

func vu32(x uint32) []byte { return []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)} }

func vle(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

func vframe(msg, id uint32, body []byte) []byte {
	b := append(vu32(msg), vu32(uint32(len(body)))...)
	b = append(b, vu32(id)...)
	return append(b, body...)
}

// vanswer is a response with a code of 4 bytes
func vanswer(msg, id, code uint32, body []byte) []byte {
	return vframe(msg, id, append(vu32(code), body...))
}

var vping = vframe(uint32(iproto.Ping), iproto.PingRequestId, nil)

// vsent is a request frame
type vsent struct {
	msg, id uint32
	body    []byte
}

// vparse splits what was written into requests, without pings
func vparse(b []byte) (res []vsent, pings int, rest []byte) {
	for len(b) >= 12 {
		n := vfConc(int(vle(b[4:])))
		if len(b)-12 < n {
			break
		}
		a := vsent{msg: vle(b), id: vle(b[8:]), body: b[12 : 12+n]}
		if a.msg == uint32(iproto.Ping) {
			vfAssert(a.id == iproto.PingRequestId && n == 0, "a ping has the id of pings")
			pings++
		} else {
			res = append(res, a)
		}
		b = b[12+n:]
	}
	return res, pings, b
}

var vdial struct {
	conn    net.Conn
	network string
	addr    string
	timeout time.Duration
	n       int
}

// vfNetDial takes the place of net.Dialer.Dial
func vfNetDial(d *net.Dialer, network, addr string) (net.Conn, error) {
	vdial.n++
	vdial.network, vdial.addr, vdial.timeout = network, addr, d.Timeout
	if vdial.conn == nil {
		return nil, vhErr
	}
	return vdial.conn, nil
}

// vevents is what a connection reports
type vevents struct {
	dial, dialErr, read, write int
}

// vrun starts a connection to c
func vrun(c *vconn, ping time.Duration) (*Connection, chan Error) {
	errs := make(chan Error, 8)
	vdial.conn = nil
	if c != nil {
		vdial.conn = c
		c.in <- vping
	}
	conn := NewConnection(&CConf{Network: "tcp", Address: "a:1", PingInterval: ping, ConnErr: errs}, 1)
	conn.Run(make(chan *iproto.Request, 8))
	return conn, errs
}

// vcount counts what was reported so far
func vcount(errs chan Error) (e vevents) {
	for len(errs) > 0 {
		switch r := <-errs; {
		case r.When == Dial && r.Error == nil:
			e.dial++
		case r.When == Dial:
			e.dialErr++
		case r.When == Read:
			e.read++
		case r.When == Write:
			e.write++
		}
	}
	return
}

type vrec struct {
	n    int
	code iproto.RetCode
	body []byte
}

func (r *vrec) Respond(res *iproto.Response) {
	r.n++
	r.code, r.body = res.Code, res.Body
}

func (c *vconn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vconn) SetWriteDeadline(t time.Time) error { return nil }

// send sends unless the far end is closed
func (c *vconn) send(b []byte) {
	if !c.inEnd {
		c.in <- b
	}
}

// vover checks a connection which has ended
func vover(c *vconn, e vevents, dialled bool) {
	vfAssert(e.dial+e.dialErr == 1 && (e.dial == 1) == dialled, "the outcome of dialling is reported once")
	if dialled {
		vfAssert(e.read == 1 && e.write == 1, "the loss of each side is reported once")
		vfAssert(c.closedW || c.failed, "a connection which has ended is closed")
	} else {
		vfAssert(e.read == 0 && e.write == 0, "a connection which was not made is not lost")
	}
}
