package server

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
)

var vhErr = errors.New("connection failed")

// vconn is a connection whose far end is the harness.
type vconn struct {
	in     chan []byte // what the client sends; closed at its end
	stop   chan bool   // reading is closed
	rest   []byte
	endErr error

	got     []byte // what the client gets
	writes  int
	failAt  int // write call which fails, from 1
	part    int // bytes it takes before
	failed  bool
	gate    chan bool // when set every write waits for it
	gateRd  chan bool
	closedR int
	closedW int
	closed  int
	late    bool // written after the write side was closed
}

func vnewConn() *vconn {
	return &vconn{in: make(chan []byte, 64), stop: make(chan bool), endErr: io.EOF}
}

func (c *vconn) Read(p []byte) (int, error) {
	if len(c.rest) == 0 {
		select {
		case b, ok := <-c.in:
			if !ok {
				return 0, c.endErr
			}
			c.rest = b
		case <-c.stop:
			return 0, vhErr
		}
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *vconn) Write(p []byte) (int, error) {
	if c.gate != nil {
		<-c.gate
	}
	c.writes++
	c.late = c.late || c.closedW > 0
	if c.failed || c.writes == c.failAt {
		c.failed = true
		k := c.part
		if k > len(p) {
			k = len(p)
		}
		c.part = 0
		c.got = append(c.got, p[:k]...)
		return k, vhErr
	}
	c.got = append(c.got, p...)
	return len(p), nil
}

func (c *vconn) CloseRead() error {
	c.closedR++
	if c.closedR == 1 {
		close(c.stop)
	}
	return nil
}

func (c *vconn) CloseWrite() error    { c.closedW++; return nil }
func (c *vconn) Close() error         { c.closed++; return nil }
func (c *vconn) LocalAddr() net.Addr  { return vaddr{} }
func (c *vconn) RemoteAddr() net.Addr { return vaddr{} }

type vaddr struct{}

func (vaddr) Network() string { return "test" }
func (vaddr) String() string  { return "test" }

var _ nt.NetConn = (*vconn)(nil)

func vu32(x uint32) []byte { return []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)} }

func vle(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

func vframe(msg, id uint32, body []byte) []byte {
	b := append(vu32(msg), vu32(uint32(len(body)))...)
	b = append(b, vu32(id)...)
	return append(b, body...)
}

// vanswer is a response frame
type vanswer struct {
	msg, id, code uint32
	body          []byte
}

// vparse splits what was written into responses
func vparse(b []byte, rc nt.RCType) (res []vanswer, rest []byte) {
	for len(b) >= 12 {
		n := vfConc(int(vle(b[4:])))
		if len(b)-12 < n {
			break
		}
		a := vanswer{msg: vle(b), id: vle(b[8:])}
		body := b[12 : 12+n]
		if a.msg != uint32(iproto.Ping) {
			switch rc {
			case nt.RC4byte:
				vfAssert(n >= 4, "a response carries a return code")
				a.code = vle(body)
				body = body[4:]
			case nt.RC1byte:
				vfAssert(n >= 1, "a response carries a return code")
				a.code = uint32(body[0])
				body = body[1:]
			}
		}
		a.body = body
		res = append(res, a)
		b = b[12+n:]
	}
	return res, b
}

// vserver makes a server for connections the harness makes
func vserver(cfg Config, f func(*iproto.Request)) *Server {
	cfg.EndPoint = iproto.SF(f)
	return cfg.NewServer()
}

// nodl has the rest of the methods of net.Conn
type nodl struct{}

func (nodl) SetDeadline(t time.Time) error      { return nil }
func (nodl) SetReadDeadline(t time.Time) error  { return nil }
func (nodl) SetWriteDeadline(t time.Time) error { return nil }

// vends takes the notification of the end of a connection, as the server does
type vends struct {
	serv *Server
	n    int
	quit chan bool
}

func vdrain(serv *Server) *vends {
	e := &vends{serv: serv, quit: make(chan bool)}
	go func() {
		for {
			select {
			case <-serv.connClosed:
				e.n++
			case <-e.quit:
				return
			}
		}
	}()
	return e
}

// check checks that nothing of the connection is left
func (e *vends) check(c *vconn) {
	vfQuiesce()
	vfAssert(e.n > 0, "the end of a connection is reported")
	vfAssert(!c.late, "nothing is written after the write side is closed")
	close(e.quit)
	vfQuiesce()
	vfAssert(vfLive() == 0, "a connection whose client is gone terminates")
}
