package client

import (
	"net"
	"time"

	"github.com/funny-falcon/go-iproto"
)

// vtimed is a connection which checks the deadline of each operation
type vtimed struct {
	*vconn
	rd, wr   time.Duration
	rdl, wdl time.Time
	reads    int
	written  int
}

func vdeadline(dl time.Time, d time.Duration) {
	if d == 0 {
		vfAssert(dl.IsZero(), "without a time-out an operation has no deadline")
		return
	}
	vfAssert(!dl.IsZero(), "with a time-out every operation has a deadline")
	left := dl.Sub(time.Now())
	vfAssert(left <= d && left > d-time.Millisecond, "an operation ends its time-out after its start")
}

func (c *vtimed) Read(p []byte) (int, error) {
	vdeadline(c.rdl, c.rd)
	c.reads++
	return c.vconn.Read(p)
}

func (c *vtimed) Write(p []byte) (int, error) {
	vdeadline(c.wdl, c.wr)
	c.written++
	return c.vconn.Write(p)
}

func (c *vtimed) SetReadDeadline(t time.Time) error  { c.rdl = t; return nil }
func (c *vtimed) SetWriteDeadline(t time.Time) error { c.wdl = t; return nil }

// vtimeout is no time-out, or any up to some seconds
func vtimeout(name string) time.Duration {
	if vfChoose(name, 2) == 0 {
		return 0
	}
	return time.Duration(vfU32(name)) + 1
}

// the time-outs a client is configured with
// vf: nofree nonative
func VF_C28_client() {
	vn = &vnet{serve: true}
	cfg := ServerConfig{Address: "a:1", ReadTimeout: vtimeout("rd"), WriteTimeout: vtimeout("wr"), DialTimeout: vtimeout("dial"), Connections: 1 + vfChoose("n", 2)}
	ival := []time.Duration{0, -1, 3 * time.Second}[vfChoose("ival", 3)]
	cfg.PingInterval = ival
	var conns []*vtimed
	vn.wrap = func(c *vconn) net.Conn {
		t := &vtimed{vconn: c, rd: cfg.ReadTimeout, wr: cfg.WriteTimeout}
		conns = append(conns, t)
		return t
	}
	serv := cfg.NewServer()
	iproto.Run(serv)
	vfQuiesce()
	want := 5 * time.Second
	if cfg.DialTimeout != 0 {
		want = cfg.DialTimeout
	}
	vfAssert(vn.timeout == want, "a client dials with its time-out")
	vfAssert(len(conns) == cfg.Connections, "a client has the wanted number of connections")
	pings := func() (n int) {
		for _, c := range conns {
			_, k, _ := vparse(c.got)
			n += k
		}
		return
	}
	vfAssert(pings() == len(conns), "a connection is made with a ping")
	step := ival
	if ival == 0 {
		step = time.Second
	} else if ival < 0 {
		step = 20 * time.Minute
	}
	for i := 1; i <= 2; i++ {
		vfClockAdd(int64(step) * 9 / 10)
		vfQuiesce()
		if ival >= 0 {
			vfAssert(pings() == i*len(conns), "a ping is sent every interval")
		}
		vfClockAdd(int64(step) / 10)
		vfQuiesce()
		vfClockAdd(1)
		vfQuiesce()
		if ival >= 0 {
			vfAssert(pings() == (i+1)*len(conns), "a ping is sent every interval")
		} else {
			vfAssert(pings() == len(conns), "no pings are sent without an interval")
		}
	}
	serv.Stop()
	vticks(2)
	vfAssert(vn.open() == 0 && vfLive() == 0, "a stopped client ends")
	vfReach("end")
}
