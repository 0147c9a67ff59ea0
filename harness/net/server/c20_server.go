package server

import (
	"net"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
)

// vlisten is a listener the harness feeds
type vlisten struct {
	conns  chan net.Conn
	closed bool
	fails  int
	addr   string
}

var vlis *vlisten

func (l *vlisten) Accept() (net.Conn, error) {
	if l.fails > 0 {
		l.fails--
		return nil, vhErr
	}
	c, ok := <-l.conns
	if !ok {
		return nil, vhErr
	}
	return c, nil
}

func (l *vlisten) Close() error {
	if !l.closed {
		l.closed = true
		close(l.conns)
	}
	return nil
}
func (l *vlisten) Addr() net.Addr { return vaddr{} }

// vfNetListen takes the place of net.Listen
func vfNetListen(network, addr string) (net.Listener, error) {
	if vlis == nil {
		return nil, vhErr
	}
	vlis.addr = network + addr
	return vlis, nil
}

// vnet is a connection as the network returns it
type vnet struct {
	*vconn
	nodl
}

// a whole server: clients come, ask, and go while it is stopped
// vf: seq nonative time=400
func VF_C20_server() { vserve(vfChoose("clients", 2)) }

// more clients
// vf: nofree nonative time=400
func VF_C20_clients() { vserve(2 + vfChoose("clients", 2)) }

func vserve(n int) {
	cfg := &Config{Network: "tcp", Address: "a:1", RCType: nt.RC4byte}
	var reqs []*iproto.Request
	how := vfChoose("how", 2)
	code := vfU32("code") << 3
	calls := 0
	cfg.EndPoint = iproto.SF(func(r *iproto.Request) {
		calls++
		if how == 0 {
			r.RespondBytes(iproto.RetCode(code), r.Body)
		} else {
			reqs = append(reqs, r)
		}
	})
	vlis = &vlisten{conns: make(chan net.Conn, 4), fails: vfChoose("fails", 2)}
	serv := cfg.NewServer()
	vfAssert(serv.Run() == nil && vlis.addr == "tcpa:1", "a server listens where it is told")
	var cs []*vconn
	b := vfBytesN("b", 3)
	id := uint32(0xfffffffe)
	for i := 0; i < n; i++ {
		c := vnewConn()
		c.in <- vframe(7, id+uint32(i), b[:i])
		cs = append(cs, c)
		vlis.conns <- vnet{vconn: c}
	}
	vfQuiesce()
	vfAssert(calls == n, "requests of every client are served")
	if n > 0 && vfChoose("gone", 2) == 1 {
		close(cs[0].in)
	}
	go func() {
		for _, r := range reqs {
			r.RespondBytes(iproto.RetCode(code), r.Body)
		}
	}()
	serv.Stop()
	<-serv.Running
	vfQuiesce()
	vfAssert(vlis.closed && vfLive() == 0, "a stopped server closes its listener and connections and ends")
	for i, c := range cs {
		res, rest := vparse(c.got, nt.RC4byte)
		vfAssert(len(rest) == 0 && len(res) == 1, "requests which were read are answered before the server ends")
		vfAssert(res[0].id == id+uint32(i) && res[0].msg == 7 && res[0].code == code && vfEqBytes(res[0].body, b[:i]), "every client gets its own answers")
		vfAssert(c.closedW > 0 && !c.late, "connections are closed after the last answer")
	}
	vfReach("end")
}

// a server is not started without its end point or its port
// vf: seq nonative
func VF_C20_norun() {
	vlis = nil
	cfg := &Config{Network: "tcp", Address: "a:1"}
	p := &iproto.BalancerPoint{}
	cfg.EndPoint = iproto.SF(func(r *iproto.Request) {})
	if vfBool("point") {
		cfg.EndPoint = p
		vlis = &vlisten{conns: make(chan net.Conn, 4)}
	}
	vfAssert(cfg.NewServer().Run() != nil, "a server which can not run says so")
	vfQuiesce()
	vfAssert(vfLive() == 0, "a server which can not run does not run")
	vfReach("end")
}
