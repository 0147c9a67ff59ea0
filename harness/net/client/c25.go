package client

import (
	"github.com/funny-falcon/go-iproto"
)

// the wanted number of connections, through losses, failures and changes of it
// vf: nofree nonative time=300
func VF_C25_connections() {
	vn = &vnet{serve: true}
	n := vfChoose("n", 4)
	cfg := ServerConfig{Address: "a:1", Connections: n, PingInterval: -1}
	want := n
	if n == 0 {
		want = 1
	}
	vn.refuse = vfChoose("refuse", 2) == 1
	serv := cfg.NewServer()
	iproto.Run(serv)
	vfQuiesce()
	vticks(1)
	if vn.refuse {
		vfAssert(vn.open() == 0 && !serv.AnyConnected(), "connections which can not be made are not")
		vn.refuse = false
		vticks(2)
	}
	vfAssert(vn.open() == want && serv.AnyConnected(), "a client has the wanted number of connections")
	for _, a := range vn.addrs {
		vfAssert(a == "tcp!a:1", "a client dials its address")
	}
	for step := 0; step < 2; step++ {
		switch vfChoose("what", 4) {
		case 0: // the far end closes some
			k := vfChoose("k", 2) + 1
			for _, c := range vn.conns {
				if k > 0 && !c.inEnd {
					k--
					c.end()
				}
			}
		case 1, 2: // another number is wanted
			want = vfChoose("want", 5)
			serv.SetConnections(want)
		case 3:
		}
		vfQuiesce()
		vticks(2)
		vfAssert(vn.open() == want, "a client keeps the wanted number of connections")
		vfAssert(serv.AnyConnected() == (want > 0), "a client knows whether it has a connection")
	}
	serv.Stop()
	vfQuiesce()
	vticks(2)
	vfAssert(vn.open() == 0, "a stopped client closes its connections")
	vfAssert(vfLive() == 0, "a stopped client ends")
	vfReach("end")
}

// stopping at any time
// vf: preempt=1 tpreempt=1 delays=2 tdelays=3 nonative time=300
func VF_C25_stop() {
	vn = &vnet{serve: true}
	n := vfChoose("n", 2) + 1
	cfg := ServerConfig{Network: "unix", Address: "/s", Connections: n, PingInterval: -1}
	serv := cfg.NewServer()
	when := vfChoose("when", 4)
	if when == 1 {
		vn.gate = make(chan bool)
	}
	if when == 2 {
		vn.refuse = true
	}
	iproto.Run(serv)
	if when != 3 {
		vfQuiesce()
	}
	serv.Stop()
	vfQuiesce()
	vticks(2)
	if when == 1 {
		close(vn.gate)
		vfQuiesce()
		vticks(2)
	}
	vfAssert(vn.open() == 0, "a stopped client closes its connections")
	vfAssert(vfLive() == 0, "a stopped client ends")
	k := len(vn.addrs)
	vticks(2)
	vfAssert(len(vn.addrs) == k, "a stopped client does not dial")
	vfReach("end")
}

// requests through a client
// vf: nofree nonative time=300
func VF_C25_requests() {
	vn = &vnet{serve: true}
	n := vfChoose("n", 4) + 1
	cfg := ServerConfig{Address: "a:1", Connections: n, PingInterval: -1}
	serv := cfg.NewServer()
	iproto.Run(serv)
	vfQuiesce()
	k := 6
	recs := make([]vrec, k)
	body := vfBytesN("b", 2)
	code := vfU32("code") << 3
	for i := range recs {
		serv.Send(&iproto.Request{Msg: iproto.RequestType(5 + i), Body: body, Responder: &recs[i]})
	}
	vfQuiesce()
	answer := vfChoose("answer", k+1)
	got := make([]int, k)
	for _, c := range vn.conns {
		sent, _, rest := vparse(c.got)
		vfAssert(len(rest) == 0, "requests are written whole")
		for _, s := range sent {
			vfAssert(s.msg >= 5 && int(s.msg) < 5+k && vfEqBytes(s.body, body), "a request is written as it is")
			i := int(s.msg) - 5
			got[i]++
			if i < answer {
				c.send(vanswer(s.msg, s.id, code|uint32(i&7), body[:i%3]))
			}
		}
	}
	vfQuiesce()
	how := vfChoose("how", 3)
	fail := iproto.RcShutdown
	switch how {
	case 0:
		serv.Stop()
	case 1:
		fail = iproto.RcIOError
		for _, c := range vn.conns {
			c.end()
		}
	case 2:
		fail = iproto.RcIOError
		vn.serve = false
		for _, c := range vn.conns {
			c.endErr = vhErr
			c.end()
		}
	}
	vfQuiesce()
	vticks(3)
	for i := range recs {
		vfAssert(got[i] == 1, "a request is written once")
		if i < answer {
			vfAssert(recs[i].n == 1 && uint32(recs[i].code) == code|uint32(i&7) && vfEqBytes(recs[i].body, body[:i%3]), "an answer is delivered to its request")
		} else {
			vfAssert(recs[i].n == 1 && recs[i].code == fail, "a request which is lost with its connection fails once")
		}
	}
	if how > 0 {
		vfAssert(vn.open() == n, "a client keeps the wanted number of connections")
		serv.Stop()
		vticks(2)
	}
	vfAssert(vn.open() == 0 && vfLive() == 0, "a stopped client ends")
	vfReach("end")
}

// requests while there is no connection
// vf: nofree nonative time=300
func VF_C25_offline() {
	vn = &vnet{serve: true, refuse: true}
	cfg := ServerConfig{Address: "a:1", PingInterval: -1}
	serv := cfg.NewServer()
	iproto.Run(serv)
	vfQuiesce()
	recs := [2]vrec{}
	serv.Send(&iproto.Request{Msg: 5, Responder: &recs[0]})
	serv.Send(&iproto.Request{Msg: 6, Responder: &recs[1]})
	vfQuiesce()
	how := vfChoose("how", 3)
	switch how {
	case 0: // the next attempt fails
		vticks(1)
	case 1: // the next attempt succeeds
		vn.refuse = false
		vticks(1)
		sent, _, _ := vparse(vn.conns[0].got)
		vfAssert(len(sent) == 2, "requests which wait are written when there is a connection")
		vn.conns[0].end()
		vfQuiesce()
	case 2:
		serv.Stop()
		vfQuiesce()
	}
	for i := range recs {
		vfAssert(recs[i].n == 1 && (recs[i].code == iproto.RcIOError || how == 2 && recs[i].code == iproto.RcShutdown), "requests which can not be written fail")
	}
	if how < 2 {
		serv.Stop()
	}
	vticks(2)
	vfAssert(vn.open() == 0 && vfLive() == 0, "a stopped client ends")
	vfReach("end")
}

// requests wait while a connection is lost and others are left
// vf: nofree nonative
func VF_C25_queued() {
	vn = &vnet{serve: true}
	n := vfChoose("n", 3) + 1
	cfg := ServerConfig{Address: "a:1", Connections: n, PingInterval: -1}
	serv := cfg.NewServer()
	iproto.Run(serv)
	vfQuiesce()
	vfAssert(vn.open() == n, "a client has the wanted number of connections")
	for _, c := range vn.conns {
		c.gate = make(chan bool)
	}
	k := 6
	recs := make([]vrec, k)
	body := make([]byte, 5000) // too much to be collected
	code := vfU32("code") << 3
	body[7] = vfU8("b")
	for i := range recs {
		serv.Send(&iproto.Request{Msg: iproto.RequestType(5 + i), Body: body, Responder: &recs[i]})
	}
	vfQuiesce()
	dead := vfChoose("dead", n)
	how := vfChoose("how", 2)
	if how == 0 {
		vn.conns[dead].failed = true
		close(vn.conns[dead].gate)
		vfQuiesce()
	}
	vn.conns[dead].end()
	vfQuiesce()
	if n > 1 {
		lost := 0
		for i := range recs {
			if recs[i].n == 1 {
				vfAssert(recs[i].code == iproto.RcIOError, "a request which is lost with its connection fails once")
				lost++
			} else {
				vfAssert(recs[i].n == 0, "a request waits for a connection")
			}
		}
		vfAssert(lost <= 1, "a request which waits is not lost with a connection while there are others")
	}
	if how == 1 {
		vn.conns[dead].failed = true
		close(vn.conns[dead].gate)
		vfQuiesce()
	}
	vticks(2)
	for i, c := range vn.conns {
		if i != dead && c.gate != nil {
			close(c.gate)
		}
	}
	vfQuiesce()
	answered := make([]bool, k)
	for i, c := range vn.conns {
		if i == dead {
			continue
		}
		sent, _, rest := vparse(c.got)
		vfAssert(len(rest) == 0, "requests are written whole")
		for _, s := range sent {
			vfAssert(s.msg >= 5 && int(s.msg) < 5+k && vfEqBytes(s.body, body), "a request is written as it is")
			vfAssert(!answered[s.msg-5], "a request is written once")
			answered[s.msg-5] = true
			c.send(vanswer(s.msg, s.id, code|s.msg, nil))
		}
	}
	vfQuiesce()
	lost := 0
	for i := range recs {
		vfAssert(recs[i].n == 1, "every request is completed once")
		if answered[i] {
			vfAssert(uint32(recs[i].code) == code|uint32(5+i), "an answer is delivered to its request")
		} else {
			vfAssert(recs[i].code == iproto.RcIOError, "a request which is lost with its connection fails once")
			lost++
		}
	}
	vfAssert(n == 1 || lost <= 1, "a request which waits is not lost with a connection while there are others")
	serv.Stop()
	vticks(2)
	vfAssert(vn.open() == 0 && vfLive() == 0, "a stopped client ends")
	vfReach("end")
}
