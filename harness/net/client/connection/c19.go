package connection

import (
	"time"

	"github.com/funny-falcon/go-iproto"
)

// dialling
// vf: preempt=1 tpreempt=2 nonative
func VF_C19_dial() {
	c := vnewConn()
	how := vfChoose("how", 5)
	bad := vframe(uint32(iproto.Ping), iproto.PingRequestId, nil)
	switch how {
	case 0:
		vdial.conn = nil
		errs := make(chan Error, 8)
		d := time.Duration(vfU32("d"))
		NewConnection(&CConf{Network: "tcp", Address: "a:1", DialTimeout: d, ConnErr: errs}, 1).Run(make(chan *iproto.Request))
		vfQuiesce()
		vfAssert(vdial.n == 1 && vdial.network == "tcp" && vdial.addr == "a:1", "a connection dials its address")
		vfAssert(d == 0 && vdial.timeout > 0 || vdial.timeout == d, "a connection dials with its time-out")
		vover(c, vcount(errs), false)
		vfAssert(vfLive() == 0, "a connection which was not made leaves nothing behind")
		return
	case 1:
		c.failAt = 1
		c.part = vfChoose("part", 12)
	case 2: // not a ping
		x := vfBytesN("x", 4)
		vfAssume(vle(x) != uint32(iproto.Ping))
		copy(bad, x)
	case 3:
		x := vfBytesN("x", 4)
		vfAssume(vle(x) != iproto.PingRequestId)
		copy(bad[8:], x)
	case 4:
		bad = bad[:vfChoose("cut", 12)]
	}
	errs := make(chan Error, 8)
	vdial.conn = c
	c.in <- bad
	c.end()
	conn := NewConnection(&CConf{Network: "tcp", Address: "a:1", ConnErr: errs}, 1)
	ch := make(chan *iproto.Request, 1)
	rec := &vrec{}
	req := &iproto.Request{Msg: 5, Responder: rec}
	req.SetPending()
	ch <- req
	conn.Run(ch)
	vfQuiesce()
	vover(c, vcount(errs), false)
	vfAssert(c.closed, "a connection which fails is closed")
	vfAssert(rec.n == 0 && len(ch) == 1, "a connection which was not made takes no requests")
	vfAssert(vfLive() == 0, "a connection which was not made leaves nothing behind")
	vfReach("end")
}

// the connection ends while requests are written and answered
// vf: preempt=1 tpreempt=2 nonative time=400
func VF_C19_lost() {
	c := vnewConn()
	vdial.conn = c
	c.in <- vping
	n := 2
	recs := make([]vrec, n)
	reqs := make([]*iproto.Request, n)
	errs := make(chan Error, 8)
	ch := make(chan *iproto.Request, 4)
	conn := NewConnection(&CConf{Network: "tcp", Address: "a:1", ConnErr: errs}, 1)
	how := vfChoose("how", 4)
	code := vfU32("code") << 3
	body := vfBytesN("b", 1)
	ans := vanswer(10, 1, code, body)
	cut := len(ans)
	switch how {
	case 1: // the far end goes away after some of the first answer
		cut = []int{0, 5, 12, 16, len(ans)}[vfChoose("cut", 5)]
	case 2: // writing fails
		c.failAt = 2 + vfChoose("at", 2)
		c.part = vfChoose("part", 2) * 13
	case 3: // it is stopped
		c.eofOnW = vfBool("eof")
	}
	for i := range reqs {
		reqs[i] = &iproto.Request{Msg: iproto.RequestType(10 + i), Body: []byte{byte(i)}, Responder: &recs[i]}
		reqs[i].SetPending()
	}
	conn.Run(ch)
	ch <- reqs[0]
	if how == 0 {
		vfQuiesce()
		c.in <- ans
		vfQuiesce()
		vfAssert(recs[0].n == 1, "an answer is delivered")
	}
	ch <- reqs[1]
	switch how {
	case 0: // the far end goes away
		c.end()
	case 1:
		vfQuiesce()
		c.in <- ans[:cut]
		c.end()
	case 2:
		vfQuiesce()
		c.end()
	case 3:
		go conn.Stop()
		if vfBool("answer") {
			vfQuiesce()
			c.send(ans)
		}
		vfQuiesce()
		c.end()
	}
	vfQuiesce()
	sent, _, rest := vparse(c.got)
	k := len(sent)
	if len(rest) > 0 {
		k++
	}
	vover(c, vcount(errs), true)
	vfAssert(vfLive() == 0, "a connection which is lost leaves nothing behind")
	vfAssert(how != 3 && how != 0 || len(rest) == 0, "requests are written whole")
	fail := iproto.RcIOError
	if how == 3 {
		fail = iproto.RcShutdown
	}
	left := len(ch)
	for i := range recs {
		switch {
		case i >= n-left:
			vfAssert(recs[i].n == 0 && reqs[i].IsPending(), "a request which was not taken stays in the queue")
		case recs[i].n == 1 && i == 0 && uint32(recs[0].code) == code && len(recs[0].body) == 1:
			vfAssert(vfEqBytes(recs[0].body, body) && cut == len(ans), "an answer is delivered as it came")
		default:
			vfAssert(recs[i].n == 1 && recs[i].code == fail && len(recs[i].body) == 0, "a request which is lost with its connection fails once")
			vfAssert(i == 1 || how != 0 && (how != 1 || cut < len(ans)), "an answer which came is delivered")
		}
	}
	for i := range sent {
		vfAssert(sent[i].msg == uint32(10+i) && sent[i].id != 0 && sent[i].id != iproto.PingRequestId && vfEqBytes(sent[i].body, []byte{byte(i)}), "a request is written as it is")
	}
	vfReach("end")
}

// pings are sent while the connection is idle, and notice that it is gone
// vf: seq nonative
func VF_C19_ping() {
	c := vnewConn()
	sec := int64(time.Second)
	ival := []int64{1, 5}[vfChoose("ival", 2)] * sec
	conn, errs := vrun(c, time.Duration(ival))
	_ = conn
	vfQuiesce()
	_, pings, _ := vparse(c.got)
	vfAssert(pings == 1, "a connection is made with a ping")
	k := 1 + vfChoose("k", 3)
	for i := 0; i < k; i++ {
		vfClockAdd(ival + sec/10)
		vfQuiesce()
		if vfChoose("answer", 2) == 1 {
			c.in <- vping
		}
		vfQuiesce()
	}
	_, pings, _ = vparse(c.got)
	vfAssert(pings == 1+k, "a ping is sent every interval")
	e := vcount(errs)
	vfAssert(e.dial == 1 && e.read+e.write+e.dialErr == 0, "pings do not disturb the connection")
	c.failAt = c.writes + 1
	vfClockAdd(ival + sec/10)
	vfQuiesce()
	e = vcount(errs)
	vfAssert(e.write == 1, "a ping which fails ends the connection")
	c.end()
	vfQuiesce()
	vfAssert(vfLive() == 0, "a connection which is lost leaves nothing behind")
	vfReach("end")
}

// a request which is cancelled before it is taken, among those which are lost
// vf: nofree nonative
func VF_C19_gone() {
	c := vnewConn()
	vdial.conn = c
	c.in <- vping
	n := vfChoose("n", 4)
	gone := vfChoose("gone", n+1)
	errs := make(chan Error, 8)
	ch := make(chan *iproto.Request, 8)
	conn := NewConnection(&CConf{Network: "tcp", Address: "a:1", ConnErr: errs}, 1)
	conn.Run(ch)
	code := vfU32("code") << 3
	recs := make([]vrec, n+1)
	flush := vfBool("flush")
	answered := -1
	for i := range recs {
		r := &iproto.Request{Msg: iproto.RequestType(10 + i), Responder: &recs[i]}
		r.SetPending()
		if i == gone {
			r.Cancel()
		}
		ch <- r
		if flush {
			vfQuiesce()
		}
	}
	vfQuiesce()
	sent, _, rest := vparse(c.got)
	vfAssert(len(sent) == n && len(rest) == 0, "requests are written whole")
	if n > 0 && vfBool("answer") {
		s := sent[vfChoose("which", n)]
		answered = int(s.msg) - 10
		c.in <- vanswer(s.msg, s.id, code, nil)
		vfQuiesce()
	}
	stop := vfBool("stop")
	if stop {
		conn.Stop()
		vfQuiesce()
	}
	c.end()
	vfQuiesce()
	vover(c, vcount(errs), true)
	vfAssert(vfLive() == 0, "a connection which is lost leaves nothing behind")
	fail := iproto.RcIOError
	if stop {
		fail = iproto.RcShutdown
	}
	for i := range recs {
		want := fail
		switch i {
		case gone:
			want = iproto.RcCanceled
		case answered:
			want = iproto.RetCode(code)
		}
		vfAssert(recs[i].n == 1 && recs[i].code == want, "a request which is lost with its connection fails once")
	}
	vfReach("end")
}

// many requests in flight, over several rows of the table, some of them answered, when the connection is lost
// vf: nofree nonative time=300
func VF_C19_rows() {
	c := vnewConn()
	vdial.conn = c
	c.in <- vping
	errs := make(chan Error, 8)
	ch := make(chan *iproto.Request, 1024)
	conn := NewConnection(&CConf{Network: "tcp", Address: "a:1", ConnErr: errs}, 1)
	conn.Run(ch)
	n := []int{254, 255, 256, 257, 520}[vfChoose("n", 5)]
	code := vfU32("code") << 12
	recs := make([]vrec, n)
	reqs := make([]*iproto.Request, n)
	for i := range recs {
		reqs[i] = &iproto.Request{Msg: iproto.RequestType(5 + i), Responder: &recs[i]}
		reqs[i].SetPending()
		ch <- reqs[i]
	}
	vfQuiesce()
	sent, _, rest := vparse(c.got)
	vfAssert(len(sent) == n && len(rest) == 0, "every request is written once")
	// nothing, the first one, the last one or all but every 100th are answered
	what := vfChoose("answered", 4)
	got := make([]bool, n)
	var a []byte
	for i := range sent {
		switch what {
		case 1:
			got[i] = i == 0
		case 2:
			got[i] = i == n-1
		case 3:
			got[i] = i%100 != 54
		}
		if got[i] {
			a = append(a, vanswer(sent[i].msg, sent[i].id, code|uint32(i), nil)...)
		}
	}
	if len(a) > 0 {
		c.in <- a
		vfQuiesce()
	}
	stop := vfBool("stop")
	if stop {
		conn.Stop()
		vfQuiesce()
	}
	c.end()
	vfQuiesce()
	vover(c, vcount(errs), true)
	vfAssert(vfLive() == 0, "a connection which is lost leaves nothing behind")
	fail := iproto.RcIOError
	if stop {
		fail = iproto.RcShutdown
	}
	for i := range recs {
		want := fail
		if got[i] {
			want = iproto.RetCode(code | uint32(i))
		}
		vfAssert(recs[i].n == 1 && recs[i].code == want, "a request which is lost with its connection fails once")
	}
	vfReach("end")
}
