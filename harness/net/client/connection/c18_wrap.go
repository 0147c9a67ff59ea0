package connection

import (
	"github.com/funny-falcon/go-iproto"
)

// the counter of ids anywhere: at a border of the table, at the id of pings, wrapping round
// vf: nofree nonative time=300
func VF_C18_wrap() {
	c := vnewConn()
	vdial.conn = c
	c.in <- vping
	errs := make(chan Error, 8)
	ch := make(chan *iproto.Request, 64)
	conn := NewConnection(&CConf{Network: "tcp", Address: "a:1", ConnErr: errs}, 1)
	start := []uint32{0, 0xfd, 0x1fe, 0x7ffffffe, 0xfffffefe, 0xfffffff8, 0xfffffffc, 0xfffffffd, 0xfffffffe}[vfChoose("start", 9)]
	conn.inFly.curId = start
	conn.inFly.lastBig = 0x5555 // the last answer was for another row
	conn.Run(ch)
	n := 5
	recs := make([]vrec, n)
	code := vfU32("code") << 3
	for i := range recs {
		r := &iproto.Request{Msg: iproto.RequestType(5 + i), Responder: &recs[i]}
		r.SetPending()
		ch <- r
	}
	vfQuiesce()
	sent, pings, rest := vparse(c.got)
	vfAssert(len(sent) == n && pings == 1 && len(rest) == 0, "every request is written once")
	for i := range sent {
		vfAssert(sent[i].id != 0 && sent[i].id != iproto.PingRequestId, "a request does not have a reserved id")
		for j := 0; j < i; j++ {
			vfAssert(sent[i].id != sent[j].id, "requests in flight have different ids")
		}
	}
	done := make([]bool, n)
	answers := vfChoose("answers", 3) + 2
	for k := 0; k < answers; k++ {
		i := vfChoose("next", len(sent))
		s := sent[i]
		sent = append(sent[:i:i], sent[i+1:]...)
		c.in <- vanswer(s.msg, s.id, code|(s.msg-5), nil)
		done[s.msg-5] = true
		vfQuiesce()
	}
	if vfChoose("more", 2) == 1 {
		rec := &vrec{}
		r := &iproto.Request{Msg: 50, Responder: rec}
		r.SetPending()
		c.got = nil
		ch <- r
		vfQuiesce()
		more, _, _ := vparse(c.got)
		vfAssert(len(more) == 1 && more[0].id != 0 && more[0].id != iproto.PingRequestId, "a request does not have a reserved id")
		for _, s := range sent {
			vfAssert(s.id != more[0].id, "requests in flight have different ids")
		}
		c.in <- vanswer(50, more[0].id, code|7, nil)
		vfQuiesce()
		vfAssert(rec.n == 1 && uint32(rec.code) == code|7, "an answer is delivered to its request")
	}
	c.end()
	vfQuiesce()
	for i := range recs {
		want := uint32(iproto.RcIOError)
		if done[i] {
			want = code | uint32(i)
		}
		vfAssert(recs[i].n == 1 && uint32(recs[i].code) == want, "an answer is delivered to its request, and a request which is lost fails")
	}
	vfAssert(vfLive() == 0, "a connection which is lost leaves nothing behind")
	vfReach("end")
}

// an answer arrives while the table of requests grows, or gives a row back
// vf: preempt=1 tpreempt=2 nonative time=300
func VF_C18_grow() {
	c := vnewConn()
	vdial.conn = c
	c.in <- vping
	errs := make(chan Error, 8)
	ch := make(chan *iproto.Request, 64)
	conn := NewConnection(&CConf{Network: "tcp", Address: "a:1", ConnErr: errs}, 1)
	if vfChoose("row", 2) == 0 {
		conn.inFly.curId = 0xfd
		conn.inFly.cur.freed = 253 // all the others were answered
	} else {
		conn.inFly.curId = 0x1fd
	}
	recs := make([]vrec, 4)
	code := vfU32("code") << 3
	reqs := make([]*iproto.Request, 4)
	for i := range recs {
		reqs[i] = &iproto.Request{Msg: iproto.RequestType(5 + i), Responder: &recs[i]}
		reqs[i].SetPending()
	}
	ch <- reqs[0]
	ch <- reqs[1]
	conn.Run(ch)
	vfQuiesce()
	sent, _, _ := vparse(c.got)
	c.got = nil
	ch <- reqs[2]
	ch <- reqs[3]
	for _, s := range sent {
		c.in <- vanswer(s.msg, s.id, code|(s.msg-5), nil)
	}
	vfQuiesce()
	more, _, _ := vparse(c.got)
	for _, s := range more {
		c.in <- vanswer(s.msg, s.id, code|(s.msg-5), nil)
	}
	vfQuiesce()
	for i := range recs {
		vfAssert(recs[i].n == 1 && uint32(recs[i].code) == code|uint32(i), "an answer is delivered to its request")
	}
	vfReach("end")
}
