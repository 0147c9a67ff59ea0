package connection

import (
	"github.com/funny-falcon/go-iproto"
)

// answers in any order, with the ones nobody asked for in between
// vf: nofree nonative time=300
func VF_C18_order() {
	c := vnewConn()
	vdial.conn = c
	c.in <- vping
	errs := make(chan Error, 8)
	ch := make(chan *iproto.Request, 64)
	conn := NewConnection(&CConf{Network: "tcp", Address: "a:1", ConnErr: errs}, 1)
	conn.Run(ch)
	n := 3
	recs := make([]vrec, n)
	code := vfU32("code") << 3
	b := vfBytesN("b", n)
	reqs := make([]*iproto.Request, n)
	for i := range recs {
		reqs[i] = &iproto.Request{Id: 77, Msg: iproto.RequestType(5 + i), Body: []byte{b[i]}, Responder: &recs[i]}
		reqs[i].SetPending()
		ch <- reqs[i]
		if i == 0 && vfChoose("flush", 2) == 1 {
			vfQuiesce()
		}
	}
	gone := vfChoose("gone", n+1)
	if gone < n && vfChoose("early", 2) == 1 {
		reqs[gone].Cancel()
	}
	vfQuiesce()
	if gone < n {
		reqs[gone].Cancel()
	}
	sent, pings, rest := vparse(c.got)
	vfAssert(pings == 1 && len(rest) == 0, "requests are written whole")
	first := map[uint32]int{}
	for i := range sent {
		vfAssert(sent[i].id != 0 && sent[i].id != iproto.PingRequestId, "a request does not have a reserved id")
		for j := 0; j < i; j++ {
			vfAssert(sent[i].id != sent[j].id, "requests in flight have different ids")
		}
		k := int(sent[i].msg) - 5
		vfAssert(k >= 0 && k < n && vfEqBytes(sent[i].body, []byte{b[k]}), "a request is written as it is")
		first[sent[i].msg] = i
	}
	vfAssert(len(sent) == n || gone < n && len(sent) == n-1, "every live request is written once")
	done := make([]bool, n)
	total := len(sent)
	when, what, cut := vfChoose("when", n), vfChoose("stray", 6), vfChoose("cut", 2)*14
	for step := 0; len(sent) > 0; step++ {
		i := vfChoose("next", len(sent))
		s := sent[i]
		sent = append(sent[:i:i], sent[i+1:]...)
		k := int(s.msg) - 5
		a := vanswer(s.msg, s.id, code|uint32(k), []byte{b[k], 9})
		done[k] = true
		stray := 0
		if step == when {
			stray = what
		}
		switch stray {
		case 1: // an id nobody uses
			a = append(vanswer(s.msg, s.id+1000, 1, nil), a...)
		case 2:
			a = append(vanswer(s.msg, 0, 1, nil), a...)
		case 3: // twice
			a = append(a, vanswer(s.msg, s.id, 1, nil)...)
		case 4: // a ping
			a = append(append([]byte{}, vping...), a...)
		case 5: // the next one to be used
			a = append(vanswer(s.msg, uint32(total+1), 1, nil), a...)
		}
		c.in <- a[:cut]
		c.in <- a[cut:]
		vfQuiesce()
		for j := range recs {
			switch {
			case j == gone:
				vfAssert(recs[j].n == 1 && recs[j].code == iproto.RcCanceled, "a request which was cancelled stays so")
			case done[j]:
				vfAssert(recs[j].n == 1 && uint32(recs[j].code) == code|uint32(j) && vfEqBytes(recs[j].body, []byte{b[j], 9}), "an answer is delivered to its request")
			default:
				vfAssert(recs[j].n == 0, "an answer is delivered to no other request")
			}
		}
	}
	// the connection goes on
	rec := &vrec{}
	last := &iproto.Request{Msg: 50, Responder: rec}
	last.SetPending()
	ch <- last
	c.got = nil
	vfQuiesce()
	sent, _, _ = vparse(c.got)
	vfAssert(len(sent) == 1 && sent[0].msg == 50 && sent[0].id != 0, "a connection goes on")
	if vfChoose("lost", 2) == 1 {
		c.end()
		vfQuiesce()
		vfAssert(rec.n == 1 && rec.code == iproto.RcIOError, "a request which is lost with its connection fails once")
	} else {
		c.in <- vanswer(50, sent[0].id, code, nil)
		vfQuiesce()
		vfAssert(rec.n == 1 && uint32(rec.code) == code, "an answer is delivered to its request")
	}
	vfReach("end")
}

// many requests, over several rows of the table
// vf: nofree nonative time=300
func VF_C18_many() {
	c := vnewConn()
	vdial.conn = c
	c.in <- vping
	errs := make(chan Error, 8)
	ch := make(chan *iproto.Request, 1024)
	conn := NewConnection(&CConf{Network: "tcp", Address: "a:1", ConnErr: errs}, 1)
	conn.Run(ch)
	n := []int{254, 255, 256, 257, 520}[vfChoose("n", 5)]
	code := vfU32("code") << 12
	rounds := 2
	back := vfChoose("order", 3)
	for round := 0; round < rounds; round++ {
		recs := make([]vrec, n)
		reqs := make([]*iproto.Request, n)
		for i := range recs {
			reqs[i] = &iproto.Request{Msg: iproto.RequestType(5 + i), Responder: &recs[i]}
			reqs[i].SetPending()
			ch <- reqs[i]
		}
		c.got = nil
		vfQuiesce()
		sent, _, rest := vparse(c.got)
		vfAssert(len(sent) == n && len(rest) == 0, "every request is written once")
		ids := map[uint32]bool{}
		var a []byte
		for i := range sent {
			vfAssert(sent[i].msg == uint32(5+i) && sent[i].id != 0 && sent[i].id != iproto.PingRequestId && !ids[sent[i].id], "requests in flight have different ids")
			ids[sent[i].id] = true
		}
		for i := range sent {
			switch back {
			case 1:
				i = n - 1 - i
			case 2:
				i = (i*7 + n/2) % n
				if n%7 == 0 {
					return
				}
			}
			a = append(a, vanswer(sent[i].msg, sent[i].id, code|uint32(i), nil)...)
		}
		stop := n
		if round == rounds-1 {
			stop = []int{n, n - 1, 5, 0}[vfChoose("stop", 4)]
		}
		c.in <- a[:stop*16]
		vfQuiesce()
		if stop < n {
			c.end()
			vfQuiesce()
		}
		lost := 0
		for i := range recs {
			vfAssert(recs[i].n == 1, "every request is completed once")
			if recs[i].code == iproto.RcIOError {
				lost++
			} else {
				vfAssert(uint32(recs[i].code) == code|uint32(i), "an answer is delivered to its request")
			}
		}
		vfAssert(lost == n-stop, "requests which were answered keep their answers")
	}
	vfReach("end")
}
