package server

import (
	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
)

// requests which are answered by different goroutines while the client stops sending
// vf: preempt=1 tpreempt=2 time=300
func VF_C20_answers() {
	how := vfChoose("how", 3)
	served := map[uint32]int{}
	n := 2
	var reqs []*iproto.Request
	code := vfU32("code")
	vfAssume(code < 1<<24)
	body := vfBytesN("b", 2)
	ids := []uint32{vfU32("id"), vfU32("id")}
	vfAssume(ids[0] != ids[1])
	in := vfBytesN("in", 2)
	no := func(r *iproto.Request) int {
		if r.Id == ids[0] {
			return 0
		}
		return 1
	}
	ans := func(r *iproto.Request) { r.RespondBytes(iproto.RetCode(code<<8|uint32(no(r))<<4), body) }
	serv := vserver(Config{}, func(r *iproto.Request) {
		vfAssert(r.Id == ids[0] || r.Id == ids[1], "a request is as it was sent")
		vfAssert(uint32(r.Msg) == uint32(7+no(r)) && vfEqBytes(r.Body, in[no(r):]), "a request is as it was sent")
		served[uint32(no(r))]++
		switch how {
		case 0:
			ans(r)
		case 1:
			go ans(r)
		case 2:
			reqs = append(reqs, r)
			if len(reqs) == n {
				go func() {
					ans(reqs[1])
					ans(reqs[0])
				}()
			}
		}
	})
	c := vnewConn()
	e := vdrain(serv)
	b := append(vframe(7, ids[0], in), vframe(8, ids[1], in[1:])...)
	c.in <- b[:13]
	c.in <- b[13:]
	close(c.in)
	NewConnection(serv, c, 1).Run()
	e.check(c)
	res, rest := vparse(c.got, nt.RC4byte)
	vfAssert(len(res) == n && len(rest) == 0, "every request is answered before the connection ends")
	if how == 2 {
		ids[0], ids[1] = ids[1], ids[0]
	}
	x := 0
	if how == 1 && res[0].id != ids[0] {
		x = 1
	}
	for i := range res {
		k := i ^ x
		vfAssert(res[i].id == ids[k], "every request is answered once, in the order of the answers")
		o := uint32(k)
		if how == 2 {
			o = 1 - o
		}
		vfAssert(res[i].msg == 7+o && res[i].code == code<<8|o<<4 && vfEqBytes(res[i].body, body), "the answer is the one of the service")
		vfAssert(served[o] == 1, "a request is served once")
	}
	vfAssert(c.closedW > 0, "the connection is closed after the last answer")
	vfReach("end")
}

// more answers than the outgoing queue holds, while the client does not read
// vf: nofree
func VF_C20_many() {
	n := []int{3, 127, 128, 129, 130, 300}[vfChoose("n", 6)]
	var reqs []*iproto.Request
	serv := vserver(Config{RCType: nt.RC1byte}, func(r *iproto.Request) { reqs = append(reqs, r) })
	c := vnewConn()
	c.gate = make(chan bool)
	e := vdrain(serv)
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, vframe(9, uint32(i), nil)...)
	}
	pings := vfChoose("pings", 2)
	for i := 0; i < pings; i++ {
		b = append(b, vframe(uint32(iproto.Ping), 99, nil)...)
	}
	c.in <- b
	NewConnection(serv, c, 1).Run()
	vfQuiesce()
	vfAssert(len(reqs) == n, "every request is served")
	x := vfU8("x")
	vfAssume(x&7 != 3)
	body := vfBytesN("b", 1)
	half := vfChoose("half", 3) * n / 2
	cont, done := make(chan bool, 1), make(chan bool, 1)
	go func() {
		for i := range reqs {
			if i == half {
				<-cont
			}
			reqs[i].RespondBytes(iproto.RetCode(x), body)
		}
		done <- true
	}()
	vfQuiesce()
	if vfChoose("eof", 2) == 0 {
		close(c.in)
		vfQuiesce()
		close(c.gate)
		vfQuiesce()
		cont <- true
	} else {
		close(c.gate)
		vfQuiesce()
		cont <- true
		vfQuiesce()
		close(c.in)
	}
	vfQuiesce()
	<-done
	e.check(c)
	res, rest := vparse(c.got, nt.RC1byte)
	vfAssert(len(rest) == 0 && len(res) == n+pings, "every request is answered before the connection ends")
	k := 0
	for i := range res {
		if res[i].msg == uint32(iproto.Ping) {
			vfAssert(res[i].id == 99 && len(res[i].body) == 0, "a ping is answered with a ping")
			continue
		}
		vfAssert(res[i].id == uint32(k) && res[i].code == uint32(x) && vfEqBytes(res[i].body, body), "answers are sent in the order they were produced")
		k++
	}
	vfAssert(k == n, "every request is answered once")
	vfReach("end")
}

// the client stops sending when everything is answered, while the writer waits for the connection somewhere
// between the first and the last answer
// vf: nofree
func VF_C20_stall() {
	n := []int{2, 130, 131, 135}[vfChoose("n", 4)]
	big := []int{0, 1, 64, 127, 128, 129, 130}[vfChoose("big", 7)]
	if big >= n {
		return
	}
	tokens := vfChoose("tokens", 4)
	var reqs []*iproto.Request
	serv := vserver(Config{}, func(r *iproto.Request) { reqs = append(reqs, r) })
	c := vnewConn()
	c.gate = make(chan bool, 4)
	e := vdrain(serv)
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, vframe(9, uint32(i), nil)...)
	}
	c.in <- b
	NewConnection(serv, c, 1).Run()
	vfQuiesce()
	vfAssert(len(reqs) == n, "every request is served")
	code := vfU32("code") << 3
	body := vfBytesN("b", 1)
	bigBody := make([]byte, 1100)
	bigBody[1099] = body[0]
	for i := range reqs {
		if i == big {
			reqs[i].RespondBytes(iproto.RetCode(code), bigBody)
		} else {
			reqs[i].RespondBytes(iproto.RetCode(code), body)
		}
		if i == 0 {
			vfQuiesce()
		}
	}
	for i := 0; i < tokens; i++ {
		c.gate <- true
	}
	vfQuiesce()
	close(c.in)
	vfQuiesce()
	close(c.gate)
	e.check(c)
	res, rest := vparse(c.got, nt.RC4byte)
	vfAssert(len(rest) == 0 && len(res) == n, "every request is answered before the connection ends")
	for i := range res {
		vfAssert(res[i].id == uint32(i) && res[i].code == code, "answers are sent in the order they were produced")
		if i == big {
			vfAssert(vfEqBytes(res[i].body, bigBody), "the answer is the one of the service")
		} else {
			vfAssert(vfEqBytes(res[i].body, body), "the answer is the one of the service")
		}
	}
	vfReach("end")
}

// the connection fails while it is written to
// vf: preempt=1 tpreempt=2 time=300
func VF_C20_broken() {
	c := vnewConn()
	c.failAt = 1 + vfChoose("at", 3)
	c.part = vfChoose("part", 3) * 10
	rec := 0
	var reqs []*iproto.Request
	code := vfU32("code")
	vfAssume(code&7 != 3)
	how := vfChoose("how", 2)
	serv := vserver(Config{}, func(r *iproto.Request) {
		rec++
		if how == 0 || r.Id == 1 {
			r.RespondBytes(iproto.RetCode(code), nil)
		} else {
			reqs = append(reqs, r)
		}
	})
	e := vdrain(serv)
	for i := uint32(1); i <= 3; i++ {
		c.in <- vframe(5, i, nil)
	}
	NewConnection(serv, c, 1).Run()
	vfQuiesce()
	if !c.failed {
		close(c.in)
		vfQuiesce()
		for _, r := range reqs {
			r.RespondBytes(iproto.RetCode(code), nil)
		}
	}
	e.check(c)
	res, _ := vparse(c.got, nt.RC4byte)
	for i := range res {
		vfAssert(res[i].id >= 1 && res[i].id <= 3, "only requests are answered")
		vfAssert(res[i].code == code, "the answer is the one of the service")
		for j := 0; j < i; j++ {
			vfAssert(res[i].id != res[j].id, "every request is answered at most once")
		}
	}
	vfAssert(c.failed || len(res) == 3, "every request is answered before the connection ends")
	vfReach("end")
}

// pings while the client does not read, and then fails
// vf: nofree
func VF_C20_pings() {
	n := []int{1, 128, 129, 131, 200}[vfChoose("n", 5)]
	c := vnewConn()
	c.gate = make(chan bool)
	fail := vfChoose("fail", 2) == 1
	if fail {
		c.failAt = 1
	}
	calls := 0
	serv := vserver(Config{}, func(r *iproto.Request) { calls++; r.RespondBytes(0, nil) })
	e := vdrain(serv)
	id := vfU32("id")
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, vframe(uint32(iproto.Ping), id+uint32(i), nil)...)
	}
	c.in <- b
	NewConnection(serv, c, 1).Run()
	vfQuiesce()
	close(c.gate)
	if !fail {
		vfQuiesce()
		close(c.in)
	}
	e.check(c)
	vfAssert(calls == 0, "a ping is not passed to the service")
	if !fail {
		vfAssert(len(c.got) == 12*n, "every ping is answered")
		for i := 0; i < n; i++ {
			vfAssert(vfEqBytes(c.got[12*i:12*i+12], vframe(uint32(iproto.Ping), id+uint32(i), nil)), "a ping is answered with a ping")
		}
	}
	vfReach("end")
}
