package iproto

import "time"

// requests sent by several goroutines reach the loop, each sender's in order
// vf: preempt=2 tpreempt=3
func VF_C14_senders() {
	p := &vpoint{}
	handled := 0
	p.take = func(r *Request) {
		if r.SetInFly(nil) {
			handled++
			r.RespondBytes(RetCode(r.Id), r.Body)
		}
	}
	p.Init(p)
	Run(p)
	base := vfU32("base")
	var recs [4]vrec
	var reqs [4]*Request
	for i := range reqs {
		reqs[i] = &Request{Id: base + uint32(i), Responder: &recs[i], Body: vfBytesN("body", 1)}
	}
	go func() {
		p.Send(reqs[2])
		if vfThorough() {
			p.Send(reqs[3])
		}
	}()
	cancel := vfChoose("cancel", 2) == 1
	if cancel {
		go reqs[0].Cancel()
	}
	p.Send(reqs[0])
	p.Send(reqs[1])
	vfQuiesce()
	pos := [4]int{-1, -1, -1, -1}
	for n, r := range p.got {
		for i := range reqs {
			if r == reqs[i] {
				vfAssert(pos[i] < 0, "a request is handed over once")
				pos[i] = n
			}
		}
	}
	n := 3
	if vfThorough() {
		n = 4
	}
	for i := range reqs[:n] {
		c := i == 0 && cancel
		vfAssert(pos[i] >= 0 || c, "a request which was sent is handed over")
		vfAssert(recs[i].n == 1, "every request is answered once")
		vfAssert(recs[i].code == RetCode(base+uint32(i)) || c && recs[i].code == RcCanceled, "every request gets its own answer")
	}
	vfAssert(pos[2] <= pos[3]+len(reqs)*(4-n) && pos[0] < pos[1], "requests of one sender stay in order")
	vfAssert(handled == len(p.got) || cancel, "requests are handed over pending")
	vfReach("end")
}

// more requests than the channel of an end point holds
// vf: nofree steps=60000000 time=300
func VF_C14_overflow() {
	p := &vpoint{gate: make(chan bool, 1)}
	p.Init(p)
	Run(p)
	n := 16*1024 + 1100
	base := vfU32("base")
	reqs := make([]*Request, n)
	recs := make([]vrec, n)
	gone := []int{0, 7, 16*1024 - 1, 16 * 1024, 16*1024 + 1, 16*1024 + 2, 16*1024 + 1025, n - 1}
	kill := gone[vfChoose("gone", len(gone))]
	for i := range reqs {
		reqs[i] = &Request{Id: base + uint32(i), Responder: &recs[i]}
		p.Send(reqs[i])
	}
	reqs[kill].Cancel()
	vfQuiesce()
	p.gate <- true
	close(p.gate)
	vfQuiesce()
	j := 0
	for i := range reqs {
		if i == kill {
			vfAssert(recs[i].n == 1 && recs[i].code == RcCanceled && !reqs[i].SetInFly(nil), "a request completed in the queue is not handed over as pending")
			if j < len(p.got) && p.got[j] == reqs[i] {
				j++
			}
			continue
		}
		vfAssert(j < len(p.got) && p.got[j] == reqs[i], "requests are handed over once, in order")
		vfAssert(reqs[i].Id == base+uint32(i) && reqs[i].IsPending() && recs[i].n == 0, "requests are handed over pending")
		j++
	}
	vfAssert(j == len(p.got), "nothing else is handed over")
	// and the queue works on
	var rec vrec
	r := &Request{Responder: &rec}
	p.Send(r)
	vfQuiesce()
	vfAssert(len(p.got) == j+1 && p.got[j] == r, "the queue works on after an overflow")
	vfReach("end")
}

// what Send refuses
// vf: seq
func VF_C14_refuse() {
	p := &vpoint{}
	p.Init(p)
	rec := &vrec{}
	req := vnewReq(rec)
	vfAssert(!p.Runned() && vhPanics(func() { p.Send(req) }), "an end point which does not run accepts nothing")
	vfAssert(req.State() == RsNew && rec.n == 0, "a refused request is left alone")
	Run(p)
	vfAssert(p.Runned() && p.Standalone(), "an end point knows that it runs")
	vfAssert(vhPanics(func() { Run(p) }), "an end point runs once")
	switch vfChoose("state", 4) {
	case 0:
		req.RespondFail(RetCode(vfU32("code")))
		p.Send(req)
		vfQuiesce()
		vfAssert(len(p.got) == 0 && rec.n == 1, "a completed request is not queued")
	case 1:
		p.Send(req)
		vfAssert(vhPanics(func() { p.Send(req) }), "a request is sent once")
		vfQuiesce()
		vfAssert(len(p.got) == 1, "a request is queued once")
	case 2:
		req.SetPending()
		vfAssert(vhPanics(func() { p.Send(req) }), "a request sent elsewhere is refused")
		vfQuiesce()
		vfAssert(len(p.got) == 0, "a refused request is not queued")
	case 3:
		c := &vpoint{}
		c.Init(c)
		p.RunChild(c)
		vfAssert(vhPanics(func() { c.Send(req) }), "a child takes its requests from its parent only")
		vfAssert(vhPanics(func() { p.RunChild(c) }), "a child runs once")
		vfAssert(req.State() == RsNew && !c.Standalone(), "a refused request is left alone")
	}
	vfReach("end")
}

// the time-out of an end point
// vf: seq
func VF_C14_timeout() {
	d := vfI64("d")
	vfAssume(d < 1<<40)
	p := &vpoint{gate: make(chan bool, 8)}
	p.Timeout = time.Duration(d)
	p.Init(p)
	Run(p)
	vfAssert(p.DefaultTimeout() == time.Duration(d), "the time-out is the one configured")
	recs := [2]vrec{}
	reqs := [2]*Request{}
	own := vfI64("own")
	vfAssume(own > 0 && own < 1<<40)
	for i := range reqs {
		reqs[i] = vnewReq(&recs[i])
		if i == 1 {
			reqs[i].SetTimeout(time.Duration(own))
		}
		p.Send(reqs[i])
	}
	adv := vfI64("adv")
	vfAssume(adv >= 0 && adv < 1<<40 && adv != d && adv != own)
	vfClockAdd(adv)
	vfQuiesce()
	p.gate <- true
	p.gate <- true
	vfQuiesce()
	vfAssert((recs[0].n == 1) == vfAnd(d > 0, adv > d) && (recs[1].n == 1) == (adv > own), "a queued request times out")
	for i := range reqs {
		vfAssert(reqs[i].IsPending() == (recs[i].n == 0), "a request is handed over as pending unless it timed out")
		vfAssert(recs[i].n == 0 || recs[i].code == RcTimeout, "a time-out is reported as such")
	}
	vfReach("end")
}

// a balancer and its children
// vf: preempt=1 tpreempt=2
func VF_C14_balancer() {
	b := &BalancerPoint{}
	b.Init()
	ch := [2]*vpoint{{}, {}}
	for _, c := range ch {
		c.take = func(r *Request) {
			if r.SetInFly(nil) {
				r.RespondBytes(RetCode(r.Id), nil)
			}
		}
		c.Init(c)
	}
	early := vfChoose("early", 3)
	for i := 0; i < early; i++ {
		b.AddChild(ch[i])
	}
	Run(b)
	for i := early; i < 2; i++ {
		b.AddChild(ch[i])
	}
	base := vfU32("base")
	recs := [3]vrec{}
	for i := range recs {
		b.Send(&Request{Id: base + uint32(i), Responder: &recs[i]})
	}
	vfQuiesce()
	for i := range recs {
		vfAssert(recs[i].n == 1 && recs[i].code == RetCode(base+uint32(i)), "every request is handled by one child")
	}
	vfAssert(len(ch[0].got)+len(ch[1].got) == 3 && ch[0].Runned() && ch[1].Runned(), "all children run")
	b.Stop()
	vfQuiesce()
	vfAssert(ch[0].left && ch[1].left, "stopping a balancer stops its children")
	vfReach("end")
}
