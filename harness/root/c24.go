package iproto

import "time"

// functions as services
// vf: seq
func VF_C24_adapters() {
	calls := 0
	var got *Request
	st := uint32(0)
	f := func(r *Request) { calls++; got = r; st = r.State() }
	rec := &vrec{}
	req := vnewReq(rec)
	state := vfChoose("state", 5)
	if state >= 1 {
		req.SetPending()
	}
	if state >= 2 {
		req.SetInFly(nil)
	}
	if state == 3 {
		req.RespondBytes(RetCode(vfU32("c")), nil)
	}
	if state == 4 {
		req.Cancel()
	}
	was, n := req.State(), rec.n
	stat := vfChoose("stat", 2) == 1
	stats := 0
	wrap := func(s Service) Service {
		if stat {
			return StatWrap(s, func(r *Request, d time.Duration) { stats++ })
		}
		return s
	}
	var s Service
	route := vfChoose("kind", 2) == 1
	if route {
		s = wrap(Route(f))
	} else {
		s = wrap(SF(f))
	}
	vfAssert(s.Runned() && s.DefaultTimeout() == 0, "a function is always ready")
	s.Send(req)
	vfAssert(calls == int(vis(state == 0)), "the function is called once for a live request and not otherwise")
	vfAssert(rec.n == n, "sending does not answer")
	if state != 0 {
		vfAssert(req.State() == was, "a request which is taken or completed is left alone")
	} else {
		vfAssert(got == req && (route && st == RsNew || !route && st == RsInFly), "a function gets a request it can answer, a route one it can pass on")
		s.Send(req)
		vfAssert(route || calls == 1, "a request is served once")
		code, b := RetCode(vfU32("code")), vfBytesN("b", 1)
		req.RespondBytes(code, b)
		vfAssert(rec.n == int(vis(!route)), "the answer of the function is delivered")
		vfAssert(route || rec.code == code && vfEqBytes(rec.body, b), "the answer of the function is delivered")
		req.Cancel()
		vfAssert(rec.n == 1, "a request is answered once")
		vfAssert(stats == 0 || stat && (stats == 1 || route && stats == 2), "statistics are reported once")
	}
	vfReach("end")
}

// vsvc is a service of somebody else
type vsvc struct {
	n    int
	got  *Request
	time time.Duration
}

func (s *vsvc) Send(r *Request)               { s.n++; s.got = r }
func (s *vsvc) Runned() bool                  { return s.time != 0 }
func (s *vsvc) DefaultTimeout() time.Duration { return s.time }

// statistics about a service of somebody else
// vf: seq
func VF_C24_foreign() {
	inner := &vsvc{time: time.Duration(vfI64("time"))}
	stats := 0
	var s Service = StatWrap(inner, func(r *Request, d time.Duration) { stats++ })
	vfAssert(s.DefaultTimeout() == inner.time && s.Runned() == (inner.time != 0), "a wrapped service is configured like the one it wraps")
	rec := &vrec{}
	req := vnewReq(rec)
	state := vfChoose("state", 6)
	if state >= 1 && state < 5 {
		req.SetPending()
	}
	if state >= 2 && state < 5 {
		req.SetInFly(nil)
	}
	code := RetCode(vfU32("code"))
	switch state {
	case 3:
		req.RespondBytes(code, nil)
	case 4, 5:
		req.Cancel()
	}
	was, n := req.State(), rec.n
	s.Send(req)
	vfAssert(rec.n == n && req.State() == was && stats == 0, "sending does not answer")
	if state == 0 {
		vfAssert(inner.n == 1 && inner.got == req, "a live request is passed on once")
		req.SetPending()
		req.SetInFly(nil)
	} else if state > 1 {
		vfAssert(inner.n == 0, "a request which is taken or completed is not passed on")
	}
	if state < 3 {
		if state == 1 {
			req.SetInFly(nil)
		}
		req.RespondBytes(code, nil)
		vfAssert(rec.n == 1 && rec.code == code, "the answer is delivered")
	}
	vfAssert(stats == inner.n, "every request which was sent is reported once")
	vfReach("end")
}

// two services get the same request
// vf: preempt=2 tpreempt=3
func VF_C24_race() {
	calls := [2]int{}
	rec := &vrec{}
	req := vnewReq(rec)
	code := RetCode(vfU32("code"))
	vfAssume(code < 1<<31)
	f := func(i int) SF {
		return SF(func(r *Request) { calls[i]++; r.RespondBytes(code+RetCode(i), nil) })
	}
	cancel := vfChoose("cancel", 2) == 1
	done := make(chan bool, 2)
	go func() { f(0).Send(req); done <- true }()
	if cancel {
		go func() { req.Cancel(); done <- true }()
	} else {
		done <- true
	}
	f(1).Send(req)
	<-done
	<-done
	vfAssert(calls[0]+calls[1] <= 1 && (cancel || calls[0]+calls[1] == 1), "a request is served once")
	vfAssert(rec.n == 1, "a request is answered once")
	vfAssert(calls[0] == 1 && rec.code == code || calls[1] == 1 && rec.code == code+1 || cancel && rec.code == RcCanceled, "the answer is that of the function which was called")
	vfReach("end")
}

// statistics
// vf: preempt=1 tpreempt=2
func VF_C24_stat() {
	var stats []time.Duration
	var seen []*Request
	code, b := RetCode(vfU32("code")), vfBytesN("b", 2)
	how := vfChoose("how", 5)
	adv := vfI64("adv")
	vfAssume(adv >= 0 && adv < vhour && (how <= 1 || adv < int64(time.Second)/2))
	vfAssume(code < 0x1000) // an answer is none of the internal codes
	rec := &vrec{}
	req := vnewReq(rec)
	var inner Service
	p := &vpoint{}
	switch how {
	case 0, 1:
		inner = SF(func(r *Request) {
			vfClockAdd(adv)
			if how == 0 {
				r.RespondBytes(code, b)
			}
		})
	default:
		p.take = func(r *Request) {
			if r.SetInFly(nil) {
				vfClockAdd(adv)
				r.RespondBytes(code, b)
			}
		}
		p.Timeout = time.Second
		p.Init(p)
		Run(p)
		inner = p
	}
	s := StatWrap(inner, func(r *Request, d time.Duration) {
		stats = append(stats, d)
		seen = append(seen, r)
	})
	vfAssert(s.DefaultTimeout() == inner.DefaultTimeout() && s.Runned(), "a wrapped service is configured like the one it wraps")
	if vfChoose("twice", 2) == 1 {
		s2 := s
		s = StatWrap(s2, func(r *Request, d time.Duration) {
			vfAssert(len(stats) == 0 && d >= 0, "the outer observer is told last")
		})
		// the inner one is attached later and told first
		s = s2
	}
	if how == 3 {
		go req.Cancel()
	}
	s.Send(req)
	if how == 1 {
		req.Expire()
	}
	vfQuiesce()
	vfAssert(rec.n == 1, "a request is answered once")
	vfAssert(rec.code == code && vfEqBytes(rec.body, b) || how == 1 && rec.code == RcTimeout || how == 3 && rec.code == RcCanceled, "the answer is delivered")
	vfAssert(len(stats) == 1 || how == 3 && len(stats) == 0 && rec.code == RcCanceled, "every request which was sent is reported once")
	for i := range stats {
		vfAssert(stats[i] >= 0 && seen[i] == req, "a duration is not negative")
		vfAssert(how > 1 || int64(stats[i]) == adv, "the duration is the time the service took")
	}
	vfReach("end")
}

// nested statistics: everyone is told once
// vf: seq
func VF_C24_nested() {
	n := [2]int{}
	var order []int
	code := RetCode(vfU32("code"))
	var s Service = SF(func(r *Request) { r.RespondBytes(code, nil) })
	for i := range n {
		i := i
		s = StatWrap(s, func(r *Request, d time.Duration) { n[i]++; order = append(order, i) })
	}
	for k := 0; k < 3; k++ {
		rec := &vrec{}
		s.Send(vnewReq(rec))
		vfAssert(rec.n == 1 && rec.code == code, "the answer is delivered")
		vfAssert(n[0] == k+1 && n[1] == k+1, "every wrapper is told once for every request")
	}
	vfReach("end")
}
