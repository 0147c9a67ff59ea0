package iproto

// observers of one request, attached at any stage; one of them may put the request back
// vf: seq
func VF_C12_order() {
	var log []int
	rec := &vrec{log: &log}
	req := vnewReq(rec)
	id, msg := req.Id, req.Msg
	var obs []*vobs
	add := func(want bool) {
		o := &vobs{no: len(obs), log: &log}
		ok := req.ChainBookmark(o)
		vfAssert(ok == want, "a request can be observed until it is taken")
		if ok {
			obs = append(obs, o)
		}
	}
	max := 3
	if vfThorough() {
		max = 4
	}
	for i, n := 0, vfChoose("new", max); i < n; i++ {
		add(true)
	}
	req.SetPending()
	for i, n := 0, vfChoose("pending", max); i < n; i++ {
		add(true)
	}
	taken := vfChoose("taken", 3)
	if taken == 1 {
		vfAssert(req.SetInFly(nil), "a pending request is taken")
	} else if taken == 2 {
		o := &vobs{no: len(obs), log: &log}
		obs = append(obs, o)
		vfAssert(req.SetInFly(o), "a pending request is taken")
	}
	if taken > 0 {
		add(false)
	}
	// who puts the request back, how, and how many times
	rounds := 0
	who, how := -1, 0
	if len(obs) > 0 && vfChoose("retry", 2) == 1 {
		who, how = vfChoose("who", len(obs)), vfChoose("how", 2)
		rounds = 1 + vfChoose("rounds", 2)
		left := rounds
		obs[who].act = func(o *vobs, res *Response) {
			if left == 0 {
				return
			}
			left--
			if how == 0 {
				vfAssert(o.Request.ResetToNew(), "the request is reset")
			} else {
				vfAssert(o.Request.ResetToPending(), "the request is reset")
			}
		}
	}
	expect := []int{}
	cur := append([]*vobs(nil), obs...)
	var code RetCode
	var body []byte
	for r := 0; r <= rounds; r++ {
		last := r == rounds
		for i := len(cur) - 1; i >= 0; i-- {
			expect = append(expect, cur[i].no)
			if !last && cur[i].no == who {
				cur = cur[:i+1]
				break
			}
		}
		if last {
			expect = append(expect, -1)
		}
		code, body = RetCode(vfU32("code")), vfBytesN("body", 2)
		answered := req.State() == RsInFly && vfChoose("answer", 2) == 1
		if answered {
			req.RespondBytes(code, body)
		} else {
			req.RespondFail(code)
			body = nil
		}
		if last {
			break
		}
		vfAssert(rec.n == 0, "a request put back for a retry is not answered")
		vfAssert(!req.Performed(), "a request put back is not completed")
		if how == 0 {
			vfAssert(req.SetPending(), "a request put back as new can be sent again")
		}
		vfAssert(req.IsPending(), "a request put back is pending")
		if vfChoose("more", 2) == 1 {
			o := &vobs{no: len(obs), log: &log}
			vfAssert(req.ChainBookmark(o), "a request put back can be observed")
			obs = append(obs, o)
			cur = append(cur, o)
		}
		if vfChoose("again", 2) == 1 {
			vfAssert(req.SetInFly(nil), "a request put back is taken again")
		}
	}
	vfAssert(len(log) == len(expect), "every observer is told once, and then the responder")
	for i := range log {
		vfAssert(i < len(expect) && log[i] == expect[i], "observers are told newest first, the responder last")
	}
	vfAssert(rec.n == 1 && rec.code == code && vfEqBytes(rec.body, body) && rec.id == id && rec.msg == msg, "the request completes")
	for _, o := range cur {
		vfAssert(o.code == code && vfEqBytes(o.body, body), "observers see what is delivered")
	}
	n := len(log)
	req.Cancel()
	req.RespondBytes(code, nil)
	vfAssert(len(log) == n, "nobody is told twice")
	vfAssert(!req.ChainBookmark(&vobs{}), "a completed request cannot be observed")
	vfReach("end")
}

// observers attached while the request is being completed
// vf: preempt=2 tpreempt=3
func VF_C12_race() {
	var log []int
	rec := &vrec{log: &log}
	req := vnewReq(rec)
	obs := [3]*vobs{{no: 0, log: &log}, {no: 1, log: &log}, {no: 2, log: &log}}
	var ok [3]bool
	ok[0] = req.ChainBookmark(obs[0])
	vfAssert(ok[0], "a new request can be observed")
	req.SetPending()
	code := RetCode(vfU32("code"))
	take := vfChoose("take", 2) == 1
	done := make(chan bool, 3)
	go func() {
		ok[1] = req.ChainBookmark(obs[1])
		done <- true
	}()
	go func() {
		if take {
			ok[2] = req.SetInFly(obs[2])
			if ok[2] {
				req.RespondBytes(code, nil)
			}
		} else {
			ok[2] = req.ChainBookmark(obs[2])
		}
		done <- true
	}()
	req.RespondFail(code)
	<-done
	<-done
	vfAssert(rec.n == 1 && rec.code == code, "the request completes once")
	for i, o := range obs {
		vfAssert(o.n == int(vis(ok[i])), "an observer is told exactly once when it could be attached")
	}
	vfAssert(log[len(log)-1] == -1, "the responder is last")
	vfAssert(len(log) < 2 || log[len(log)-2] == 0, "the oldest observer is the last one")
	vfReach("end")
}

// misuse of the reset is refused
// vf: seq
func VF_C12_reset() {
	req := vnewReq(&vrec{})
	st := vfChoose("state", 4)
	if st > 0 {
		req.SetPending()
	}
	if st > 1 {
		req.SetInFly(nil)
	}
	if st > 2 {
		req.RespondBytes(RetCode(vfU32("code")), nil)
	}
	was := req.State()
	vfAssert(vhPanics(func() { req.ResetToNew() }), "a request which is not being completed is not reset")
	vfAssert(vhPanics(func() { req.ResetToPending() }), "a request which is not being completed is not reset")
	vfAssert(req.State() == was, "a refused reset changes nothing")
	vfReach("end")
}

// a retry while others try to complete the request
// vf: preempt=2 tpreempt=3
func VF_C12_retry() {
	var log []int
	rec := &vrec{log: &log}
	req := vnewReq(rec)
	low := &vobs{no: 0, log: &log}
	req.ChainBookmark(low)
	o := &vobs{no: 1, log: &log}
	again := make(chan bool, 4)
	o.act = func(o *vobs, res *Response) {
		if res.Code == RcIOError {
			o.Request.ResetToPending()
			again <- true
		}
	}
	req.ChainBookmark(o)
	req.SetPending()
	req.SetInFly(nil)
	code := RetCode(vfU32("code"))
	vfAssume(code != RcIOError && code != RcCanceled)
	req2 := req
	go func() {
		<-again
		if req2.SetInFly(nil) {
			req2.RespondBytes(code, nil)
		}
	}()
	cancel := vfChoose("cancel", 2) == 1
	if cancel {
		go req.Cancel()
	}
	req.IOError()
	vfQuiesce()
	vfAssert(rec.n == 1, "the retried request is answered once")
	vfAssert(rec.code == code || cancel && rec.code == RcCanceled, "the retried request completes with the later result")
	vfAssert(low.n == 1, "an observer below the one which retries is told once")
	vfReach("end")
}
