package iproto

// vt11 takes a request one of three ways and answers through it
func vt11(req *Request, how int, bm *vobs) (ok bool, cx *ReqContext) {
	switch how {
	case 0:
		return req.SetInFly(nil), nil
	case 1:
		return req.SetInFly(bm), nil
	}
	cx = req.Context()
	return cx != nil, cx
}

// all sequences of sending, taking, completing and retrying
// vf: seq
func VF_C11_ops() {
	rec := &vrec{}
	req := vnewReq(rec)
	st := 0
	retry := -1 // what the next completion turns the request into
	keeper := &vobs{act: func(o *vobs, res *Response) {
		switch retry {
		case 0:
			o.Request.ResetToNew()
		case 1:
			o.Request.ResetToPending()
		}
	}}
	vfAssert(req.ChainBookmark(keeper), "a new request can be observed")
	var obs []*vobs
	k := 4
	if vfThorough() {
		k = 6
	}
	for i := 0; i < k; i++ {
		switch op := vfChoose("op", 7); op {
		case 0:
			ok := req.SetPending()
			vfAssert(ok == (st == 0), "a request is sent once")
			if ok {
				st = 1
			}
		case 1, 2:
			bm := &vobs{no: i}
			was := req.State()
			ok, _ := vt11(req, op-1, bm)
			vfAssert(ok == (st == 1), "a request is taken only while it is pending")
			if ok {
				st = 2
				if op == 2 {
					obs = append(obs, bm)
				}
			} else {
				vfAssert(req.State() == was && bm.Request == nil, "a failed attempt leaves the request untouched")
				bm.act = func(*vobs, *Response) { vfAssert(false, "a failed attempt is not notified") }
			}
		case 3:
			code := RetCode(vfU32("code"))
			n := rec.n
			req.RespondBytes(code, nil)
			vfAssert(rec.n == n+int(vis(st == 2)), "an answer counts only when the request is taken")
			if st == 2 {
				st = 3
				vfAssert(rec.code == code, "the answer is delivered")
			}
		case 4:
			n := rec.n
			req.Cancel()
			vfAssert(rec.n == n+int(vis(st != 3)), "a request not completed can be cancelled")
			st = 3
		case 5, 6:
			if st != 3 {
				retry = op - 5
				n := rec.n
				req.IOError()
				vfAssert(rec.n == n, "a retried request is not answered")
				st = op - 5
				retry = -1
			}
		}
	}
	for _, o := range obs {
		vfAssert(st == 2 || o.n == 1, "an observer who took the request is told how it ended")
	}
	vfReach("end")
}

// several takers
// vf: preempt=2 tpreempt=3
func VF_C11_race() {
	rec := &vrec{}
	req := vnewReq(rec)
	sent := vfChoose("sent", 2) == 1
	if sent {
		req.SetPending()
	}
	cancel := vfChoose("cancel", 2) == 1
	var won [3]bool
	var bms [3]vobs
	var codes [3]RetCode
	n := 2
	if vfThorough() {
		n = 3
	}
	for i := range codes {
		codes[i] = RetCode(vfU32("code"))
		vfAssume(codes[i] != RcTimeout)
	}
	vfAssume(vfAnd(codes[0] != codes[1], vfAnd(codes[1] != codes[2], codes[0] != codes[2])))
	hows := vfChoose("hows", 3)
	done := make(chan bool, 8)
	before := false
	for i := 0; i < n; i++ {
		i := i
		go func() {
			ok, cx := vt11(req, (hows+i)%3, &bms[i])
			if ok {
				won[i] = true
				before = before || req.Performed()
				r := req
				if cx != nil {
					r = cx.Request // nil when it is already completed
				}
				if r != nil {
					r.RespondBytes(codes[i], nil)
				}
			}
			done <- true
		}()
	}
	if !sent {
		vfAssert(req.SetPending() || cancel, "a new request can be sent")
	}
	if cancel {
		req.Cancel()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	wins := 0
	for i := 0; i < n; i++ {
		if won[i] {
			wins++
			vfAssert(rec.n == 1, "a taken request is answered")
			vfAssert(rec.code == codes[i] || cancel && rec.code == RcCanceled, "only who took the request answers it")
		} else {
			vfAssert(bms[i].n == 0, "who did not take the request is not told about it")
		}
	}
	vfAssert(wins <= 1, "at most one worker takes a request")
	vfAssert(wins == 1 || cancel || !sent, "a pending request is taken by one of those who try")
	vfReach("end")
}

// after a retry the request is taken again by one worker
// vf: preempt=2
func VF_C11_retry() {
	rec := &vrec{}
	req := vnewReq(rec)
	bm := &vobs{act: func(o *vobs, res *Response) {
		if o.n == 1 {
			o.Request.ResetToPending()
		}
	}}
	req.SetPending()
	vfAssert(req.SetInFly(bm), "a pending request is taken")
	req.IOError()
	vfAssert(rec.n == 0 && req.IsPending(), "the request is pending again")
	code := RetCode(vfU32("code"))
	wins := 0
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		go func() {
			if req.SetInFly(nil) {
				wins++
			}
			done <- true
		}()
	}
	<-done
	<-done
	vfAssert(wins == 1, "a retried request is taken by one worker")
	req.RespondBytes(code, nil)
	vfAssert(rec.n == 1 && rec.code == code && bm.n == 2, "the retried request completes")
	vfReach("end")
}
