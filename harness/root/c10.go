package iproto

import "time"

// every sequence of operations against a reference model of a request's life
// vf: seq
func VF_C10_ops() {
	rec := &vrec{}
	req := vnewReq(rec)
	switch vfChoose("pre", 3) { // response memory may have been used before
	case 1:
		req.Response = &Response{Id: vfU32("oid"), Msg: RequestType(vfU32("omsg")), Code: RetCode(vfU32("ocode")), Body: vfBytesN("obody", 2)}
	case 2:
		req.Response = &Response{}
	}
	id, msg := req.Id, req.Msg
	st := 0 // 0 new, 1 pending, 2 taken, 3 completed
	var code RetCode
	var body []byte
	k := 4
	if vfThorough() {
		k = 6
	}
	for i := 0; i < k; i++ {
		switch op := vfChoose("op", 9); op {
		case 0:
			ok := req.SetPending()
			vfAssert(ok == (st == 0), "a request is sent once")
			if st == 0 {
				st = 1
			}
		case 1:
			ok := req.SetInFly(nil)
			vfAssert(ok == (st == 1), "only a pending request is taken")
			if st == 1 {
				st = 2
			}
		case 2:
			ok := req.SetInFly(&vobs{})
			vfAssert(ok == (st == 1), "only a pending request is taken")
			if st == 1 {
				st = 2
			}
		case 3:
			c, b := RetCode(vfU32("code")), vfBytesN("body", 3)
			req.RespondBytes(c, b)
			if st == 2 {
				st, code, body = 3, c, b
			}
		case 4, 5, 6, 7, 8:
			c := vfail(req, op-4, RetCode(vfU32("fcode")))
			if st != 3 {
				st, code, body = 3, c, nil
			}
		}
		vfAssert(rec.n == int(vis(st == 3)), "the responder is invoked exactly once, at the first effective completion")
		vfAssert(req.Performed() == (st == 3) && req.Canceled() == (st == 3), "Performed tells whether the request is completed")
		vfAssert(req.IsPending() == (st == 1), "IsPending tells whether the request is waiting")
		if st == 3 {
			vfAssert(rec.code == code && vfEqBytes(rec.body, body), "the first completion is delivered")
			vfAssert(rec.id == id && rec.msg == msg, "the response carries the id and type of its request")
			vfAssert(req.Response != nil && req.Response.Code == code && vfEqBytes(req.Response.Body, body), "the response stays as delivered")
		}
	}
	vfReach("end")
}

// the value given to Respond is what is delivered
// vf: seq
func VF_C10_values() {
	rec := &vrec{}
	req := vnewReq(rec)
	req.SetPending()
	req.SetInFly(nil)
	code := RetCode(vfU32("code"))
	var want []byte
	switch vfChoose("val", 6) {
	case 0:
		b := vfBytesN("b", 5)
		req.Respond(code, Body(b))
		want = b
	case 1:
		x := vfU32("x")
		req.Respond(code, x)
		want = vle(x)
	case 2:
		x := vfU32("x")
		req.Respond(code, vdata{x: x})
		want = vle(x)
	case 3:
		req.Respond(code, nil)
	case 4:
		x, y := vfU16("x"), vfU16("y")
		req.Respond(code, []uint16{x, y})
		want = append([]byte{2, 0, 0, 0}, byte(x), byte(x>>8), byte(y), byte(y>>8))
	case 5:
		b := vfBytesN("b", 2)
		req.RespondBytes(code, b)
		want = b
	}
	vfAssert(rec.n == 1 && rec.code == code && vfEqBytes(rec.body, want), "the answer is delivered as it was given")
	vfReach("end")
}

// answers and failures race
// vf: preempt=2 tpreempt=3
func VF_C10_race() {
	rec := &vrec{}
	req := vnewReq(rec)
	id, msg := req.Id, req.Msg
	start := vfChoose("start", 3)
	if start > 0 {
		req.SetPending()
	}
	if start > 1 {
		req.SetInFly(nil)
	}
	code, body := RetCode(vfU32("code")), vfBytesN("body", 2)
	how := vfChoose("how", 5)
	fcode := RetCode(vfU32("fcode"))
	answered, failed := make(chan bool, 1), make(chan bool, 1)
	took := false
	go func() {
		if start == 0 {
			req.SetPending()
		}
		took = start > 1 || req.SetInFly(nil)
		if took {
			req.RespondBytes(code, body)
			answered <- rec.n == 1
		} else {
			answered <- true
		}
	}()
	go func() {
		fcode = vfail(req, how, fcode)
		failed <- rec.n == 1
	}()
	if vfChoose("second", 2) == 1 {
		req.Cancel()
		vfAssert(rec.n == 1, "a completed request has been answered")
	}
	a, f := <-answered, <-failed
	vfAssert(a && f, "a completion is delivered before the completing call returns")
	vfAssert(rec.n == 1, "the responder is invoked exactly once")
	isA := rec.code == code && vfEqBytes(rec.body, body) && took
	isF := (rec.code == fcode || rec.code == RcCanceled) && len(rec.body) == 0
	vfAssert(isA || isF, "what is delivered is one of the completions, whole")
	vfAssert(rec.id == id && rec.msg == msg, "the response carries the id and type of its request")
	req.RespondBytes(code+1, nil)
	req.IOError()
	vfAssert(rec.n == 1, "later completions change nothing")
	vfReach("end")
}

// time-outs of requests
// vf: preempt=1
func VF_C10_timeout() {
	rec := &vrec{}
	req := vnewReq(rec)
	d := time.Duration(vfI64("d"))
	vfAssume(d < 1<<40)
	how := vfChoose("how", 3)
	req.SetTimeout(d)
	req.SetTimeout(d / 2) // only the first one counts
	req.SetPending()
	if how > 0 {
		req.SetInFly(nil)
	}
	adv := vfI64("adv")
	vfAssume(adv >= 0 && adv < 1<<41)
	vfClockAdd(adv)
	vfQuiesce()
	early := rec.n
	vfAssert(early == 0 || d > 0 && adv >= int64(d), "a request times out only after its time-out")
	vfAssert(early == 1 || d <= 0 || adv <= int64(d), "a request times out")
	vfAssert(early == 0 || rec.code == RcTimeout, "a time-out is reported as such")
	code := RetCode(vfU32("code"))
	if how == 2 {
		req.RespondBytes(code, nil)
		vfAssert(rec.n == 1 && (early == 1 && rec.code == RcTimeout || early == 0 && rec.code == code), "the first of answer and time-out counts")
	}
	n := rec.n
	vfClockAdd(1 << 40)
	vfQuiesce()
	vfAssert(rec.n == 1 || n == 0 && d <= 0, "an unanswered request with a time-out is answered, once")
	vfAssert(how != 2 || rec.n == n, "the time-out of an answered request does nothing")
	vfReach("end")
}

// the calling helpers
// vf: preempt=1
func VF_C10_helpers() {
	code, b := RetCode(vfU32("code")), vfBytesN("b", 2)
	x, m := vfU32("x"), RequestType(vfU32("m"))
	good := true
	calls := 0
	mode := vfChoose("mode", 3)
	var serv Service = SF(func(r *Request) {
		calls++
		good = good && r.Msg == m && vfEqBytes(r.Body, vle(x))
		switch mode {
		case 0:
			r.RespondBytes(code, b)
		case 1:
			go r.RespondBytes(code, b)
		case 2:
			go r.RespondBytes(code, b)
			r.RespondBytes(code, b)
		}
	})
	var res *Response
	switch vfChoose("how", 8) {
	case 0:
		res = CallMsgBody(serv, m, x)
	case 1:
		res = CallMsgBody(serv, m, Body(vle(x)))
	case 2:
		res = Call(serv, vdata{msg: m, x: x})
	case 3:
		_, ch := SendMsgBody(serv, m, x)
		res = <-ch
	case 4:
		_, ch := Send(serv, vdata{msg: m, x: x})
		res = <-ch
	case 5:
		cx := &Context{}
		res = cx.CallMsgBody(serv, m, x)
	case 6:
		cx := &Context{}
		res = cx.Call(serv, vdata{msg: m, x: x})
	case 7:
		cx := &Context{}
		_, ch := cx.Send(serv, vdata{msg: m, x: x})
		res = <-ch
	}
	vfAssert(good && calls == 1, "the service gets the request as given, once")
	vfAssert(res.Code == code && vfEqBytes(res.Body, b) && res.Msg == m, "the answer is delivered")
	vfQuiesce()
	vfAssert(vfLive() == 0, "nothing is left behind")
	vfReach("end")
}
