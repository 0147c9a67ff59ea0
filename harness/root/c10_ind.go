package iproto

// one operation on a request in an arbitrary state (together: every history of operations which do not overlap)
// vf: seq
func VF_C10_step() {
	var log []int
	rec := &vrec{log: &log}
	req, st := vindReq(rec)
	id, msg := req.Id, req.Msg
	code, body := RetCode(vfU32("code")), vfBytesN("body", 3)
	effective := vfOr(st == RsNew, vfOr(st == RsPending, st == RsInFly))
	op := vfChoose("op", 7)
	switch op {
	case 0:
		req.RespondBytes(code, body)
		effective = st == RsInFly
	case 1:
		req.Respond(code, Body(body))
		effective = st == RsInFly
	default:
		code = vfail(req, op-2, code)
		body = nil
	}
	vfAssert(uint64(rec.n) == vfIte(effective, 1, 0), "the responder is invoked at the first effective completion only")
	if rec.n == 1 {
		vfAssert(rec.code == code && vfEqBytes(rec.body, body) && rec.id == id && rec.msg == msg, "the response is that of the completion")
		vfAssert(req.Performed() && req.State() == RsPerformed, "the request is completed")
	} else {
		vfAssert(req.State() == st && len(log) == 0, "a late completion changes nothing")
	}
	vfReach("end")
}
