package iproto

// one attempt to send or take a request in an arbitrary state
// vf: seq
func VF_C11_step() {
	rec := &vrec{}
	req, st := vindReq(rec)
	bm := &vobs{}
	switch vfChoose("op", 5) {
	case 0:
		ok := req.SetPending()
		vfAssert(ok == (st == RsNew), "only a new request is sent")
		vfAssert(uint64(req.State()) == vfIte(ok, uint64(RsPending), uint64(st)), "sending makes a new request pending")
	case 1, 2:
		var b RequestBookmark
		if vfChoose("bm", 2) == 1 {
			b = bm
		}
		ok := req.SetInFly(b)
		vfAssert(ok == (st == RsPending), "only a pending request is taken")
		vfAssert(uint64(req.State()) == vfIte(ok, uint64(RsInFly), uint64(st)), "taking changes a pending request only")
		vfAssert(vfOr(ok, bm.Request == nil), "a failed attempt attaches nothing")
	case 3:
		cx := req.Context()
		vfAssert((cx != nil) == (st == RsPending), "only a pending request is taken")
		vfAssert(uint64(req.State()) == vfIte(cx != nil, uint64(RsInFly), uint64(st)), "taking changes a pending request only")
	case 4:
		ok := req.ChainBookmark(bm)
		vfAssert(ok == vfOr(st == RsNew, st == RsPending), "a request is observed until it is taken")
		vfAssert(req.State() == st && (bm.Request == req) == ok, "observing does not change the state")
	}
	vfAssert(rec.n == 0, "none of this answers the request")
	vfReach("end")
}
