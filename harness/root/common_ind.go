package iproto

// vindReq is a request in an arbitrary state of its life between two operations.
func vindReq(rec *vrec) (req *Request, st uint32) {
	st = vfU32("state")
	vfAssume(st == RsNew || st == RsPending || st == RsInFly || st == RsPerformed)
	req = &Request{Id: vfU32("id"), Msg: RequestType(vfU32("msg")), Responder: rec}
	if vfChoose("resp", 2) == 1 {
		req.Response = &Response{Id: vfU32("oid"), Msg: RequestType(vfU32("omsg")), Code: RetCode(vfU32("ocode")), Body: vfBytesN("obody", 2)}
	}
	for i, n := 0, vfChoose("chain", 3); i < n; i++ {
		o := &vobs{no: i, log: rec.log}
		o.setReq(req, o)
	}
	req.state = st
	return
}
