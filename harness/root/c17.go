package iproto

// vpool is a pool of workers with a handler which keeps account
type vpool struct {
	serv    *ParallelService
	running int
	max     int
	calls   [8]int
	gate    chan bool
	code    RetCode
	body    []byte
	boom    int // the request which makes the handler panic, -1 none
	boomVal interface{}
	lim     int
	over    bool
}

func vnewPool(n int) *vpool {
	p := &vpool{boom: -1, lim: n, code: RetCode(vfU32("code")), body: vfBytesN("b", 1)}
	if n == 0 {
		p.lim = 1
	}
	vfAssume(p.code < 0x1000) // an answer is none of the internal codes
	p.serv = BF{N: n}.New(func(cx *Context, r *Request) (RetCode, interface{}) {
		p.running++
		p.over = p.over || p.running > p.lim
		if p.running > p.max {
			p.max = p.running
		}
		p.calls[r.Id]++
		id := int(r.Id)
		if p.gate != nil {
			<-p.gate
		}
		p.running--
		if p.boom == id {
			panic(p.boomVal)
		}
		return p.code + RetCode(id), Body(p.body)
	})
	return p
}

// vf: preempt=1 tpreempt=2 time=300
func VF_C17_requests() {
	n := vfChoose("n", 3)
	p := vnewPool(n)
	k := 2
	if vfThorough() {
		k = 3
	}
	kind := vfChoose("kind", 4)
	switch kind {
	case 1, 2:
		p.boom = kind - 1
		p.boomVal = []interface{}{"boom", vfU32("pv")}[vfChoose("pval", 2)]
	}
	recs := make([]vrec, k)
	reqs := make([]*Request, k)
	for i := range reqs {
		reqs[i] = &Request{Id: uint32(i), Msg: RequestType(vfU32("m")), Responder: &recs[i]}
	}
	if kind == 3 {
		go reqs[1].Cancel()
	}
	for i := range reqs {
		p.serv.Send(reqs[i])
	}
	vfQuiesce()
	for i := range reqs {
		vfAssert(recs[i].n == 1, "every request is answered once")
		vfAssert(p.calls[i] <= 1, "the handler runs at most once for a request")
		switch {
		case p.boom == i:
			vfAssert(p.calls[i] == 1 && recs[i].code == RcInternalError, "a handler which panics is an internal error")
		case kind == 3 && i == 1 && recs[i].code == RcCanceled:
		default:
			vfAssert(p.calls[i] == 1 && recs[i].code == p.code+RetCode(i) && vfEqBytes(recs[i].body, p.body), "a request is answered with what its handler returns")
		}
	}
	vfAssert(!p.over, "no more handlers run than the pool has workers")
	vfReach("end")
}

// handlers which take their time: the pool is as wide as it was made, also after panics
// vf: nofree
func VF_C17_width() {
	n := vfChoose("n", 5)
	p := vnewPool(n)
	p.boomVal = "boom"
	booms := vfChoose("booms", 4)
	for i := 0; i < booms; i++ {
		p.boom = 7
		rec := &vrec{}
		p.serv.Send(&Request{Id: 7, Responder: rec})
		vfQuiesce()
		vfAssert(rec.n == 1 && rec.code == RcInternalError, "a handler which panics is an internal error")
	}
	// one which is gone before it is taken
	if vfChoose("gone", 2) == 1 {
		r := &Request{Id: 6, Responder: &vrec{}}
		r.Cancel()
		p.serv.Send(r)
	}
	p.max, p.over, p.running = 0, false, 0
	p.gate = make(chan bool)
	recs := [6]vrec{}
	var reqs [6]*Request
	for i := range recs {
		reqs[i] = &Request{Id: uint32(i), Responder: &recs[i]}
		p.serv.Send(reqs[i])
	}
	vfQuiesce()
	vfAssert(p.running == p.lim, "the pool runs as many handlers as it has workers")
	cancel := []int{-1, 5, p.lim}[vfChoose("cancel", 3)]
	if cancel >= 0 {
		reqs[cancel].Cancel() // waits for a worker
	}
	close(p.gate)
	vfQuiesce()
	for i := range recs {
		vfAssert(recs[i].n == 1 && (recs[i].code == p.code+RetCode(i) || i == cancel && recs[i].code == RcCanceled), "every request is answered with what its handler returns")
	}
	vfAssert(!p.over && p.max == p.lim, "no more handlers run than the pool has workers")
	// and it stays so
	p.gate = make(chan bool)
	again := [5]vrec{}
	for i := range again {
		p.serv.Send(&Request{Id: uint32(i), Responder: &again[i]})
	}
	vfQuiesce()
	vfAssert(p.running == p.lim, "the pool runs as many handlers as it has workers")
	close(p.gate)
	vfQuiesce()
	for i := range again {
		vfAssert(again[i].n == 1 && again[i].code == p.code+RetCode(i), "every request is answered with what its handler returns")
	}
	vfReach("end")
}

// stopping the pool
// vf: preempt=1 tpreempt=2 time=300
func VF_C17_stop() {
	p := vnewPool(1)
	recs := [3]vrec{}
	late := vfChoose("late", 2) == 1
	send := func(i int) { p.serv.Send(&Request{Id: uint32(i), Responder: &recs[i]}) }
	busy := vfChoose("busy", 2) == 1
	if busy {
		p.gate = make(chan bool)
	}
	send(0)
	send(1)
	n := 2
	if busy {
		go p.serv.Stop()
	} else {
		p.serv.Stop()
	}
	if late {
		send(2)
		n = 3
	}
	vfQuiesce()
	if busy {
		close(p.gate)
		vfQuiesce()
	}
	for i := 0; i < n; i++ {
		vfAssert(recs[i].n == 1, "every request which was accepted is answered once")
		ran := p.calls[i] == 1
		vfAssert(ran && recs[i].code == p.code+RetCode(i) || !ran && recs[i].code == RcShutdown, "a request is answered with its result, or with the shutdown code when its handler did not run")
	}
	vfAssert(!p.over, "no more handlers run than the pool has workers")
	vfReach("end")
}

// what the handler gets and returns
// vf: seq
func VF_C17_handler() {
	var got *Request
	alive := false
	m, b := RequestType(vfU32("m")), vfBytesN("b", 3)
	x := vfU32("x")
	code := RetCode(vfU32("code"))
	vfAssume(code != RcTimeout)
	how := vfChoose("how", 4)
	sub := &vkeep{}
	var ch <-chan *Response
	serv := BF{}.New(func(cx *Context, r *Request) (RetCode, interface{}) {
		got, alive = r, cx.Alive()
		switch how {
		case 1:
			r.RespondBytes(code, b)
			return code + 1, nil
		case 2:
			_, ch = cx.SendMsgBody(SF(sub.serve), 3, x)
			vfAssert(vfEqBytes(sub.got[0].Body, vle(x)), "a handler sends requests of its own")
		}
		return code, x
	})
	rec := &vrec{}
	req := &Request{Id: vfU32("id"), Msg: m, Body: b, Responder: rec}
	serv.Send(req)
	vfQuiesce()
	vfAssert(got == req && alive, "the handler gets the request and a live context")
	want := vle(x)
	if how == 1 {
		want = b
	}
	vfAssert(rec.n == 1 && rec.code == code && vfEqBytes(rec.body, want), "the first answer of a handler is delivered")
	if how == 2 {
		sub.got[0].RespondBytes(code, b)
		vfAssert(len(ch) == 1, "what a handler started is answered")
	}
	vfReach("end")
}
