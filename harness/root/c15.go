package iproto

import "time"

type vcan struct{ n int }

func (c *vcan) Cancel() { c.n++ }

// requests started from a context before, while and after it ends
// vf: preempt=2 tpreempt=3
func VF_C15_requests() {
	cx := &Context{}
	k := &vkeep{}
	code, body := RetCode(vfU32("code")), vfBytesN("b", 1)
	vfAssume(code != RcCanceled)
	nb := vfChoose("before", 4)
	var chs []<-chan *Response
	var before []*Request
	for i := 0; i < nb; i++ {
		r, ch := cx.SendMsgBody(SF(k.serve), RequestType(vfU32("m")), vfU32("x"))
		before = append(before, r)
		chs = append(chs, ch)
	}
	answered := -1
	if nb > 0 {
		answered = vfChoose("answered", nb+1)
		if answered < nb {
			before[answered].RespondBytes(code, body)
		}
	}
	how := vfChoose("how", 3)
	var during <-chan *Response
	switch how {
	case 0:
		cx.Cancel()
	case 1:
		cx.Expire()
	case 2:
		go cx.Cancel()
		_, during = cx.SendMsgBody(SF(k.serve), 1, nil)
	}
	vfQuiesce()
	for i, ch := range chs {
		vfAssert(len(ch) == 1, "every request of the context is completed, once")
		res := <-ch
		vfAssert(res.Code == RcCanceled || i == answered && res.Code == code && vfEqBytes(res.Body, body), "an unfinished request is cancelled, an answer stays")
		vfAssert((i == answered) == (res.Code == code), "an unfinished request is cancelled, an answer stays")
	}
	if during != nil {
		vfAssert(len(during) == 1 && (<-during).Code == RcCanceled, "a request started while the context is cancelled is cancelled")
	}
	vfAssert(!cx.Alive() && cx.Timeout() == (how == 1), "the context knows how it ended")
	n := len(k.got)
	r, ch := cx.SendMsgBody(SF(k.serve), 1, nil)
	vfAssert(len(ch) == 1 && (<-ch).Code == RcCanceled && r.Performed(), "a request started later is cancelled at once")
	vfAssert(len(k.got) == n, "a request started later is not served")
	cx.WaitAll()
	vfAssert(vfLive() == 0, "nothing is left behind")
	vfReach("end")
}

// many requests, answered in any order, and one cancelled context at the end
// vf: nofree
func VF_C15_many() {
	cx := &Context{}
	k := &vkeep{}
	n := 40
	chs := make([]<-chan *Response, n)
	for i := range chs {
		_, chs[i] = cx.SendMsgBody(SF(k.serve), 1, vfU32("x"))
	}
	code := RetCode(vfU32("code"))
	vfAssume(code != RcCanceled)
	mul := []int{1, 3, 39}[vfChoose("order", 3)]
	upto := []int{0, 1, 17, 39, 40}[vfChoose("upto", 5)]
	done := map[int]bool{}
	for i := 0; i < upto; i++ {
		j := (i * mul) % n
		vfAssert(k.got[j].Id != 0, "requests of a context have an id")
		k.got[j].RespondBytes(code+RetCode(j), nil)
		done[j] = true
	}
	if upto == n {
		cx.WaitAll()
	}
	cx.Cancel()
	cx.WaitAll()
	for i, ch := range chs {
		vfAssert(len(ch) == 1, "every request is completed once")
		res := <-ch
		if done[i] {
			vfAssert(res.Code == code+RetCode(i), "an answer stays")
		} else {
			vfAssert(res.Code == RcCanceled, "an unfinished request is cancelled")
		}
		for j := 0; j < i; j++ {
			vfAssert(k.got[i].Id != k.got[j].Id, "requests of a context have different ids")
		}
	}
	cx.Done()
	vfReach("end")
}

// cancelers may be added and removed in any order
// vf: seq
func VF_C15_cancelers() {
	cx := &Context{}
	cs := [5]*vcan{{}, {}, {}, {}, {}}
	in := [5]bool{}
	k := 5
	if vfThorough() {
		k = 7
	}
	for s := 0; s < k; s++ {
		i := vfChoose("i", 5)
		if in[i] {
			cx.RemoveCanceler(cs[i])
			in[i] = false
		} else {
			cx.AddCanceler(cs[i])
			in[i] = true
		}
		waits := false
		for _, x := range in {
			waits = waits || x
		}
		if s == k-1 {
			done := false
			go func() { cx.WaitAll(); done = true }()
			vfQuiesce()
			vfAssert(done == !waits, "waiting ends when all have finished")
			for i := range cs {
				vfAssert(cs[i].n == 0, "nobody is cancelled while the context lives")
			}
			go cx.Cancel()
			for i := range cs {
				for n := 0; in[i] && cs[i].n == 0; n++ {
					vfAssert(n < 50, "whoever is registered is cancelled")
					vyield()
				}
			}
			for i := range cs {
				if in[i] {
					cx.RemoveCanceler(cs[i])
				} else {
					vfAssert(cs[i].n == 0, "who left the context is not cancelled")
				}
			}
			vfQuiesce()
			vfAssert(done && vfLive() == 0, "cancelling and waiting end when all have finished")
			late := &vcan{}
			cx.AddCanceler(late)
			vfAssert(late.n == 1, "who comes too late is cancelled at once")
		}
	}
	vfReach("end")
}

// a canceler added and another removed while the context ends
// vf: preempt=2 tpreempt=3
func VF_C15_race() {
	cx := &Context{}
	a, b := &vselfcan{cx: cx}, &vselfcan{cx: cx}
	cx.AddCanceler(a)
	if vfChoose("more", 2) == 1 {
		cx.AddCanceler(&vselfcan{cx: cx})
		cx.AddCanceler(&vselfcan{cx: cx})
	}
	go cx.Cancel()
	go func() { cx.AddCanceler(b) }()
	if vfChoose("twice", 2) == 1 {
		go cx.Expire()
	}
	vfQuiesce()
	vfAssert(a.n >= 1 && b.n >= 1, "whoever is registered while the context ends is cancelled")
	cx.WaitAll()
	vfAssert(vfLive() == 0, "cancelling ends")
	vfReach("end")
}

// vselfcan leaves the context when it is cancelled
type vselfcan struct {
	cx *Context
	n  int
}

func (c *vselfcan) Cancel() {
	c.n++
	c.cx.RemoveCanceler(c)
}

// child contexts and tasks
// vf: preempt=2 tpreempt=3
func VF_C15_children() {
	cx := &Context{}
	k := &vkeep{}
	dead := vfChoose("dead", 2) == 1
	if dead {
		cx.Cancel()
	}
	runs, alive := 0, 0
	var val interface{}
	x := vfU32("x")
	var ch <-chan *Response
	f := func(c *Context) {
		runs++
		if c.Alive() {
			alive++
		}
		_, ch = c.SendMsgBody(SF(k.serve), 1, x)
		res := <-ch
		vfAssert(res.Code == RcCanceled || res.Code == RetCode(x), "the request of a task is answered or cancelled")
	}
	var child *Context
	how := vfChoose("how", 5)
	switch how {
	case 0:
		child = cx.Go(f)
	case 1:
		child = cx.GoInt(func(c *Context, i interface{}) { val = i; f(c) }, x)
	case 2:
		child = cx.GoAsync(func(c *Context) { f(c); c.Done() })
	case 3:
		child = cx.GoIntAsync(func(c *Context, i interface{}) { val = i; f(c); c.Done() }, x)
	case 4:
		var ok bool
		child, ok = cx.Child()
		vfAssert(ok == !dead, "a child of a live context is alive")
		if ok {
			go func() { f(child); child.Done() }()
		}
	}
	vfAssert(child != nil, "there is always a child")
	if dead {
		vfQuiesce()
		vfAssert(runs == 0 && !child.Alive(), "nothing runs in a dead context")
		vfAssert(vfLive() == 0, "nothing is left behind")
		vfReach("dead")
		return
	}
	waited := false
	go func() { cx.WaitAll(); waited = true }()
	end := vfChoose("end", 3)
	switch end {
	case 0:
		cx.Cancel()
	case 1:
		cx.Expire()
	case 2:
		vfQuiesce()
		vfAssert(!waited && runs == 1 && alive == 1, "waiting lasts until the child has finished")
		k.got[0].RespondBytes(RetCode(x), nil)
	}
	vfQuiesce()
	vfAssert(runs == 1, "a task runs once")
	vfAssert(waited, "waiting ends when the child has finished")
	vfAssert(child.Alive() == (end == 2), "a child is cancelled with its context")
	if how == 1 || how == 3 {
		vfAssert(val == interface{}(x), "a task gets its argument")
	}
	vfAssert(vfLive() == 0, "nothing is left behind")
	vfReach("end")
}

// grandchildren, and several who wait
// vf: preempt=0 tpreempt=1
func VF_C15_tree() {
	cx := &Context{}
	stop := make(chan bool)
	n := 0
	var leaf, mid *Context
	mid = cx.GoAsync(func(c *Context) {
		leaf = c.GoAsync(func(c *Context) {
			if vfChoose("late", 2) == 1 {
				<-stop
			}
			n++
			c.Done()
		})
		c.WaitAll()
		n++
		c.Done()
	})
	w := make([]int, 1+vfChoose("two", 2))
	for i := range w {
		i := i
		go func() { cx.WaitAll(); w[i] = n + 1 }()
	}
	cancel := vfChoose("cancel", 2) == 1
	if cancel {
		go cx.Cancel()
	}
	close(stop)
	vfQuiesce()
	vfAssert((n == 2 || cancel && n == 1) && w[0] == n+1 && w[len(w)-1] == n+1, "everyone who waits goes on when all have finished")
	vfAssert(cancel || mid.Alive() && leaf.Alive(), "children live as long as their context")
	vfAssert(vfLive() == 0, "nothing is left behind")
	vfReach("end")
}

// the context of a request which is being served
// vf: preempt=2 tpreempt=3
func VF_C15_served() {
	rec := &vrec{}
	req := vnewReq(rec)
	req.SetPending()
	cx := req.Context()
	vfAssert(cx != nil && cx.Alive(), "a request which is taken has a context")
	k := &vkeep{}
	sub, ch := cx.SendMsgBody(SF(k.serve), 1, vfU32("x"))
	code := RetCode(vfU32("code"))
	vfAssume(code != RcCanceled && code != RcTimeout)
	how := vfChoose("how", 4)
	switch how {
	case 0:
		req.RespondBytes(code, nil)
		vfAssert(cx.Alive() && !sub.Performed(), "answering does not cancel what the handler started")
		vfAssert(rec.n == 1 && rec.code == code, "the answer is delivered")
		sub.RespondBytes(code, nil)
		cx.Done()
	case 1:
		go req.Cancel()
		res := <-ch
		vfAssert(res.Code == RcCanceled, "cancelling a request cancels what its handler started")
		vfQuiesce()
		vfAssert(rec.n == 1 && rec.code == RcCanceled && !cx.Alive() && !cx.Timeout(), "the request is cancelled")
		cx.Done()
	case 2:
		go req.Expire()
		res := <-ch
		vfAssert(res.Code == RcCanceled, "when a request times out, what its handler started is cancelled")
		vfQuiesce()
		vfAssert(cx.Timeout(), "the handler is told about the time-out")
		vfAssert(rec.n == 0, "the handler still answers")
		req.RespondBytes(code, nil)
		vfAssert(rec.n == 1 && rec.code == code, "the handler still answers")
		cx.Done()
	case 3:
		sub.RespondBytes(code, nil)
		cx.Done()
		vfAssert(rec.n == 1 && rec.code == RcInternalError, "a handler which ends without an answer is an internal error")
	}
	vfQuiesce()
	vfAssert(rec.n == 1, "a request is answered once")
	vfAssert(vfLive() == 0, "nothing is left behind")
	vfReach("end")
}

var _ = time.Now
