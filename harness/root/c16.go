package iproto

import "time"

// vmulti makes a group: on its own or in a context
func vmulti(cx *Context, how int) *MultiRequest {
	if how == 0 {
		return &MultiRequest{}
	}
	return cx.NewMulti()
}

// the answers of a group, collected as a list or as a stream
func vcollect(m *MultiRequest, how int) (res MultiResponse) {
	if how == 0 {
		return m.Results()
	}
	for r := range m.Each() {
		res = append(res, r)
	}
	return
}

// one response for every member, the one it was answered with
func vcheckgroup(res MultiResponse, n int, code func(i int) (RetCode, []byte)) {
	vfAssert(len(res) == n, "there is one response for every request of the group")
	seen := make([]bool, n)
	for _, r := range res {
		vfAssert(r != nil && int(r.Id) < n, "every response belongs to a request of the group")
		vfAssert(!seen[r.Id], "there is one response for every request of the group")
		seen[r.Id] = true
		c, b := code(int(r.Id))
		vfAssert(r.Code == c && vfEqBytes(r.Body, b), "every response is the one its request was answered with")
	}
}

// answers before and while they are collected
// vf: preempt=2 tpreempt=3
func VF_C16_answers() {
	cx := &Context{}
	m := vmulti(cx, vfChoose("cx", 2))
	k := &vkeep{}
	max := 3
	if vfThorough() {
		max = 4
	}
	n := vfChoose("n", max)
	base := vfU32("base")
	body := vfBytesN("b", 2)
	for i := 0; i < n; i++ {
		m.SendMsgBody(SF(k.serve), RequestType(i), base)
	}
	before := 0
	if n > 0 {
		before = vfChoose("early", n+1)
	}
	first := vfChoose("first", 2) == 1 // the others answer in the opposite order
	ans := func(i int) {
		if first {
			i = n - 1 - i
		}
		vfAssert(k.got[i].Msg == RequestType(i), "the service gets the request as given")
		k.got[i].RespondBytes(RetCode(base+uint32(i)), body)
	}
	for i := 0; i < before; i++ {
		ans(i)
	}
	for i := before; i < n; i++ {
		i := i
		go ans(i)
	}
	res := vcollect(m, vfChoose("how", 2))
	vcheckgroup(res, n, func(i int) (RetCode, []byte) { return RetCode(base + uint32(i)), body })
	cx.WaitAll()
	vfQuiesce()
	vfAssert(vfLive() == 0, "nothing is left behind")
	vfReach("end")
}

// a big group, sorted
// vf: nofree
func VF_C16_many() {
	m := &MultiRequest{}
	k := &vkeep{}
	n := []int{15, 16, 17, 33, 70}[vfChoose("n", 5)]
	base := vfU32("base")
	for i := 0; i < n; i++ {
		r := m.Send(SF(k.serve), vdata{msg: 5, x: base + uint32(i)})
		vfAssert(r.Id == uint32(i) && r.Msg == 5 && vfEqBytes(r.Body, vle(base+uint32(i))), "members are numbered and carry their data")
	}
	mul := []int{1, n - 1, 13}[vfChoose("order", 3)]
	if n == 0 {
		return
	}
	early := vfChoose("early", 2) * n / 2
	ord := func(i int) int { return (i*mul + 3) % n }
	seen := map[int]bool{}
	go func() {
		for i := early; i < n; i++ {
			k.got[ord(i)].RespondBytes(RetCode(base+uint32(ord(i))), nil)
		}
	}()
	for i := 0; i < early; i++ {
		k.got[ord(i)].RespondBytes(RetCode(base+uint32(ord(i))), nil)
	}
	for i := 0; i < n; i++ {
		seen[ord(i)] = true
	}
	if len(seen) != n {
		return
	}
	res := vcollect(m, vfChoose("how", 2))
	vcheckgroup(res, n, func(i int) (RetCode, []byte) { return RetCode(base + uint32(i)), nil })
	for i, r := range res.Sort() {
		vfAssert(int(r.Id) == i, "sorted responses are in the order of the requests")
	}
	vfReach("end")
}

// cancelling, or a time-out, while answers arrive
// vf: preempt=2 tpreempt=3
func VF_C16_cancel() {
	cx := &Context{}
	how := vfChoose("who", 3)
	m := cx.NewMulti()
	k := &vkeep{}
	code, body := RetCode(vfU32("code")), vfBytesN("b", 1)
	vfAssume(code != RcCanceled && code != RcTimeout)
	n := 2
	if vfThorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		m.SendMsgBody(SF(k.serve), 1, nil)
	}
	k.got[0].RespondBytes(code, body)
	fail := RcCanceled
	racing := vfChoose("racing", 2) == 1
	if racing {
		go k.got[1].RespondBytes(code, body)
	}
	switch how {
	case 0:
		go m.Cancel()
	case 1:
		go cx.Cancel()
	case 2:
		go m.Expire()
		fail = RcTimeout
	}
	res := vcollect(m, vfChoose("how", 2))
	vfAssert(len(res) == n, "there is one response for every request of the group")
	got := [3]int{}
	for _, r := range res {
		got[r.Id]++
		answered := r.Code == code && vfEqBytes(r.Body, body)
		failed := r.Code == fail && len(r.Body) == 0
		switch {
		case r.Id == 0:
			vfAssert(answered, "a member which was answered keeps its answer")
		case r.Id == 1 && racing:
			vfAssert(answered || failed, "a member is answered or fails")
		default:
			vfAssert(failed, "a member which was not answered fails")
		}
	}
	for i := 0; i < n; i++ {
		vfAssert(got[i] == 1, "there is one response for every request of the group")
	}
	vfQuiesce()
	cx.WaitAll()
	vfAssert(vfLive() == 0, "nothing is left behind")
	vfReach("end")
}

// requests added to a group which is being cancelled
// vf: preempt=2 tpreempt=3
func VF_C16_add() {
	cx := &Context{}
	dead := vfChoose("dead", 2) == 1
	if dead {
		cx.Cancel()
	}
	m := cx.NewMulti()
	k := &vkeep{}
	who := vfChoose("who", 2)
	if !dead {
		go func() {
			if who == 0 {
				m.Cancel()
			} else {
				m.Expire()
			}
		}()
	}
	n := 2 + vfChoose("n", 2)
	for i := 0; i < n; i++ {
		m.SendMsgBody(SF(k.serve), 1, vfU32("x"))
	}
	vfAssert(!dead || len(k.got) == 0, "a request of a cancelled group is not served")
	res := vcollect(m, vfChoose("how", 2))
	fail := RcCanceled
	if !dead && who == 1 {
		fail = RcTimeout
	}
	vcheckgroup(res, n, func(i int) (RetCode, []byte) { return fail, nil })
	vfQuiesce()
	vfAssert(vfLive() == 0, "nothing is left behind")
	vfReach("end")
}

// the group grows over its first block while it is cancelled
// vf: preempt=1 tpreempt=2
func VF_C16_grow() {
	m := &MultiRequest{}
	k := &vkeep{}
	for i := 0; i < 15; i++ {
		m.SendMsgBody(SF(k.serve), 1, nil)
	}
	code := RetCode(vfU32("code"))
	vfAssume(code != RcCanceled)
	k.got[3].RespondBytes(code, nil)
	go m.Cancel()
	for i := 0; i < 3; i++ {
		m.SendMsgBody(SF(k.serve), 1, nil)
	}
	res := vcollect(m, vfChoose("how", 2))
	vcheckgroup(res, 18, func(i int) (RetCode, []byte) {
		if i == 3 {
			return code, nil
		}
		return RcCanceled, nil
	})
	vfReach("end")
}

// the time-out of a group
// vf: seq
func VF_C16_timeout() {
	d, adv := vfI64("d"), vfI64("adv")
	vfAssume(d < vhour/2 && adv >= 0 && adv < vhour/2 && adv != d)
	m := &MultiRequest{}
	if vfChoose("from", 2) == 1 {
		m.TimeoutFrom(&vpoint{SimplePoint: SimplePoint{Timeout: time.Duration(d)}})
	} else {
		m.SetTimeout(time.Duration(d))
	}
	k := &vkeep{}
	code := RetCode(vfU32("code"))
	vfAssume(code != RcTimeout)
	for i := 0; i < 2; i++ {
		m.SendMsgBody(SF(k.serve), 1, nil)
	}
	k.got[0].RespondBytes(code, nil)
	vfClockAdd(adv)
	vfQuiesce()
	vfAssert(k.got[1].Performed() == vfAnd(d > 0, adv > d), "members which are not answered fail at the time-out")
	late := k.got[1].Performed()
	k.got[1].RespondBytes(code, nil)
	res := vcollect(m, vfChoose("how", 2))
	vcheckgroup(res, 2, func(i int) (RetCode, []byte) {
		if late && i == 1 {
			return RcTimeout, nil
		}
		return code, nil
	})
	vfClockAdd(vhour / 2)
	vfQuiesce()
	vfReach("end")
}
