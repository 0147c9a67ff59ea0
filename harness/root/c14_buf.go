package iproto

// a buffer whose channel is small, at some position of its life
func vbuf(c int, pos uint64) *Buffer {
	b := &Buffer{ch: make(chan *Request, c)}
	b.init()
	if pos > 0 {
		b.head, b.tail = pos, pos
		row := &bufferRow{id: pos / bufRow}
		b.rows = map[uint64]*bufferRow{row.id: row}
		b.hRow, b.tRow = row, row
	}
	return b
}

// pushing, completing and taking at the same time
// vf: preempt=2 tpreempt=3 time=300
func VF_C14_small() {
	b := vbuf(1, []uint64{0, bufRow - 2, bufRow - 1}[vfChoose("pos", 3)])
	go b.loop()
	base := vfU32("base")
	var recs [4]vrec
	var reqs [4]*Request
	for i := range reqs {
		reqs[i] = &Request{Id: base + uint32(i), Responder: &recs[i]}
		reqs[i].SetPending()
	}
	n := 3
	kind := vfChoose("kind", 2)
	go func() {
		b.push(reqs[2])
		if vfThorough() {
			b.push(reqs[3])
		}
	}()
	if vfThorough() {
		n = 4
	}
	if kind == 1 {
		go reqs[1].Cancel()
	}
	b.push(reqs[0])
	b.push(reqs[1])
	pos := [4]int{-1, -1, -1, -1}
	k := 0
	take := func() bool {
		for {
			select {
			case r := <-b.ch:
				if !r.SetInFly(nil) {
					vfAssert(kind == 1 && r == reqs[1], "requests are handed over pending")
					continue
				}
				for i := range reqs {
					if r == reqs[i] {
						vfAssert(pos[i] < 0, "a request is handed over once")
						pos[i] = k
						k++
					}
				}
				return true
			default:
				return false
			}
		}
	}
	take()
	for {
		vfQuiesce()
		if !take() {
			break
		}
	}
	for i := 0; i < n; i++ {
		vfAssert(pos[i] >= 0 || kind == 1 && i == 1 && recs[i].n == 1, "a request which was sent is handed over")
	}
	vfAssert(pos[1] < 0 || pos[0] < pos[1], "requests of one sender stay in order")
	vfAssert(n < 4 || pos[2] < pos[3], "requests of one sender stay in order")
	vfReach("end")
}

// crossing the rows of the buffer
// vf: nofree steps=20000000
func VF_C14_rows() {
	b := vbuf(1, []uint64{0, bufRow - 1, 3*bufRow - 2, 1<<32 - 3}[vfChoose("pos", 4)])
	go b.loop()
	base := vfU32("base")
	n := []int{5, bufRow + 3, 2*bufRow + 1}[vfChoose("n", 3)]
	reqs := make([]*Request, n)
	rec := &vrec{}
	round := 0
	for ; round < 2; round++ {
		for i := range reqs {
			reqs[i] = &Request{Id: base + uint32(i), Responder: rec}
			reqs[i].SetPending()
			b.push(reqs[i])
		}
		vfQuiesce()
		for i := range reqs {
			if len(b.ch) == 0 {
				vfQuiesce()
			}
			vfAssert(len(b.ch) > 0, "no request is lost")
			r := <-b.ch
			vfAssert(r == reqs[i] && r.IsPending(), "requests are handed over once, in order")
		}
		vfQuiesce()
		vfAssert(len(b.ch) == 0, "nothing is handed over twice")
	}
	vfAssert(len(b.rows) <= 3, "rows which are not needed are given back")
	vfReach("end")
}

// stopping while requests are sent
// vf: preempt=2
func VF_C14_stop() {
	b := vbuf(1, 0)
	left := false
	b.onExit = func() { left = true }
	go b.loop()
	recs := [3]vrec{}
	got := [3]int{}
	go func() {
		for r := range b.ch {
			got[r.Id]++
			r.ShutDown()
		}
	}()
	go b.close()
	for i := range recs {
		r := &Request{Id: uint32(i), Responder: &recs[i], Body: vfBytesN("b", 1)}
		r.SetPending()
		b.push(r)
	}
	vfQuiesce()
	vfAssert(left, "the buffer ends")
	for i := range recs {
		vfAssert(got[i] <= 1 && recs[i].n == 1 && recs[i].code == RcShutdown, "a request sent while the end point stops is handed over or refused")
	}
	vfReach("end")
}
