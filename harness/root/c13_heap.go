package iproto

// the heap of timers on its own: a stand-in for the goroutine which serves it takes the top
type vhp struct {
	h  *tHeap
	ts []*vtmr
	in []bool
}

func (p *vhp) push(e Epoch) {
	t := &vtmr{at: e}
	p.ts = append(p.ts, t)
	p.in = append(p.in, true)
	p.h.push(t, e)
}

func (p *vhp) stop(i int) {
	if p.in[i] {
		vfAssert(p.ts[i].t.i != 0, "a timer which waits knows its place")
		p.h.remove(p.ts[i].t.i)
		p.in[i] = false
	}
	vfAssert(p.ts[i].t.i == 0, "a timer which does not wait has no place")
}

// the top is the earliest
func (p *vhp) top() {
	n := 0
	for _, in := range p.in {
		if in {
			n++
		}
	}
	vfAssert(int(p.h.size) == n, "the heap knows how many timers wait")
	vfAssert((p.h.top == 0) == (n == 0), "the heap is empty when no timer waits")
	if n == 0 {
		return
	}
	e := p.h.h[p.h.top].e
	isTop := false
	for i, in := range p.in {
		if in {
			vfAssert(e <= p.ts[i].at, "the first timer is the earliest")
			isTop = isTop || p.h.h[p.h.top].x == Expirator(p.ts[i])
		}
	}
	vfAssert(isTop, "the first timer is one which waits")
}

func (p *vhp) take() {
	p.top()
	if p.h.top != 0 {
		x := p.h.h[p.h.top].x.(*vtmr)
		vfAssert(x.t.i == p.h.top, "the first timer knows its place")
		for i := range p.ts {
			if p.ts[i] == x {
				vfAssert(p.in[i], "a stopped timer is not taken")
				p.in[i] = false
			}
		}
		p.h.remove(p.h.top)
	}
}

func vnewHeap() *vhp {
	h := &tHeap{i: 1}
	h.h = make([]tItem, 1, 256)
	return &vhp{h: h}
}

// timers with arbitrary deadlines come out in order
// vf: nofree
func VF_C13_order() {
	p := vnewHeap()
	n := 5
	if vfThorough() {
		n = 7
	}
	for i := 0; i < n; i++ {
		p.push(Epoch(vfI64("e")))
		p.top()
	}
	p.stop(vfChoose("stop", n))
	p.top()
	for i := 0; i < n; i++ {
		p.take()
	}
	p.top()
	vfReach("end")
}

// full nodes: an arbitrary timer is added to or removed from a big heap
// vf: nofree
func VF_C13_bigheap() {
	p := vnewHeap()
	n := 26
	mul, gap := []int{1, 25, 7}[vfChoose("order", 3)], 4
	if vfThorough() {
		mul, gap = []int{1, 25, 7, 11, 3}[vfChoose("torder", 5)], 1
	}
	for i := 0; i < n; i++ {
		p.push(Epoch(1000 + 10*((i*mul)%n)))
	}
	for i, k := 0, vfChoose("takes", 3); i < k; i++ {
		p.take()
	}
	p.stop(vfChoose("stop", n/gap) * gap)
	e := vfI64("e")
	vfAssume(e > 900 && e < 1400)
	p.push(Epoch(e))
	p.top()
	p.stop(vfChoose("stop2", 4) * 8)
	for i := 0; i <= n; i++ {
		p.take()
	}
	p.top()
	vfReach("end")
}

// an arbitrary heap: a tree of given shape with arbitrary deadlines in heap order; then one operation
// vf: nofree
func VF_C13_step() {
	p := vnewHeap()
	shapes := [][]uint32{ // parents
		{0, 1, 1, 1, 1},
		{0, 1, 1, 1, 1, 2, 2, 2, 2},
		{0, 1, 1, 1, 2, 2, 3},
		{0, 1, 1, 2, 2, 2, 2},
		{0, 1, 2, 3, 3},
		{0, 1, 1, 2, 2, 3, 3},
		{0, 1, 1, 1, 1, 3, 3, 3, 3},
		{0, 1, 1, 1, 1, 5, 5, 5, 5},
	}
	if !vfThorough() {
		shapes = shapes[:6]
	}
	up := shapes[vfChoose("shape", len(shapes))]
	h := p.h
	for i := range up {
		t := &vtmr{at: Epoch(vfI64("e"))}
		t.t.h, t.t.i = 1, uint32(i+1)
		p.ts, p.in = append(p.ts, t), append(p.in, true)
		h.h = append(h.h, tItem{x: t, e: t.at})
		if u := up[i]; u != 0 {
			par := &h.h[u]
			vfAssume(par.e <= t.at)
			h.h[i+1].up, h.h[i+1].upi = u, par.downl
			par.down[par.downl] = uint32(i + 1)
			par.downl++
		}
	}
	h.top, h.size = 1, uint32(len(up))
	p.top()
	switch vfChoose("op", 2) {
	case 0:
		p.stop(vfChoose("at", len(up)))
	case 1:
		p.push(Epoch(vfI64("new")))
	}
	// the invariant again
	p.top()
	seen := map[uint32]bool{}
	var walk func(i uint32)
	walk = func(i uint32) {
		vfAssert(!seen[i], "a timer has one place")
		seen[i] = true
		it := &h.h[i]
		vfAssert(it.x.Timer().i == i, "a timer knows its place")
		for d := uint16(0); d < 4; d++ {
			if d < it.downl {
				c := it.down[d]
				vfAssert(c != 0 && h.h[c].up == i && h.h[c].upi == d, "the links of the heap agree")
				vfAssert(it.e <= h.h[c].e, "the heap is in order")
				walk(c)
			} else {
				vfAssert(it.down[d] == 0, "the links of the heap agree")
			}
		}
	}
	if h.top != 0 {
		walk(h.top)
	}
	n := 0
	for i, in := range p.in {
		if in {
			n++
			vfAssert(seen[p.ts[i].t.i], "every timer which waits is in the heap")
		}
	}
	vfAssert(len(seen) == n, "nothing else is in the heap")
	vfReach("end")
}
