package iproto

import (
	"sync/atomic"
	"time"
)

// more heaps are made while timers are armed
// vf: nofree
func VF_C13_grow() {
	before := &vtmr{}
	d := vfI64("d")
	vfAssume(d > 0 && d < vhour/4)
	before.arm(time.Duration(d))
	if vfChoose("wait", 2) == 1 {
		vfQuiesce()
	}
	atomic.StoreUint32(&heapI, 9998)
	n := 34
	t := make([]*vtmr, n)
	for i := range t {
		t[i] = &vtmr{}
		t[i].arm(time.Duration(vhour/4) + time.Duration(i%7)*time.Second)
	}
	k := []int{0, 1, 2, 20, n - 1}[vfChoose("stop", 5)]
	t[k].t.Stop()
	t[k].arm(time.Duration(vhour / 2))
	t[n-2-k/2].t.Stop()
	before.t.Stop()
	e := vfI64("e")
	vfAssume(e > 0 && e < vhour/4)
	before.arm(time.Duration(e))
	vfQuiesce()
	vfClockAdd(vhour/4 + 10*int64(time.Second))
	vfQuiesce()
	vfAssert(before.n == 1, "a timer fires")
	for i, x := range t {
		switch i {
		case k, n - 2 - k/2:
			vfAssert(x.n == 0, "a timer which was stopped does not fire")
		default:
			vfAssert(x.n == 1, "a timer fires")
		}
	}
	vfClockAdd(vhour / 4)
	vfQuiesce()
	vfAssert(t[k].n == 1, "a timer which was armed again fires")
	vfAssert(t[n-2-k/2].n == 0, "a timer which was stopped does not fire")
	vfReach("end")
}
