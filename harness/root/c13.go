package iproto

import "time"

// vtmr is something which expires.
type vtmr struct {
	t     Timer
	n     int
	when  Epoch // when it fired
	at    Epoch // its deadline
	armed bool
	act   func()
}

func (v *vtmr) Timer() *Timer { return &v.t }
func (v *vtmr) Expire() {
	v.n++
	v.when = NowEpoch()
	if v.act != nil {
		v.act()
	}
}
func (v *vtmr) arm(d time.Duration) {
	v.at = NowEpoch().Add(d)
	v.armed = true
	v.t.After(d, v)
}

// timers armed and stopped in any order, with any durations, and time passing in between
// vf: nofree time=200
func VF_C13_sequence() {
	n := 3
	if vfThorough() {
		n = 4
	}
	t := make([]*vtmr, n)
	for i := range t {
		t[i] = &vtmr{}
	}
	check := func() {
		vfQuiesce()
		now := NowEpoch()
		for _, x := range t {
			vfAssert(x.n <= 1, "a timer fires once")
			if x.n == 1 {
				vfAssert(x.when >= x.at, "a timer does not fire before its deadline")
			} else if x.armed {
				vfAssert(now <= x.at, "a timer fires when its deadline has passed")
			}
		}
	}
	for i := range t {
		d := vfI64("d")
		vfAssume(d >= 0 && d < vhour)
		t[i].arm(time.Duration(d))
	}
	k := vfChoose("stop", n+1)
	stop := func() {
		if k < n {
			t[k].t.Stop()
			if t[k].n == 0 {
				t[k].armed = false
			}
		}
	}
	when := vfChoose("when", 2)
	if when == 0 {
		stop()
	}
	adv := vfI64("adv")
	vfAssume(adv >= 0 && adv < vhour)
	vfClockAdd(adv)
	check()
	if when == 1 {
		stop()
	}
	vfClockAdd(vhour)
	check()
	for i, x := range t {
		vfAssert(x.n == int(vis(x.armed)), "a timer which is not stopped fires, one which is stopped does not")
		if i == k && x.armed {
			x.t.Stop()
		}
	}
	vfReach("end")
}

// a timer is used again after it fired or was stopped
// vf: nofree
func VF_C13_rearm() {
	a, b := &vtmr{}, &vtmr{}
	d1, d2 := vfI64("d1"), vfI64("d2")
	vfAssume(d1 > 0 && d1 < vhour/4 && d2 > 0 && d2 < vhour/4)
	b.arm(time.Duration(d2))
	if vfChoose("early", 2) == 1 {
		a.t.Stop() // it was never armed
	}
	a.arm(time.Duration(d1))
	fired := vfChoose("fire", 2) == 1
	if fired {
		vfClockAdd(vhour / 4)
		vfQuiesce()
		vfAssert(a.n == 1 && b.n == 1, "timers fire")
		if vfChoose("stop", 2) == 1 {
			a.t.Stop()
		}
	} else {
		a.t.Stop()
		if vfChoose("twice", 2) == 1 {
			a.t.Stop()
		}
	}
	n := a.n
	d3 := vfI64("d3")
	vfAssume(d3 > 0 && d3 < vhour/4)
	a.arm(time.Duration(d3))
	adv := vfI64("adv")
	vfAssume(adv >= 0 && adv < vhour/2)
	vfClockAdd(adv)
	vfQuiesce()
	now := NowEpoch()
	if a.n > n {
		vfAssert(a.n == n+1 && a.when >= a.at, "an armed timer fires once, not before its deadline")
	} else {
		vfAssert(now <= a.at, "an armed timer fires when its deadline has passed")
	}
	vfClockAdd(vhour / 4)
	vfQuiesce()
	vfAssert(a.n == n+1 && b.n == 1, "both timers fire in the end, once")
	vfReach("end")
}

// many timers
// vf: nofree time=200
func VF_C13_many() {
	n := 24
	t := make([]*vtmr, n)
	// concrete deadlines in a scrambled order, and one symbolic
	mul := []int{1, 5, 7, 11}[vfChoose("order", 4)]
	for i := range t {
		t[i] = &vtmr{}
		if i == 13 {
			d := vfI64("d")
			vfAssume(d >= 0 && d < 30*1000000)
			t[i].arm(time.Duration(d))
		} else {
			t[i].arm(time.Duration((i*mul)%n) * time.Millisecond)
		}
	}
	for i := 0; i < n; i += 5 {
		t[(i*mul)%n].t.Stop()
		t[(i*mul)%n].armed = false
	}
	for s := 0; s < 3; s++ {
		vfClockAdd(9*1000000 + 500000)
		vfQuiesce()
		now := NowEpoch()
		for _, x := range t {
			vfAssert(x.n <= 1 && (x.n == 0 || x.when >= x.at), "a timer fires once, not before its deadline")
			vfAssert(x.n == 1 || !x.armed || now <= x.at, "a timer fires when its deadline has passed")
		}
	}
	vfClockAdd(10 * 1000000)
	vfQuiesce()
	for _, x := range t {
		vfAssert(x.n == int(vis(x.armed)), "a timer which is not stopped fires, one which is stopped does not")
	}
	vfReach("end")
}

// arming and stopping by several goroutines while timers fire
// vf: preempt=1 tpreempt=2 time=200
func VF_C13_race() {
	a, b, c := &vtmr{}, &vtmr{}, &vtmr{}
	d := vfI64("d")
	vfAssume(d > 1000 && d < vhour/4)
	a.arm(time.Duration(d))
	stopped := false
	b.arm(time.Duration(d + 5000))
	go func() {
		c.arm(time.Duration(d - 500))
		b.t.Stop()
		stopped = b.n == 0
	}()
	late := vfChoose("late", 2) == 1
	if late {
		vfClockAdd(vhour / 2)
	}
	vfQuiesce()
	if !late {
		vfAssert(stopped && a.n == 0 && c.n == 0, "a timer does not fire before its deadline")
		vfClockAdd(vhour / 4)
		vfQuiesce()
	}
	// c may have been armed after the clock was moved
	vfClockAdd(vhour / 4)
	vfQuiesce()
	vfAssert(a.n == 1 && c.n == 1, "timers fire once")
	vfAssert(b.n == 0 || b.n == 1 && late, "a stopped timer does not fire")
	vfAssert(a.when >= a.at && c.when >= c.at, "a timer does not fire before its deadline")
	vfReach("end")
}

// an expiring timer arms or stops others
// vf: seq
func VF_C13_nested() {
	a, b, c := &vtmr{}, &vtmr{}, &vtmr{}
	d1, d2, d3 := vfI64("d1"), vfI64("d2"), vfI64("d3")
	vfAssume(d1 >= 0 && d1 < vhour/8 && d2 >= 0 && d2 < vhour/8 && d3 >= 0 && d3 < vhour/8)
	bBefore := false
	a.act = func() {
		bBefore = b.n == 1
		b.t.Stop()
		c.arm(time.Duration(d3))
	}
	a.arm(time.Duration(d1))
	b.arm(time.Duration(d2))
	vfClockAdd(vhour / 8)
	vfQuiesce()
	vfClockAdd(vhour / 8)
	vfQuiesce()
	vfAssert(a.n == 1 && c.n == 1 && c.when >= c.at, "timers fire")
	vfAssert(b.n == int(vis(bBefore)) || b.n == 1, "a stopped timer does not fire")
	vfReach("end")
}

// a timer armed while others are waited for
// vf: nofree
func VF_C13_earlier() {
	t := [3]*vtmr{{}, {}, {}}
	d0 := vfI64("d0")
	vfAssume(d0 > 0 && d0 < vhour/2)
	t[0].arm(time.Duration(d0))
	t[1].arm(time.Duration(vhour))
	vfQuiesce()
	if vfChoose("late", 2) == 1 {
		a := vfI64("a")
		vfAssume(a >= 0 && a < d0)
		vfClockAdd(a)
		vfQuiesce()
	}
	d2 := vfI64("d2")
	vfAssume(d2 >= 0 && d2 < vhour/2)
	t[2].arm(time.Duration(d2))
	vfQuiesce()
	adv := vfI64("adv")
	vfAssume(adv >= 0 && adv < vhour/2)
	vfClockAdd(adv)
	vfQuiesce()
	now := NowEpoch()
	for _, x := range t {
		if x.n == 0 {
			vfAssert(now <= x.at, "a timer fires when its deadline has passed")
		} else {
			vfAssert(x.n == 1 && x.when >= x.at, "a timer fires once, not before its deadline")
		}
	}
	vfReach("end")
}
