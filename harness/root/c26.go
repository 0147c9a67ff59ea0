package iproto

import "time"

// VF_C26_roundtrip: conversion to the epoch and back is the identity after 2010.
// vf: seq
func VF_C26_roundtrip() {
	e := vfI64("e")
	vfAssume(e > 0 && e < 1<<61)
	ep := Epoch(e)
	base := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
	tm := base.Add(time.Duration(e))
	vfAssert(NewEpoch(tm) == ep, "NewEpoch is the distance from the epoch base")
	vfAssert(ep.Time().Equal(tm), "Time is the inverse of NewEpoch")
	vfReach("end")
}

// vf: seq
func VF_C26_compare() {
	a, b := vfI64("a"), vfI64("b")
	vfAssume(a > -(1<<61) && a < 1<<61 && b > -(1<<61) && b < 1<<61)
	base := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
	ta, tb := base.Add(time.Duration(a)), base.Add(time.Duration(b))
	ea, eb := NewEpoch(ta), NewEpoch(tb)
	vfAssert(ea.Before(eb) == (a < b), "Before agrees with time order")
	vfAssert(int64(ea.Sub(eb)) == a-b, "Sub agrees with time difference")
	vfAssert(int64(ea.SubTime(tb)) == a-b, "SubTime agrees with time difference")
	d := vfI64("d")
	vfAssume(d > -(1<<60) && d < 1<<60)
	vfAssert(int64(ea.Add(time.Duration(d))) == a+d, "Add adds the duration")
	vfAssert(ea.Add(time.Duration(d)).Sub(ea) == time.Duration(d), "Add then Sub gives the duration back")
	vfAssert(ea.Zero() == (a == 0), "Zero only for the zero deadline")
	vfReach("end")
}

// a deadline seen from now
// vf: seq
func VF_C26_now() {
	base := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
	before := int64(time.Now().Sub(base))
	now := int64(NowEpoch())
	a := vfI64("a")
	vfAssume(a > -(1<<60) && a < 1<<60)
	e := Epoch(a)
	rem := int64(e.Remains())
	el := int64(e.Elapsed())
	sec := int64(time.Second)
	vfAssert(now >= before && now < before+sec, "now is the distance of the present from the epoch base")
	vfAssert(rem <= a-now && rem > a-now-sec, "what remains is the distance of the deadline from now")
	vfAssert(rem+el >= 0 && rem+el < sec, "what remains and what elapsed cancel out")
	d := vfI64("d")
	vfAssume(d > -(1<<60) && d < 1<<60)
	vfAssume(a-d < now-sec || a-d > now+sec)
	vfAssert(e.WillExpire(time.Duration(d)) == (a > 0 && a-d < now), "a deadline expires within a duration when it is nearer")
	vfReach("end")
}
