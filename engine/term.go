package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Op is the operator of a term.
type Op uint8

const (
	OConst Op = iota
	OVar
	OSelect // base array (name) at a[0] (64 bit index)
	OUF     // uninterpreted function (name) of a[0]
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // k = lo, w = width
	OZext
	OSext
)

// Term is a hash-consed bit-vector (w>0) or boolean (w==0) expression.
type Term struct {
	op   Op
	w    uint8
	id   int32
	k    uint64
	name string
	a    [3]*Term
	n    uint8
}

type termKey struct {
	op         Op
	w          uint8
	k          uint64
	name       string
	a0, a1, a2 int32
}

// Pool hash-conses terms; it is not shared between workers.
type Pool struct {
	tab  map[termKey]*Term
	all  int32
	T, F *Term
}

func newPool() *Pool {
	p := &Pool{tab: make(map[termKey]*Term, 1<<14)}
	p.T = p.mk(OConst, 0, 1, "")
	p.F = p.mk(OConst, 0, 0, "")
	return p
}

func (p *Pool) mk(op Op, w uint8, k uint64, name string, a ...*Term) *Term {
	key := termKey{op: op, w: w, k: k, name: name, a0: -1, a1: -1, a2: -1}
	switch len(a) {
	case 3:
		key.a2 = a[2].id
		fallthrough
	case 2:
		key.a1 = a[1].id
		fallthrough
	case 1:
		key.a0 = a[0].id
	}
	if t, ok := p.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, name: name, id: p.all, n: uint8(len(a))}
	copy(t.a[:], a)
	p.all++
	p.tab[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.k == 0 }

func (p *Pool) BV(w uint8, v uint64) *Term { return p.mk(OConst, w, v&mask(w), "") }
func (p *Pool) Bool(b bool) *Term {
	if b {
		return p.T
	}
	return p.F
}
func (p *Pool) Int(v int64) *Term              { return p.BV(64, uint64(v)) }
func (p *Pool) Var(name string, w uint8) *Term { return p.mk(OVar, w, 0, name) }

func (p *Pool) Select(base string, w uint8, idx *Term) *Term {
	return p.mk(OSelect, w, 0, base, idx)
}
func (p *Pool) UF(name string, w uint8, a *Term) *Term {
	// the two conversions are mutually inverse on canonical values
	if a.op == OUF {
		if name == "f64to32" && a.name == "f32to64" {
			return a.a[0]
		}
	}
	return p.mk(OUF, w, 0, name, a)
}

func (p *Pool) Not(a *Term) *Term {
	if a.isConst() {
		return p.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return p.mk(ONot, 0, 0, "", a)
}
func (p *Pool) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return p.F
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return p.F
	}
	return p.mk(OAnd, 0, 0, "", a, b)
}
func (p *Pool) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return p.T
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return p.T
	}
	return p.mk(OOr, 0, 0, "", a, b)
}
func (p *Pool) Implies(a, b *Term) *Term { return p.Or(p.Not(a), b) }

func (p *Pool) Eq(a, b *Term) *Term {
	if a == b {
		return p.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return p.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return p.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			in := a.a[0]
			if b.k&^mask(in.w) != 0 {
				return p.F
			}
			return p.Eq(in, p.BV(in.w, b.k))
		case OConcat:
			lo := a.a[1]
			return p.And(p.Eq(a.a[0], p.BV(a.a[0].w, b.k>>lo.w)), p.Eq(lo, p.BV(lo.w, b.k)))
		case OIte:
			c, x, y := a.a[0], a.a[1], a.a[2]
			if x.isConst() && y.isConst() {
				ex, ey := x.k == b.k, y.k == b.k
				switch {
				case ex && ey:
					return p.T
				case ex:
					return c
				case ey:
					return p.Not(c)
				default:
					return p.F
				}
			}
		case OAdd:
			if a.a[1].isConst() {
				return p.Eq(a.a[0], p.BV(a.w, b.k-a.a[1].k))
			}
		}
	}
	if a.op == OZext && b.op == OZext && a.a[0].w == b.a[0].w {
		return p.Eq(a.a[0], b.a[0])
	}
	if a.op == OSext && b.op == OSext && a.a[0].w == b.a[0].w {
		return p.Eq(a.a[0], b.a[0])
	}
	if a.op == OAdd && b.op == OAdd && a.a[0] == b.a[0] {
		return p.Eq(a.a[1], b.a[1])
	}
	if a.op == OConcat && b.op == OConcat && a.a[1].w == b.a[1].w {
		return p.And(p.Eq(a.a[0], b.a[0]), p.Eq(a.a[1], b.a[1]))
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return p.mk(OEq, 0, 0, "", a, b)
}

func (p *Pool) Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return p.Not(c)
		}
		if a.isTrue() {
			return p.Or(c, b)
		}
		if b.isFalse() {
			return p.And(c, a)
		}
		if a.isFalse() {
			return p.And(p.Not(c), b)
		}
		if b.isTrue() {
			return p.Or(p.Not(c), a)
		}
	}
	if c.op == ONot {
		return p.Ite(c.a[0], b, a)
	}
	return p.mk(OIte, a.w, 0, "", c, a, b)
}

// ---- bit-vector pieces: a concatenation, most significant first ----

func (p *Pool) pieces(t *Term, out []*Term) []*Term {
	switch t.op {
	case OConcat:
		out = p.pieces(t.a[0], out)
		return p.pieces(t.a[1], out)
	case OZext:
		out = append(out, p.BV(t.w-t.a[0].w, 0))
		return p.pieces(t.a[0], out)
	}
	return append(out, t)
}

func isZero(t *Term) bool { return t.op == OConst && t.k == 0 }

func (p *Pool) fromPieces(ps []*Term) *Term {
	// merge neighbours
	out := ps[:0:0]
	for _, q := range ps {
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.isConst() && q.isConst() && l.w+q.w <= 64 {
				out[n-1] = p.BV(l.w+q.w, l.k<<q.w|q.k)
				continue
			}
			if l.op == OExtract && q.op == OExtract && l.a[0] == q.a[0] && l.k == q.k+uint64(q.w) {
				out[n-1] = p.Extract(l.a[0], q.k, l.w+q.w)
				continue
			}
		}
		out = append(out, q)
	}
	if len(out) == 1 {
		return out[0]
	}
	// leading zeroes become a zero extension
	if isZero(out[0]) {
		rest := p.rawConcat(out[1:])
		return p.mk(OZext, rest.w+out[0].w, 0, "", rest)
	}
	return p.rawConcat(out)
}

func (p *Pool) rawConcat(ps []*Term) *Term {
	t := ps[len(ps)-1]
	for i := len(ps) - 2; i >= 0; i-- {
		t = p.mk(OConcat, t.w+ps[i].w, 0, "", ps[i], t)
	}
	return t
}

func (p *Pool) Concat(a, b *Term) *Term {
	return p.fromPieces(p.pieces(b, p.pieces(a, nil)))
}

// Extract takes w bits from bit lo.
func (p *Pool) Extract(t *Term, lo uint64, w uint8) *Term {
	if lo == 0 && w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return p.BV(w, t.k>>lo)
	case OExtract:
		return p.Extract(t.a[0], t.k+lo, w)
	case OConcat, OZext:
		ps := p.pieces(t, nil)
		var out []*Term
		pos := uint64(t.w)
		for _, q := range ps {
			hi := pos
			l := pos - uint64(q.w)
			pos = l
			a, b := l, hi
			if a < lo {
				a = lo
			}
			if b > lo+uint64(w) {
				b = lo + uint64(w)
			}
			if a < b {
				out = append(out, p.Extract(q, a-l, uint8(b-a)))
			}
		}
		return p.fromPieces(out)
	case OSext:
		in := t.a[0]
		if lo+uint64(w) <= uint64(in.w) {
			return p.Extract(in, lo, w)
		}
	case OBAnd, OBOr, OBXor:
		if t.a[1].isConst() {
			return p.bitop(t.op, p.Extract(t.a[0], lo, w), p.Extract(t.a[1], lo, w))
		}
	case OBNot:
		return p.BNot(p.Extract(t.a[0], lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 && w < t.w {
			return p.bin(t.op, p.Extract(t.a[0], 0, w), p.Extract(t.a[1], 0, w))
		}
	case OIte:
		if t.a[1].isConst() || t.a[2].isConst() {
			return p.Ite(t.a[0], p.Extract(t.a[1], lo, w), p.Extract(t.a[2], lo, w))
		}
	}
	return p.mk(OExtract, w, lo, "", t)
}

func (p *Pool) Zext(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if t.isConst() {
		return p.BV(w, t.k)
	}
	if t.op == OZext {
		return p.Zext(t.a[0], w)
	}
	return p.mk(OZext, w, 0, "", t)
}

func (p *Pool) Sext(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if t.isConst() {
		return p.BV(w, uint64(sext64(t.k, t.w)))
	}
	if t.op == OZext {
		return p.Zext(t.a[0], w)
	}
	if t.op == OSext {
		return p.Sext(t.a[0], w)
	}
	return p.mk(OSext, w, 0, "", t)
}

// Resize converts to w bits, sign- or zero-extending.
func (p *Pool) Resize(t *Term, w uint8, signed bool) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return p.Extract(t, 0, w)
	}
	if signed {
		return p.Sext(t, w)
	}
	return p.Zext(t, w)
}

func (p *Pool) BNot(a *Term) *Term {
	if a.isConst() {
		return p.BV(a.w, ^a.k)
	}
	if a.op == OBNot {
		return a.a[0]
	}
	return p.mk(OBNot, a.w, 0, "", a)
}
func (p *Pool) Neg(a *Term) *Term { return p.bin(OSub, p.BV(a.w, 0), a) }

// overlay combines the pieces of a and b when at each position one is constant zero (for or/xor/add).
func (p *Pool) overlay(a, b *Term) *Term {
	pa, pb := p.pieces(a, nil), p.pieces(b, nil)
	if len(pa) == 1 && len(pb) == 1 {
		return nil
	}
	var out []*Term
	i, j := 0, 0
	var ra, rb *Term
	for i < len(pa) || ra != nil {
		if ra == nil {
			ra = pa[i]
			i++
		}
		if rb == nil {
			rb = pb[j]
			j++
		}
		w := ra.w
		if rb.w < w {
			w = rb.w
		}
		var ha, hb *Term
		ha, ra = p.splitHi(ra, w)
		hb, rb = p.splitHi(rb, w)
		switch {
		case isZero(ha):
			out = append(out, hb)
		case isZero(hb):
			out = append(out, ha)
		default:
			return nil
		}
	}
	return p.fromPieces(out)
}

func (p *Pool) splitHi(t *Term, w uint8) (hi, rest *Term) {
	if t.w == w {
		return t, nil
	}
	return p.Extract(t, uint64(t.w-w), w), p.Extract(t, 0, t.w-w)
}

func (p *Pool) bitop(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		switch op {
		case OBAnd:
			return p.BV(a.w, a.k&b.k)
		case OBOr:
			return p.BV(a.w, a.k|b.k)
		default:
			return p.BV(a.w, a.k^b.k)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	full := mask(a.w)
	switch op {
	case OBAnd:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == full {
				return a
			}
			// contiguous mask
			tz := bits.TrailingZeros64(b.k)
			if m := b.k >> tz; m&(m+1) == 0 {
				w := uint8(bits.Len64(m))
				mid := p.Extract(a, uint64(tz), w)
				var ps []*Term
				if top := a.w - w - uint8(tz); top > 0 {
					ps = append(ps, p.BV(top, 0))
				}
				ps = p.pieces(mid, ps)
				if tz > 0 {
					ps = append(ps, p.BV(uint8(tz), 0))
				}
				return p.fromPieces(ps)
			}
		}
	case OBOr:
		if a == b {
			return a
		}
		if isZero(b) {
			return a
		}
		if b.isConst() && b.k == full {
			return b
		}
		if o := p.overlay(a, b); o != nil {
			return o
		}
	case OBXor:
		if a == b {
			return p.BV(a.w, 0)
		}
		if isZero(b) {
			return a
		}
		if b.isConst() && b.k == full {
			return p.BNot(a)
		}
		if o := p.overlay(a, b); o != nil {
			return o
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return p.mk(op, a.w, 0, "", a, b)
}

func (p *Pool) bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bin %d width mismatch %d %d", op, a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		switch op {
		case OAdd:
			return p.BV(w, a.k+b.k)
		case OSub:
			return p.BV(w, a.k-b.k)
		case OMul:
			return p.BV(w, a.k*b.k)
		case OUDiv:
			if b.k != 0 {
				return p.BV(w, a.k/b.k)
			}
		case OURem:
			if b.k != 0 {
				return p.BV(w, a.k%b.k)
			}
		case OSDiv:
			if b.k != 0 {
				x, y := sext64(a.k, w), sext64(b.k, w)
				if y == -1 {
					return p.BV(w, uint64(-x))
				}
				return p.BV(w, uint64(x/y))
			}
		case OSRem:
			if b.k != 0 {
				x, y := sext64(a.k, w), sext64(b.k, w)
				if y == -1 {
					return p.BV(w, 0)
				}
				return p.BV(w, uint64(x%y))
			}
		}
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if isZero(b) {
			return a
		}
		if b.isConst() && a.op == OAdd && a.a[1].isConst() {
			return p.bin(OAdd, a.a[0], p.BV(w, a.a[1].k+b.k))
		}
		if a.op == OAdd && a.a[1].isConst() && !b.isConst() {
			return p.bin(OAdd, p.bin(OAdd, a.a[0], b), a.a[1])
		}
		if b.op == OAdd && b.a[1].isConst() {
			return p.bin(OAdd, p.bin(OAdd, a, b.a[0]), b.a[1])
		}
		// x + (y - x) = y
		if b.op == OSub && b.a[1] == a {
			return b.a[0]
		}
		if a.op == OSub && a.a[1] == b {
			return a.a[0]
		}
		if a.id > b.id && !b.isConst() {
			a, b = b, a
		}
	case OSub:
		if a == b {
			return p.BV(w, 0)
		}
		if b.isConst() {
			return p.bin(OAdd, a, p.BV(w, -b.k))
		}
		// (x + y) - x
		if a.op == OAdd {
			if a.a[0] == b {
				return a.a[1]
			}
			if a.a[1] == b {
				return a.a[0]
			}
			if a.a[1].isConst() {
				return p.bin(OAdd, p.bin(OSub, a.a[0], b), a.a[1])
			}
		}
		if b.op == OAdd {
			if b.a[1].isConst() {
				return p.bin(OAdd, p.bin(OSub, a, b.a[0]), p.BV(w, -b.a[1].k))
			}
		}
		// x - (x - y) = y
		if b.op == OSub && b.a[0] == a {
			return b.a[1]
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if b.k&(b.k-1) == 0 {
				return p.Shl(a, p.BV(w, uint64(bits.TrailingZeros64(b.k))))
			}
		}
	case OUDiv:
		if b.isConst() && b.k != 0 && b.k&(b.k-1) == 0 {
			return p.Lshr(a, p.BV(w, uint64(bits.TrailingZeros64(b.k))))
		}
	case OURem:
		if b.isConst() && b.k != 0 && b.k&(b.k-1) == 0 {
			return p.bitop(OBAnd, a, p.BV(w, b.k-1))
		}
	}
	return p.mk(op, w, 0, "", a, b)
}

func (p *Pool) Add(a, b *Term) *Term { return p.bin(OAdd, a, b) }
func (p *Pool) Sub(a, b *Term) *Term { return p.bin(OSub, a, b) }

// shifts follow SMT-LIB (amount >= width gives 0 / sign)
func (p *Pool) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(a.w) {
			return p.BV(a.w, 0)
		}
		return p.Concat(p.Extract(a, 0, a.w-uint8(b.k)), p.BV(uint8(b.k), 0))
	}
	return p.mk(OShl, a.w, 0, "", a, b)
}
func (p *Pool) Lshr(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(a.w) {
			return p.BV(a.w, 0)
		}
		return p.Zext(p.Extract(a, b.k, a.w-uint8(b.k)), a.w)
	}
	return p.mk(OLshr, a.w, 0, "", a, b)
}
func (p *Pool) Ashr(a, b *Term) *Term {
	if b.isConst() {
		k := b.k
		if k == 0 {
			return a
		}
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		return p.Sext(p.Extract(a, k, a.w-uint8(k)), a.w)
	}
	return p.mk(OAshr, a.w, 0, "", a, b)
}

// urange gives cheap unsigned bounds.
func (p *Pool) umax(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OZext:
		return p.umax(t.a[0])
	case OIte:
		x, y := p.umax(t.a[1]), p.umax(t.a[2])
		if x > y {
			return x
		}
		return y
	case OConcat:
		return p.umax(t.a[0])<<t.a[1].w | mask(t.a[1].w)
	}
	return mask(t.w)
}

func (p *Pool) Ult(a, b *Term) *Term {
	if a == b {
		return p.F
	}
	if a.isConst() && b.isConst() {
		return p.Bool(a.k < b.k)
	}
	if isZero(b) {
		return p.F
	}
	if a.isConst() && a.k == mask(a.w) {
		return p.F
	}
	if b.isConst() && p.umax(a) < b.k {
		return p.T
	}
	if a.isConst() && p.umax(b) <= a.k {
		return p.F
	}
	if a.op == OZext && b.op == OZext && a.a[0].w == b.a[0].w {
		return p.Ult(a.a[0], b.a[0])
	}
	return p.mk(OUlt, 0, 0, "", a, b)
}
func (p *Pool) Ule(a, b *Term) *Term { return p.Not(p.Ult(b, a)) }

func (p *Pool) nonneg(t *Term) bool {
	return t.w > 0 && p.umax(t) <= mask(t.w)>>1
}
func (p *Pool) Slt(a, b *Term) *Term {
	if a == b {
		return p.F
	}
	if a.isConst() && b.isConst() {
		return p.Bool(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	if p.nonneg(a) && p.nonneg(b) {
		return p.Ult(a, b)
	}
	if a.op == OSext && b.op == OSext && a.a[0].w == b.a[0].w {
		return p.Slt(a.a[0], b.a[0])
	}
	return p.mk(OSlt, 0, 0, "", a, b)
}
func (p *Pool) Sle(a, b *Term) *Term { return p.Not(p.Slt(b, a)) }

// ---- SMT-LIB text ----

func symName(s string) string { return "|" + s + "|" }

func (t *Term) constText() string {
	if t.w == 0 {
		if t.k == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		s := strconv.FormatUint(t.k, 16)
		return "#x" + strings.Repeat("0", int(t.w)/4-len(s)) + s
	}
	s := strconv.FormatUint(t.k, 2)
	return "#b" + strings.Repeat("0", int(t.w)-len(s)) + s
}

var opText = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot",
	ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat"}

func sortText(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// Model is a (partial) assignment.
type Model struct {
	vars map[string]uint64
	sel  map[string]map[uint64]uint64
	uf   map[string]map[uint64]uint64
	memo map[*Term]uint64
}

func newModel() *Model {
	return &Model{vars: map[string]uint64{}, sel: map[string]map[uint64]uint64{}, uf: map[string]map[uint64]uint64{}, memo: map[*Term]uint64{}}
}

func (m *Model) get(tab map[string]map[uint64]uint64, name string, i uint64) (uint64, bool) {
	v, ok := tab[name][i]
	return v, ok
}

// Eval evaluates t; unknown leaves are zero when total is set, otherwise ok=false.
func (m *Model) Eval(t *Term, total bool) (v uint64, ok bool) {
	if t.op == OConst {
		return t.k, true
	}
	if v, ok := m.memo[t]; ok {
		return v, true
	}
	v, ok = m.eval1(t, total)
	if ok {
		m.memo[t] = v
	}
	return
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) eval1(t *Term, total bool) (uint64, bool) {
	switch t.op {
	case OVar:
		v, ok := m.vars[t.name]
		return v, ok || total
	case OSelect, OUF:
		i, ok := m.Eval(t.a[0], total)
		if !ok {
			return 0, false
		}
		tab := m.sel
		if t.op == OUF {
			tab = m.uf
		}
		v, ok := m.get(tab, t.name, i)
		return v, ok || total
	case OIte:
		c, ok := m.Eval(t.a[0], total)
		if !ok {
			return 0, false
		}
		if c == 1 {
			return m.Eval(t.a[1], total)
		}
		return m.Eval(t.a[2], total)
	case OAnd, OOr:
		x, ok1 := m.Eval(t.a[0], total)
		stop := uint64(0)
		if t.op == OOr {
			stop = 1
		}
		if ok1 && x == stop {
			return stop, true
		}
		y, ok2 := m.Eval(t.a[1], total)
		if ok2 && y == stop {
			return stop, true
		}
		return 1 - stop, ok1 && ok2
	}
	var a [3]uint64
	for i := 0; i < int(t.n); i++ {
		v, ok := m.Eval(t.a[i], total)
		if !ok {
			return 0, false
		}
		a[i] = v
	}
	w := t.w
	mk := mask(w)
	x, y := a[0], a[1]
	var aw uint8
	if t.n > 0 {
		aw = t.a[0].w
	}
	switch t.op {
	case ONot:
		return 1 - x, true
	case OEq:
		return b2u(x == y), true
	case OAdd:
		return (x + y) & mk, true
	case OSub:
		return (x - y) & mk, true
	case OMul:
		return (x * y) & mk, true
	case OUDiv:
		if y == 0 {
			return mk, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv, OSRem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if t.op == OSRem {
				return x, true
			}
			if sx < 0 {
				return 1, true
			}
			return mk, true
		}
		if sy == -1 {
			if t.op == OSRem {
				return 0, true
			}
			return uint64(-sx) & mk, true
		}
		if t.op == OSRem {
			return uint64(sx%sy) & mk, true
		}
		return uint64(sx/sy) & mk, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OBNot:
		return ^x & mk, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return x << y & mk, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext64(x, w)>>y) & mk, true
	case OUlt:
		return b2u(x < y), true
	case OUle:
		return b2u(x <= y), true
	case OSlt:
		return b2u(sext64(x, aw) < sext64(y, aw)), true
	case OSle:
		return b2u(sext64(x, aw) <= sext64(y, aw)), true
	case OConcat:
		return (x<<t.a[1].w | y) & mk, true
	case OExtract:
		return x >> t.k & mk, true
	case OZext:
		return x, true
	case OSext:
		return uint64(sext64(x, aw)) & mk, true
	}
	panic("eval op")
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return t.constText()
		}
		return strconv.FormatUint(t.k, 10)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	name := opText[t.op]
	switch t.op {
	case OSelect, OUF:
		name = t.name
	case OExtract:
		name = fmt.Sprintf("ext%d:%d", t.k, t.w)
	case OZext, OSext:
		name = fmt.Sprintf("ze%d", t.w)
	}
	s := "(" + name
	for i := 0; i < int(t.n); i++ {
		s += " " + t.a[i].str(d-1)
	}
	return s + ")"
}

// rebuild makes a term like t with other operands.
func (p *Pool) rebuild(t *Term, a [3]*Term) *Term {
	switch t.op {
	case OSelect:
		return p.Select(t.name, t.w, a[0])
	case OUF:
		return p.UF(t.name, t.w, a[0])
	case ONot:
		return p.Not(a[0])
	case OAnd:
		return p.And(a[0], a[1])
	case OOr:
		return p.Or(a[0], a[1])
	case OEq:
		return p.Eq(a[0], a[1])
	case OIte:
		return p.Ite(a[0], a[1], a[2])
	case OBAnd, OBOr, OBXor:
		return p.bitop(t.op, a[0], a[1])
	case OBNot:
		return p.BNot(a[0])
	case OShl:
		return p.Shl(a[0], a[1])
	case OLshr:
		return p.Lshr(a[0], a[1])
	case OAshr:
		return p.Ashr(a[0], a[1])
	case OUlt:
		return p.Ult(a[0], a[1])
	case OSlt:
		return p.Slt(a[0], a[1])
	case OConcat:
		return p.Concat(a[0], a[1])
	case OExtract:
		return p.Extract(a[0], t.k, t.w)
	case OZext:
		return p.Zext(a[0], t.w)
	case OSext:
		return p.Sext(a[0], t.w)
	case OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem:
		return p.bin(t.op, a[0], a[1])
	}
	return p.mk(t.op, t.w, t.k, t.name, a[:t.n]...)
}
