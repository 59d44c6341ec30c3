package main

// Hash-consed bit-vector / boolean terms with constant folding.

import (
	"fmt"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLshr
	OAshr
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // val = hi<<8|lo
	OZext
	OSext
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat"}

// Term: w == 0 is Bool, otherwise a bit-vector of that width (<= 64).
type Term struct {
	id      int32
	op      Op
	w       uint8
	a, b, c *Term
	val     uint64
	name    string
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
	name    string
}

// TermCtx owns a hash-consing table. One per worker; never shared.
type TermCtx struct {
	tab  map[tkey]*Term
	next int32
	T, F *Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}}
	c.T = c.mk(OConst, 0, nil, nil, nil, 1, "")
	c.F = c.mk(OConst, 0, nil, nil, nil, 0, "")
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *TermCtx) mk(op Op, w uint8, a, b, d *Term, val uint64, name string) *Term {
	k := tkey{op, w, tid(a), tid(b), tid(d), val, name}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: c.next, op: op, w: w, a: a, b: b, c: d, val: val, name: name}
	c.next++
	c.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (t *Term) isC() bool     { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }
func (t *Term) sval() int64   { return sx(t.val, t.w) }

func (c *TermCtx) BV(v uint64, w uint8) *Term { return c.mk(OConst, w, nil, nil, nil, v&mask(w), "") }
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *TermCtx) Var(name string, w uint8) *Term { return c.mk(OVar, w, nil, nil, nil, 0, name) }

func (c *TermCtx) Not(a *Term) *Term {
	switch {
	case a.isC():
		return c.Bool(a.val == 0)
	case a.op == ONot:
		return a.a
	}
	return c.mk(ONot, 0, a, nil, nil, 0, "")
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return c.F
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, a, b, nil, 0, "")
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return c.T
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, a, b, nil, 0, "")
}

func (c *TermCtx) AndN(ts ...*Term) *Term {
	r := c.T
	for _, t := range ts {
		r = c.And(r, t)
	}
	return r
}
func (c *TermCtx) OrN(ts ...*Term) *Term {
	r := c.F
	for _, t := range ts {
		r = c.Or(r, t)
	}
	return r
}
func (c *TermCtx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *TermCtx) Ite(k, a, b *Term) *Term {
	if k.isTrue() || a == b {
		return a
	}
	if k.isFalse() {
		return b
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return k
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(k)
		}
		if a.isTrue() {
			return c.Or(k, b)
		}
		if a.isFalse() {
			return c.And(c.Not(k), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(k), a)
		}
		if b.isFalse() {
			return c.And(k, a)
		}
	}
	if k.op == ONot {
		return c.Ite(k.a, b, a)
	}
	if a.op == OIte && a.a == k {
		a = a.b
	}
	if b.op == OIte && b.a == k {
		b = b.c
	}
	if a == b {
		return a
	}
	return c.mk(OIte, a.w, k, a, b, 0, "")
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isC() && b.isC() {
		return c.Bool(a.val == b.val)
	}
	if a.isC() {
		a, b = b, a
	}
	if a.w == 0 && b.isC() {
		if b.val == 1 {
			return a
		}
		return c.Not(a)
	}
	if b.isC() {
		switch a.op {
		case OIte:
			if a.b.isC() || a.c.isC() {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OZext:
			if b.val > mask(a.a.w) {
				return c.F
			}
			return c.Eq(a.a, c.BV(b.val, a.a.w))
		case OAdd:
			if a.b.isC() {
				return c.Eq(a.a, c.BV(b.val-a.b.val, a.w))
			}
		case OConcat:
			lo := a.b.w
			return c.And(c.Eq(a.a, c.BV(b.val>>lo, a.a.w)), c.Eq(a.b, c.BV(b.val, lo)))
		}
	}
	if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
		return c.And(c.Eq(a.a, b.a), c.Eq(a.b, b.b))
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.id > b.id && !b.isC() {
		a, b = b, a
	}
	return c.mk(OEq, 0, a, b, nil, 0, "")
}

func foldBin(op Op, x, y uint64, w uint8) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return (x / y) & m, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return (x % y) & m, true
	case OSDiv:
		if y == 0 {
			return 0, false
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case OSRem:
		if y == 0 {
			return 0, false
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		s := sx(x, w)
		if y >= uint64(w) {
			y = 63
		}
		return uint64(s>>y) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	}
	return 0, false
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %s width mismatch %d %d", opNames[op], a.w, b.w))
	}
	w := a.w
	if a.isC() && b.isC() {
		if v, ok := foldBin(op, a.val, b.val, w); ok {
			return c.BV(v, w)
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isC() {
			a, b = b, a
		}
	}
	zero := b.isC() && b.val == 0
	switch op {
	case OAdd:
		if zero {
			return a
		}
		if b.isC() && a.op == OAdd && a.b.isC() {
			return c.Bin(OAdd, a.a, c.BV(a.b.val+b.val, w))
		}
		if !b.isC() {
			if b.op == OAdd && b.b.isC() { // a + (x + k) -> (a+x)+k
				return c.Bin(OAdd, c.Bin(OAdd, a, b.a), b.b)
			}
			if a.op == OAdd && a.b.isC() {
				return c.Bin(OAdd, c.Bin(OAdd, a.a, b), a.b)
			}
			if b.op == ONeg && b.a == a {
				return c.BV(0, w)
			}
			if a.op == OSub && a.b == b {
				return a.a
			}
			if b.op == OSub && b.b == a {
				return b.a
			}
			if a.id > b.id {
				a, b = b, a
			}
		}
	case OSub:
		if zero {
			return a
		}
		if a == b {
			return c.BV(0, w)
		}
		if b.isC() {
			return c.Bin(OAdd, a, c.BV(-b.val, w))
		}
		if a.isC() && a.val == 0 {
			return c.Neg(b)
		}
		if a.op == OAdd {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
	case OMul:
		if zero {
			return b
		}
		if b.isC() && b.val == 1 {
			return a
		}
		if b.isC() && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OShl, a, c.BV(uint64(bits.TrailingZeros64(b.val)), w))
		}
	case OBAnd:
		if zero {
			return b
		}
		if b.isC() && b.val == mask(w) || a == b {
			return a
		}
		if b.isC() && b.val != 0 && (b.val&(b.val+1)) == 0 && a.op != OIte { // low-bits mask
			n := uint8(bits.Len64(b.val))
			if a.op == OZext && a.a.w <= n {
				return a
			}
			return c.Zext(c.Extract(a, n-1, 0), w)
		}
	case OBOr, OBXor:
		if zero {
			return a
		}
		if a == b {
			if op == OBXor {
				return c.BV(0, w)
			}
			return a
		}
		if op == OBOr && b.isC() && b.val == mask(w) {
			return b
		}
	case OShl, OLshr, OAshr:
		if zero {
			return a
		}
		if b.isC() && b.val >= uint64(w) && op != OAshr {
			return c.BV(0, w)
		}
		if b.isC() && op == OShl && b.val < uint64(w) {
			k := uint8(b.val)
			return c.Concat(c.Extract(a, w-1-k, 0), c.BV(0, k))
		}
		if b.isC() && op == OLshr && b.val < uint64(w) {
			k := uint8(b.val)
			return c.Zext(c.Extract(a, w-1, k), w)
		}
	case OUDiv:
		if b.isC() && b.val == 1 {
			return a
		}
		if b.isC() && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OLshr, a, c.BV(uint64(bits.TrailingZeros64(b.val)), w))
		}
	case OSDiv:
		if b.isC() && b.val == 1 {
			return a
		}
	case OURem:
		if b.isC() && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OBAnd, a, c.BV(b.val-1, w))
		}
	}
	if a.op == OIte && b.isC() && a.b.isC() && a.c.isC() && op != OSDiv && op != OSRem {
		return c.Ite(a.a, c.Bin(op, a.b, b), c.Bin(op, a.c, b))
	}
	return c.mk(op, w, a, b, nil, 0, "")
}

func (c *TermCtx) Neg(a *Term) *Term {
	if a.isC() {
		return c.BV(-a.val, a.w)
	}
	if a.op == ONeg {
		return a.a
	}
	return c.mk(ONeg, a.w, a, nil, nil, 0, "")
}
func (c *TermCtx) BNot(a *Term) *Term {
	if a.isC() {
		return c.BV(^a.val, a.w)
	}
	if a.op == OBNot {
		return a.a
	}
	return c.mk(OBNot, a.w, a, nil, nil, 0, "")
}

func (c *TermCtx) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("Cmp width mismatch")
	}
	if a.isC() && b.isC() {
		switch op {
		case OUlt:
			return c.Bool(a.val < b.val)
		case OUle:
			return c.Bool(a.val <= b.val)
		case OSlt:
			return c.Bool(a.sval() < b.sval())
		case OSle:
			return c.Bool(a.sval() <= b.sval())
		}
	}
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	if a.op == OIte && b.isC() && (a.b.isC() || a.c.isC()) {
		return c.Ite(a.a, c.Cmp(op, a.b, b), c.Cmp(op, a.c, b))
	}
	if b.op == OIte && a.isC() && (b.b.isC() || b.c.isC()) {
		return c.Ite(b.a, c.Cmp(op, a, b.b), c.Cmp(op, a, b.c))
	}
	if op == OUlt && b.isC() && b.val == 0 {
		return c.F
	}
	// zext narrowing: comparisons of a zero-extended value with a constant
	if a.op == OZext && b.isC() {
		m := mask(a.a.w)
		bb := b.val
		signedNeg := (op == OSlt || op == OSle) && b.sval() < 0
		if signedNeg {
			return c.F
		}
		if bb > m {
			return c.T
		}
		if op == OSlt {
			op = OUlt
		} else if op == OSle {
			op = OUle
		}
		return c.Cmp(op, a.a, c.BV(bb, a.a.w))
	}
	if b.op == OZext && a.isC() {
		m := mask(b.a.w)
		if (op == OSlt || op == OSle) && a.sval() < 0 {
			return c.T
		}
		if a.val > m {
			return c.F
		}
		if op == OSlt {
			op = OUlt
		} else if op == OSle {
			op = OUle
		}
		return c.Cmp(op, c.BV(a.val, b.a.w), b.a)
	}
	return c.mk(op, 0, a, b, nil, 0, "")
}

func (c *TermCtx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isC() {
		return c.BV(a.val>>lo, w)
	}
	switch a.op {
	case OExtract:
		l := uint8(a.val & 0xff)
		return c.Extract(a.a, hi+l, lo+l)
	case OZext:
		if hi < a.a.w {
			return c.Extract(a.a, hi, lo)
		}
		if lo >= a.a.w {
			return c.BV(0, w)
		}
		return c.Zext(c.Extract(a.a, a.a.w-1, lo), w)
	case OSext:
		if hi < a.a.w {
			return c.Extract(a.a, hi, lo)
		}
	case OConcat:
		lw := a.b.w
		if hi < lw {
			return c.Extract(a.b, hi, lo)
		}
		if lo >= lw {
			return c.Extract(a.a, hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(a.a, hi-lw, 0), c.Extract(a.b, lw-1, lo))
	case OBAnd, OBOr, OBXor:
		return c.Bin(a.op, c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo))
	case OIte:
		return c.Ite(a.a, c.Extract(a.b, hi, lo), c.Extract(a.c, hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.a, hi, 0), c.Extract(a.b, hi, 0))
		}
	}
	return c.mk(OExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo), "")
}

func (c *TermCtx) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isC() && b.isC() {
		return c.BV(a.val<<b.w|b.val, w)
	}
	if a.isC() && a.val == 0 {
		return c.Zext(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a {
		al, bh := uint8(a.val&0xff), uint8(b.val>>8)
		if al == bh+1 {
			return c.Extract(a.a, uint8(a.val>>8), uint8(b.val&0xff))
		}
	}
	return c.mk(OConcat, w, a, b, nil, 0, "")
}

func (c *TermCtx) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isC() {
		return c.BV(a.val, w)
	}
	if a.op == OZext {
		return c.Zext(a.a, w)
	}
	return c.mk(OZext, w, a, nil, nil, 0, "")
}
func (c *TermCtx) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isC() {
		return c.BV(uint64(a.sval()), w)
	}
	if a.op == OZext {
		return c.Zext(a.a, w)
	}
	if a.op == OSext {
		return c.Sext(a.a, w)
	}
	return c.mk(OSext, w, a, nil, nil, 0, "")
}

// Sum of a BV conversion: resize from width/sign to a new width.
func (c *TermCtx) Resize(a *Term, w uint8, signed bool) *Term {
	switch {
	case a.w == w:
		return a
	case a.w > w:
		return c.Extract(a, w-1, 0)
	case signed:
		return c.Sext(a, w)
	}
	return c.Zext(a, w)
}

// eval evaluates t under an assignment of variables (missing = 0).
func (t *Term) eval(env map[string]uint64, memo map[*Term]uint64) uint64 {
	if t.op == OConst {
		return t.val
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	ev := func(x *Term) uint64 { return x.eval(env, memo) }
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		r = env[t.name]
	case ONot:
		r = 1 - ev(t.a)
	case OAnd:
		r = ev(t.a) & ev(t.b)
	case OOr:
		r = ev(t.a) | ev(t.b)
	case OIte:
		if ev(t.a) == 1 {
			r = ev(t.b)
		} else {
			r = ev(t.c)
		}
	case OEq:
		r = b2(ev(t.a) == ev(t.b))
	case ONeg:
		r = -ev(t.a) & mask(t.w)
	case OBNot:
		r = ^ev(t.a) & mask(t.w)
	case OUlt:
		r = b2(ev(t.a) < ev(t.b))
	case OUle:
		r = b2(ev(t.a) <= ev(t.b))
	case OSlt:
		r = b2(sx(ev(t.a), t.a.w) < sx(ev(t.b), t.a.w))
	case OSle:
		r = b2(sx(ev(t.a), t.a.w) <= sx(ev(t.b), t.a.w))
	case OConcat:
		r = ev(t.a)<<t.b.w | ev(t.b)
	case OExtract:
		r = (ev(t.a) >> (t.val & 0xff)) & mask(t.w)
	case OZext:
		r = ev(t.a)
	case OSext:
		r = uint64(sx(ev(t.a), t.a.w)) & mask(t.w)
	default:
		x, y := ev(t.a), ev(t.b)
		v, ok := foldBin(t.op, x, y, t.w)
		if !ok { // division by zero, SMT-LIB semantics
			if t.op == OSDiv {
				v = mask(t.w)
				if sx(x, t.w) < 0 {
					v = 1
				}
			} else {
				v = x
			}
		}
		r = v
	}
	memo[t] = r
	return r
}
