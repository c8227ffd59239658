package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strings"
)

// Terms: hash-consed per worker. Sort 0 is Bool, 1..64 a bit-vector width.
// Floating-point values are carried as their IEEE bit patterns (BV32/BV64);
// the F* operators convert to the SMT FloatingPoint theory when printed.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // val = lo
	OZext
	OSext
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFNaN
	OFToS // float -> signed int of sort
	OFToU
	OSToF
	OUToF
	OFToF
)

type Term struct {
	op       Op
	sort     uint8
	id       int32
	val      uint64
	a, b, c  *Term
	lo, hi   uint64 // unsigned bounds (BV only)
	evGen    uint64
	evVal    uint64
	defLevel int32 // solver level at which it is defined (+1), 0 = not defined
	mark     uint32
	hasVar   bool
	vs       []uint64 // variables it mentions, when asked for
	neg      *Term
}

type termKey struct {
	op      Op
	sort    uint8
	a, b, c int32
	val     uint64
}

type TermCtx struct {
	tab    map[termKey]*Term
	n      int32
	vars   []*Term // by index
	tt, ff *Term
	evGen  uint64
	memo   map[memoKey]*Term
	prov   map[*Term]mapProv
	noMap  bool
}

type memoKey struct {
	what string
	t    *Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, memo: map[memoKey]*Term{}}
	c.tt = c.raw(OConst, 0, nil, nil, nil, 1)
	c.ff = c.raw(OConst, 0, nil, nil, nil, 0)
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (x *TermCtx) raw(op Op, sort uint8, a, b, c *Term, val uint64) *Term {
	k := termKey{op, sort, tid(a), tid(b), tid(c), val}
	if t, ok := x.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: sort, id: x.n, val: val, a: a, b: b, c: c}
	x.n++
	x.tab[k] = t
	t.hasVar = op == OVar || (a != nil && a.hasVar) || (b != nil && b.hasVar) || (c != nil && c.hasVar)
	x.bounds(t)
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (x *TermCtx) bounds(t *Term) {
	if t.sort == 0 {
		return
	}
	m := mask(t.sort)
	t.lo, t.hi = 0, m
	switch t.op {
	case OConst:
		t.lo, t.hi = t.val, t.val
	case OVar:
		// variables of these widths are created by freshRune only
		switch t.sort {
		case 11:
			t.lo, t.hi = 0x80, 0x7FF
		case 17:
			t.lo, t.hi = 0x800, 0xFFFF
		case 21:
			t.lo, t.hi = 0x10000, 0x10FFFF
		}
	case OZext:
		t.lo, t.hi = t.a.lo, t.a.hi
	case OSext:
		if t.a.hi < uint64(1)<<(t.a.sort-1) {
			t.lo, t.hi = t.a.lo, t.a.hi
		}
	case OIte:
		t.lo, t.hi = t.b.lo, t.b.hi
		if t.c.lo < t.lo {
			t.lo = t.c.lo
		}
		if t.c.hi > t.hi {
			t.hi = t.c.hi
		}
	case OBAnd:
		h := t.a.hi
		if t.b.hi < h {
			h = t.b.hi
		}
		t.hi = h
	case OBOr, OBXor:
		h := t.a.hi | t.b.hi
		n := bits.Len64(h)
		t.hi = mask(uint8(n))
		if n == 0 {
			t.hi = 0
		}
		if t.op == OBOr {
			t.lo = t.a.lo
			if t.b.lo > t.lo {
				t.lo = t.b.lo
			}
		}
	case OAdd:
		s, c := bits.Add64(t.a.hi, t.b.hi, 0)
		if c == 0 && s <= m {
			t.lo, t.hi = t.a.lo+t.b.lo, s
		} else if t.b.op == OConst && t.a.lo+t.b.val > m {
			// both ends wrap
			t.lo, t.hi = (t.a.lo+t.b.val)&m, (t.a.hi+t.b.val)&m
		} else if t.b.op == OConst && t.sort == 64 && t.a.lo+t.b.val < t.a.lo {
			t.lo, t.hi = t.a.lo+t.b.val, t.a.hi+t.b.val
		}
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = t.a.lo*t.b.lo, l
		}
	case OUDiv:
		if t.b.op == OConst && t.b.val != 0 {
			t.lo, t.hi = t.a.lo/t.b.val, t.a.hi/t.b.val
		}
	case OURem:
		if t.b.op == OConst && t.b.val != 0 {
			t.lo, t.hi = 0, t.b.val-1
			if t.a.hi < t.hi {
				t.hi = t.a.hi
			}
		}
	case OShl:
		if t.b.op == OConst && t.b.val < 64 && bits.Len64(t.a.hi)+int(t.b.val) <= int(t.sort) {
			t.lo, t.hi = t.a.lo<<t.b.val, t.a.hi<<t.b.val
		}
	case OLshr:
		if t.b.op == OConst && t.b.val < 64 {
			t.lo, t.hi = t.a.lo>>t.b.val, t.a.hi>>t.b.val
		} else {
			t.hi = t.a.hi
		}
	case OExtract:
		if t.val == 0 && t.a.hi <= m {
			t.lo, t.hi = t.a.lo, t.a.hi
		} else if h := t.a.hi >> t.val; h <= m {
			t.lo, t.hi = t.a.lo>>t.val, h
		}
	case OConcat:
		t.lo, t.hi = t.a.lo<<t.b.sort|t.b.lo, t.a.hi<<t.b.sort|t.b.hi
	}
}

func (x *TermCtx) K(w uint8, v uint64) *Term { return x.raw(OConst, w, nil, nil, nil, v&mask(w)) }
func (x *TermCtx) B(b bool) *Term {
	if b {
		return x.tt
	}
	return x.ff
}

// Var returns the variable with the given index and sort (indices are
// positional within a path, so workers share models by index).
func (x *TermCtx) Var(idx int, w uint8) *Term {
	return x.raw(OVar, w, nil, nil, nil, uint64(idx))
}

func (t *Term) isC() bool { return t.op == OConst }

func (x *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return x.B(a.val == 0)
	case ONot:
		return a.a
	case OUlt:
		return x.Ule(a.b, a.a)
	case OUle:
		return x.Ult(a.b, a.a)
	case OSlt:
		return x.Sle(a.b, a.a)
	case OSle:
		return x.Slt(a.b, a.a)
	}
	return x.raw(ONot, 0, a, nil, nil, 0)
}

func (x *TermCtx) And(a, b *Term) *Term {
	if a.isC() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if x.compl(a, b) {
		return x.ff
	}
	return x.raw(OAnd, 0, a, b, nil, 0)
}

func (x *TermCtx) compl(a, b *Term) bool {
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return true
	}
	if a.op == OUlt && b.op == OUle || a.op == OUle && b.op == OUlt || a.op == OSlt && b.op == OSle || a.op == OSle && b.op == OSlt {
		return a.a == b.b && a.b == b.a
	}
	return false
}

func (x *TermCtx) Or(a, b *Term) *Term {
	if a.isC() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if x.compl(a, b) {
		return x.tt
	}
	return x.raw(OOr, 0, a, b, nil, 0)
}

func (x *TermCtx) Ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort == 0 {
		if a.isC() {
			if a.val == 1 {
				return x.Or(c, b)
			}
			return x.And(x.Not(c), b)
		}
		if b.isC() {
			if b.val == 1 {
				return x.Or(x.Not(c), a)
			}
			return x.And(c, a)
		}
	}
	if c.op == ONot {
		return x.Ite(c.a, b, a)
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	return x.raw(OIte, a.sort, c, a, b, 0)
}

func (x *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return x.tt
	}
	if a.isC() && b.isC() {
		return x.B(a.val == b.val)
	}
	if a.sort == 0 {
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.val == 1 {
				return a
			}
			return x.Not(a)
		}
		if x.compl(a, b) {
			return x.ff
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return x.ff
		}
		if a.isC() {
			a, b = b, a
		}
		if a.sort == 32 && len(x.prov) > 0 && !x.noMap {
			if t := x.mapEq(a, b); t != nil {
				return t
			}
		}
		if b.isC() {
			switch a.op {
			case OZext:
				return x.Eq(a.a, x.K(a.a.sort, b.val)) // in range by bounds
			case OSext:
				if uint64(sext(b.val, a.a.sort))&mask(a.sort) == b.val {
					return x.Eq(a.a, x.K(a.a.sort, b.val))
				}
				return x.ff
			case OAdd:
				if a.b.isC() {
					return x.Eq(a.a, x.K(a.sort, b.val-a.b.val))
				}
			case OIte:
				if a.b.isC() || a.c.isC() {
					return x.Ite(a.a, x.Eq(a.b, b), x.Eq(a.c, b))
				}
			case OConcat:
				return x.And(x.Eq(a.a, x.K(a.a.sort, b.val>>a.b.sort)), x.Eq(a.b, x.K(a.b.sort, b.val)))
			case OBXor:
				if a.b.isC() {
					return x.Eq(a.a, x.K(a.sort, a.b.val^b.val))
				}
			}
		} else {
			if a.op == OZext && b.op == OZext && a.a.sort == b.a.sort {
				return x.Eq(a.a, b.a)
			}
			if a.op == OSext && b.op == OSext && a.a.sort == b.a.sort {
				return x.Eq(a.a, b.a)
			}
			if a.op == OAdd && b.op == OAdd && a.b == b.b {
				return x.Eq(a.a, b.a)
			}
			if a.op == OAdd && a.b.isC() && a.a == b {
				return x.B(a.b.val == 0)
			}
			if b.op == OAdd && b.b.isC() && b.a == a {
				return x.B(b.b.val == 0)
			}
		}
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return x.raw(OEq, 0, a, b, nil, 0)
}

func (x *TermCtx) Ult(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return x.B(a.val < b.val)
	}
	if a == b || a.lo >= b.hi {
		return x.ff
	}
	if a.hi < b.lo {
		return x.tt
	}
	if a.op == OZext && b.op == OZext && a.a.sort == b.a.sort {
		return x.Ult(a.a, b.a)
	}
	if a.op == OZext && b.isC() {
		return x.Ult(a.a, x.K(a.a.sort, b.val)) // b.val <= a.hi here
	}
	if b.op == OZext && a.isC() {
		return x.Ult(x.K(b.a.sort, a.val), b.a)
	}
	if a.op == OIte && b.isC() && a.b.isC() && a.c.isC() {
		return x.Ite(a.a, x.Ult(a.b, b), x.Ult(a.c, b))
	}
	if b.isC() && b.val == 1 {
		return x.Eq(a, x.K(a.sort, 0))
	}
	if a.isC() && a.val == 0 {
		return x.Not(x.Eq(b, a))
	}
	return x.raw(OUlt, 0, a, b, nil, 0)
}

func (x *TermCtx) Ule(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return x.B(a.val <= b.val)
	}
	if a == b || a.hi <= b.lo {
		return x.tt
	}
	if a.lo > b.hi {
		return x.ff
	}
	// canonicalise constants to strict form
	if b.isC() {
		return x.Ult(a, x.K(a.sort, b.val+1)) // b.val < max since a.hi > b.lo
	}
	if a.isC() && a.val > 0 {
		return x.Not1(x.Ult(b, a))
	}
	if a.op == OZext && b.op == OZext && a.a.sort == b.a.sort {
		return x.Ule(a.a, b.a)
	}
	return x.raw(OUle, 0, a, b, nil, 0)
}

// Not1 negates without turning (not (ult b k)) back into ule (avoids loops).
func (x *TermCtx) Not1(a *Term) *Term {
	if a.isC() {
		return x.B(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return x.raw(ONot, 0, a, nil, nil, 0)
}

func (x *TermCtx) nonneg(a *Term) bool { return a.hi>>(a.sort-1) == 0 }
func (x *TermCtx) allneg(a *Term) bool { return a.lo>>(a.sort-1) == 1 }

func (x *TermCtx) Slt(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return x.B(sext(a.val, a.sort) < sext(b.val, b.sort))
	}
	if a == b {
		return x.ff
	}
	an, bn := x.nonneg(a), x.nonneg(b)
	if an && bn {
		return x.Ult(a, b)
	}
	am, bm := x.allneg(a), x.allneg(b)
	if am && bm {
		return x.Ult(a, b)
	}
	if am && bn {
		return x.tt
	}
	if an && bm {
		return x.ff
	}
	if a.op == OSext && b.op == OSext && a.a.sort == b.a.sort {
		return x.Slt(a.a, b.a)
	}
	if a.op == OIte && b.isC() && (a.b.isC() || a.c.isC()) {
		return x.Ite(a.a, x.Slt(a.b, b), x.Slt(a.c, b))
	}
	return x.raw(OSlt, 0, a, b, nil, 0)
}

func (x *TermCtx) Sle(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return x.B(sext(a.val, a.sort) <= sext(b.val, b.sort))
	}
	if a == b {
		return x.tt
	}
	an, bn := x.nonneg(a), x.nonneg(b)
	if an && bn {
		return x.Ule(a, b)
	}
	am, bm := x.allneg(a), x.allneg(b)
	if am && bm {
		return x.Ule(a, b)
	}
	if am && bn {
		return x.tt
	}
	if an && bm {
		return x.ff
	}
	if a.op == OIte && b.isC() && (a.b.isC() || a.c.isC()) {
		return x.Ite(a.a, x.Sle(a.b, b), x.Sle(a.c, b))
	}
	return x.raw(OSle, 0, a, b, nil, 0)
}

func evalBin(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			if sa < 0 {
				return 1
			}
			return m
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case OSRem:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	}
	panic("evalBin")
}

func (x *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.sort
	if a.isC() && b.isC() {
		return x.K(w, evalBin(op, w, a.val, b.val))
	}
	switch op {
	case OAdd:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.isC() {
				return x.Bin(OAdd, a.a, x.K(w, a.b.val+b.val))
			}
			if a.op == OIte && a.b.isC() && a.c.isC() {
				return x.Ite(a.a, x.K(w, a.b.val+b.val), x.K(w, a.c.val+b.val))
			}
		}
	case OSub:
		if a == b {
			return x.K(w, 0)
		}
		if b.isC() {
			return x.Bin(OAdd, a, x.K(w, -b.val))
		}
		if a.op == OAdd && a.b.isC() {
			return x.Bin(OAdd, x.Bin(OSub, a.a, b), a.b)
		}
		if b.op == OAdd && b.b.isC() {
			return x.Bin(OAdd, x.Bin(OSub, a, b.a), x.K(w, -b.b.val))
		}
		if a.op == OAdd {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
	case OMul:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OUDiv, OSDiv:
		if b.isC() && b.val == 1 {
			return a
		}
		if op == OSDiv && x.nonneg(a) && x.nonneg(b) {
			return x.Bin(OUDiv, a, b)
		}
	case OURem, OSRem:
		if b.isC() && b.val == 1 {
			return x.K(w, 0)
		}
		if op == OSRem && x.nonneg(a) && x.nonneg(b) && b.lo > 0 {
			return x.Bin(OURem, a, b)
		}
		if op == OURem && b.lo > a.hi {
			return a
		}
	case OBAnd:
		if a.isC() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isC() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			// low mask covering all of a
			if b.val&(b.val+1) == 0 && a.hi <= b.val {
				return a
			}
			if a.op == OZext {
				return x.Zext(x.Bin(OBAnd, a.a, x.K(a.a.sort, b.val)), w)
			}
			if b.val&(b.val+1) == 0 {
				n := uint8(bits.Len64(b.val))
				return x.Zext(x.Extract(a, 0, n), w)
			}
		}
	case OBOr:
		if a.isC() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isC() {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
	case OBXor:
		if a.isC() {
			a, b = b, a
		}
		if a == b {
			return x.K(w, 0)
		}
		if b.isC() && b.val == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.isC() {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) {
				if op == OAshr {
					return x.Bin(OAshr, a, x.K(w, uint64(w)-1))
				}
				return x.K(w, 0)
			}
			if op == OAshr && x.nonneg(a) {
				return x.Bin(OLshr, a, b)
			}
			if op == OLshr {
				if a.hi>>b.val == 0 {
					return x.K(w, 0)
				}
				return x.Zext(x.Extract(a, uint8(b.val), w-uint8(b.val)), w)
			}
			if op == OShl {
				if a.op == OZext && int(a.a.sort)+int(b.val) <= int(w) {
					return x.Zext(x.Concat(a.a, x.K(uint8(b.val), 0)), w)
				}
				return x.Concat(x.Extract(a, 0, w-uint8(b.val)), x.K(uint8(b.val), 0))
			}
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if !b.isC() && a.id > b.id {
			a, b = b, a
		}
	}
	if op == OBOr || op == OAdd || op == OBXor {
		if t := x.mergeDisjoint(a, b); t != nil {
			return t
		}
	}
	return x.raw(op, w, a, b, nil, 0)
}

// pieces decomposes t into a list of (lo, width, term) covering non-zero
// parts, if it is a zext/concat of fields.
type piece struct {
	lo, w uint8
	t     *Term
}

func pieces(t *Term, lo uint8, out []piece) []piece {
	switch t.op {
	case OZext:
		return pieces(t.a, lo, out)
	case OConcat:
		out = pieces(t.b, lo, out)
		return pieces(t.a, lo+t.b.sort, out)
	case OConst:
		if t.val == 0 {
			return out
		}
	}
	return append(out, piece{lo, t.sort, t})
}

// mergeDisjoint turns an or/add/xor of fields in disjoint positions into a
// concatenation (this is what makes byte-wise encoders round-trip cheaply).
func (x *TermCtx) mergeDisjoint(a, b *Term) *Term {
	if a.op != OZext && a.op != OConcat && b.op != OZext && b.op != OConcat {
		return nil
	}
	pa := pieces(a, 0, nil)
	pb := pieces(b, 0, nil)
	if len(pa) == 0 || len(pb) == 0 || len(pa)+len(pb) > 16 {
		return nil
	}
	// constants: split only if disjoint by bounds
	all := append(append([]piece{}, pa...), pb...)
	for i := 1; i < len(all); i++ {
		for j := i; j > 0 && all[j].lo < all[j-1].lo; j-- {
			all[j], all[j-1] = all[j-1], all[j]
		}
	}
	for i := 1; i < len(all); i++ {
		p, q := all[i-1], all[i]
		if p.lo+p.w > q.lo {
			// overlapping widths: allow if p's actual value fits
			n := uint8(bits.Len64(p.t.hi))
			if p.lo+n > q.lo {
				return nil
			}
			all[i-1].t = x.Extract(p.t, 0, q.lo-p.lo)
			all[i-1].w = q.lo - p.lo
		}
	}
	w := a.sort
	var r *Term
	pos := uint8(0)
	for _, p := range all {
		if p.lo > pos {
			z := x.K(p.lo-pos, 0)
			if r == nil {
				r = z
			} else {
				r = x.Concat(z, r)
			}
		}
		if r == nil {
			r = p.t
		} else {
			r = x.Concat(p.t, r)
		}
		pos = p.lo + p.w
	}
	if pos > w {
		return nil
	}
	return x.Zext(r, w)
}

func (x *TermCtx) BNot(a *Term) *Term {
	if a.isC() {
		return x.K(a.sort, ^a.val)
	}
	return x.raw(OBNot, a.sort, a, nil, nil, 0)
}
func (x *TermCtx) Neg(a *Term) *Term {
	if a.isC() {
		return x.K(a.sort, -a.val)
	}
	return x.raw(ONeg, a.sort, a, nil, nil, 0)
}

func (x *TermCtx) Concat(hi, lo *Term) *Term {
	if hi.isC() && lo.isC() {
		return x.K(hi.sort+lo.sort, hi.val<<lo.sort|lo.val)
	}
	if hi.isC() && hi.val == 0 {
		return x.Zext(lo, hi.sort+lo.sort)
	}
	if hi.op == OExtract && lo.op == OExtract && hi.a == lo.a && hi.val == lo.val+uint64(lo.sort) {
		return x.Extract(hi.a, uint8(lo.val), hi.sort+lo.sort)
	}
	// (concat h (concat m l)) with h,m adjacent extracts
	if lo.op == OConcat && hi.op == OExtract && lo.a.op == OExtract && hi.a == lo.a.a && hi.val == lo.a.val+uint64(lo.a.sort) {
		return x.Concat(x.Extract(hi.a, uint8(lo.a.val), hi.sort+lo.a.sort), lo.b)
	}
	if hi.op == OZext {
		return x.Zext(x.Concat(hi.a, lo), hi.sort+lo.sort)
	}
	if hi.op == OConcat { // right-associate
		return x.Concat(hi.a, x.Concat(hi.b, lo))
	}
	return x.raw(OConcat, hi.sort+lo.sort, hi, lo, nil, 0)
}

func (x *TermCtx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.sort {
		return a
	}
	if a.isC() {
		return x.K(w, a.val>>lo)
	}
	switch a.op {
	case OExtract:
		return x.Extract(a.a, lo+uint8(a.val), w)
	case OZext:
		if lo >= a.a.sort {
			return x.K(w, 0)
		}
		if lo+w <= a.a.sort {
			return x.Extract(a.a, lo, w)
		}
		return x.Zext(x.Extract(a.a, lo, a.a.sort-lo), w)
	case OSext:
		if lo+w <= a.a.sort {
			return x.Extract(a.a, lo, w)
		}
		if lo == 0 {
			return x.Sext(a.a, w)
		}
	case OConcat:
		if lo+w <= a.b.sort {
			return x.Extract(a.b, lo, w)
		}
		if lo >= a.b.sort {
			return x.Extract(a.a, lo-a.b.sort, w)
		}
		return x.Concat(x.Extract(a.a, 0, lo+w-a.b.sort), x.Extract(a.b, lo, a.b.sort-lo))
	case OIte:
		if a.b.isC() || a.c.isC() {
			return x.Ite(a.a, x.Extract(a.b, lo, w), x.Extract(a.c, lo, w))
		}
	case OBAnd, OBOr, OBXor:
		return x.Bin(a.op, x.Extract(a.a, lo, w), x.Extract(a.b, lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return x.Bin(a.op, x.Extract(a.a, lo, w), x.Extract(a.b, lo, w))
		}
	}
	return x.raw(OExtract, w, a, nil, nil, uint64(lo))
}

func (x *TermCtx) Zext(a *Term, w uint8) *Term {
	if a.sort == w {
		return a
	}
	if a.sort > w {
		panic("zext narrowing")
	}
	if a.isC() {
		return x.K(w, a.val)
	}
	if a.op == OZext {
		return x.Zext(a.a, w)
	}
	if a.op == OIte && (a.b.isC() || a.c.isC()) {
		return x.Ite(a.a, x.Zext(a.b, w), x.Zext(a.c, w))
	}
	return x.raw(OZext, w, a, nil, nil, 0)
}

func (x *TermCtx) Sext(a *Term, w uint8) *Term {
	if a.sort == w {
		return a
	}
	if a.isC() {
		return x.K(w, uint64(sext(a.val, a.sort)))
	}
	if x.nonneg(a) {
		return x.Zext(a, w)
	}
	if a.op == OSext {
		return x.Sext(a.a, w)
	}
	if a.op == OIte && (a.b.isC() || a.c.isC()) {
		return x.Ite(a.a, x.Sext(a.b, w), x.Sext(a.c, w))
	}
	return x.raw(OSext, w, a, nil, nil, 0)
}

// Floating point

func fbits(w uint8, f float64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func fval(w uint8, v uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func evalF(op Op, w uint8, t *Term, a, b uint64) uint64 {
	bo := func(c bool) uint64 {
		if c {
			return 1
		}
		return 0
	}
	aw := w
	if t != nil {
		aw = t.sort
	}
	fa := func() float64 { return fval(aw, a) }
	fb := func() float64 { return fval(aw, b) }
	switch op {
	case OFAdd:
		if w == 32 {
			return uint64(math.Float32bits(float32(fa()) + float32(fb())))
		}
		return fbits(w, fa()+fb())
	case OFSub:
		if w == 32 {
			return uint64(math.Float32bits(float32(fa()) - float32(fb())))
		}
		return fbits(w, fa()-fb())
	case OFMul:
		if w == 32 {
			return uint64(math.Float32bits(float32(fa()) * float32(fb())))
		}
		return fbits(w, fa()*fb())
	case OFDiv:
		if w == 32 {
			return uint64(math.Float32bits(float32(fa()) / float32(fb())))
		}
		return fbits(w, fa()/fb())
	case OFLt:
		return bo(fa() < fb())
	case OFLe:
		return bo(fa() <= fb())
	case OFEq:
		return bo(fa() == fb())
	case OFNaN:
		return bo(fa() != fa())
	case OFToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(fa())))
		}
		return math.Float64bits(fa())
	case OSToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(sext(a, aw))))
		}
		return math.Float64bits(float64(sext(a, aw)))
	case OUToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(a)))
		}
		return math.Float64bits(float64(a))
	case OFToS:
		f := fa()
		if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
			return uint64(1) << 63 & mask(w)
		}
		return uint64(int64(f)) & mask(w)
	case OFToU:
		return uint64(fa()) & mask(w)
	}
	panic("evalF")
}

func (x *TermCtx) F2(op Op, a, b *Term) *Term {
	sort := a.sort
	if op == OFLt || op == OFLe || op == OFEq {
		sort = 0
	}
	if a.isC() && b.isC() {
		return x.K0(sort, evalF(op, sort, a, a.val, b.val))
	}
	if sort == 0 && a.sort == 64 {
		// comparing widened float32 values is comparing the float32 values
		if p, ok := x.narrowed(a); ok {
			if q, ok := x.narrowed(b); ok {
				return x.F2(op, p, q)
			}
		}
	}
	return x.raw(op, sort, a, b, nil, 0)
}
func (x *TermCtx) K0(s uint8, v uint64) *Term {
	if s == 0 {
		return x.B(v != 0)
	}
	return x.K(s, v)
}
func (x *TermCtx) F1(op Op, sort uint8, a *Term) *Term {
	if a.isC() {
		return x.K0(sort, evalF(op, sort, a, a.val, 0))
	}
	if op == OFToF {
		if sort == a.sort {
			return a
		}
		if sort == 32 {
			if p, ok := x.narrowed(a); ok {
				return p
			}
		}
	}
	if op == OFNaN && a.sort == 64 {
		if p, ok := x.narrowed(a); ok {
			return x.F1(OFNaN, 0, p)
		}
	}
	return x.raw(op, sort, a, nil, nil, 0)
}

// narrowed returns the float32 that the float64 term a is the exact widening
// of, if its form shows that (a NaN stays some NaN).
func (x *TermCtx) narrowed(a *Term) (*Term, bool) {
	switch {
	case a.isC():
		f := math.Float64frombits(a.val)
		if f != f || float64(float32(f)) == f {
			return x.K(32, uint64(math.Float32bits(float32(f)))), true
		}
	case a.op == OFToF && a.a.sort == 32:
		return a.a, true
	case a.op == OIte:
		if p, ok := x.narrowed(a.b); ok {
			if q, ok := x.narrowed(a.c); ok {
				return x.Ite(a.a, p, q), true
			}
		}
	}
	return nil, false
}

// Eval evaluates a term under a model (vector of variable values).
func (x *TermCtx) Eval(t *Term, model []uint64) uint64 {
	x.evGen++
	return x.ev(t, model)
}

func (x *TermCtx) ev(t *Term, m []uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if int(t.val) < len(m) {
			return m[t.val] & mask1(t.sort)
		}
		return 0
	}
	if t.evGen == x.evGen {
		return t.evVal
	}
	var r uint64
	b2 := func(c bool) uint64 {
		if c {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		r = 1 - x.ev(t.a, m)
	case OAnd:
		if x.ev(t.a, m) == 0 {
			r = 0
		} else {
			r = x.ev(t.b, m)
		}
	case OOr:
		if x.ev(t.a, m) == 1 {
			r = 1
		} else {
			r = x.ev(t.b, m)
		}
	case OIte:
		if x.ev(t.a, m) == 1 {
			r = x.ev(t.b, m)
		} else {
			r = x.ev(t.c, m)
		}
	case OEq:
		r = b2(x.ev(t.a, m) == x.ev(t.b, m))
	case OUlt:
		r = b2(x.ev(t.a, m) < x.ev(t.b, m))
	case OUle:
		r = b2(x.ev(t.a, m) <= x.ev(t.b, m))
	case OSlt:
		r = b2(sext(x.ev(t.a, m), t.a.sort) < sext(x.ev(t.b, m), t.a.sort))
	case OSle:
		r = b2(sext(x.ev(t.a, m), t.a.sort) <= sext(x.ev(t.b, m), t.a.sort))
	case OBNot:
		r = ^x.ev(t.a, m) & mask(t.sort)
	case ONeg:
		r = -x.ev(t.a, m) & mask(t.sort)
	case OConcat:
		r = x.ev(t.a, m)<<t.b.sort | x.ev(t.b, m)
	case OExtract:
		r = x.ev(t.a, m) >> t.val & mask(t.sort)
	case OZext:
		r = x.ev(t.a, m)
	case OSext:
		r = uint64(sext(x.ev(t.a, m), t.a.sort)) & mask(t.sort)
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq:
		r = evalF(t.op, t.sort, t.a, x.ev(t.a, m), x.ev(t.b, m))
	case OFNaN, OFToF, OFToS, OFToU, OSToF, OUToF:
		r = evalF(t.op, t.sort, t.a, x.ev(t.a, m), 0)
	default:
		r = evalBin(t.op, t.sort, x.ev(t.a, m), x.ev(t.b, m))
	}
	t.evGen = x.evGen
	t.evVal = r
	return r
}

func mask1(s uint8) uint64 {
	if s == 0 {
		return 1
	}
	return mask(s)
}

// SMT printing ------------------------------------------------------------

func sortName(s uint8) string {
	if s == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

func fpSort(w uint8) string {
	if w == 32 {
		return "(_ to_fp 8 24)"
	}
	return "(_ to_fp 11 53)"
}

func constStr(t *Term) string {
	if t.sort == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	if t.sort%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.sort)/4, t.val)
	}
	return fmt.Sprintf("#b%0*b", int(t.sort), t.val)
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
}

// ref prints a reference to t (its definition must already be emitted).
func ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return fmt.Sprintf("v%d_%d", t.val, t.sort)
	}
	return fmt.Sprintf("t%d", t.id)
}

// body prints the term one level deep.
func body(t *Term) string {
	a := func(u *Term) string { return ref(u) }
	fp := func(u *Term) string { return "(" + fpSort(u.sort) + " " + ref(u) + ")" }
	ieee := func(e string, w uint8) string {
		// Go's bit pattern of an FP result; NaN becomes the canonical quiet NaN.
		return "(fp.to_ieee_bv " + e + ")"
	}
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+int(t.sort)-1, t.val, a(t.a))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.sort-t.a.sort, a(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.sort-t.a.sort, a(t.a))
	case OFLt, OFLe, OFEq, OFNaN:
		return fcmp(t)
	case OFAdd:
		return ieee("(fp.add RNE "+fp(t.a)+" "+fp(t.b)+")", t.sort)
	case OFSub:
		return ieee("(fp.sub RNE "+fp(t.a)+" "+fp(t.b)+")", t.sort)
	case OFMul:
		return ieee("(fp.mul RNE "+fp(t.a)+" "+fp(t.b)+")", t.sort)
	case OFDiv:
		return ieee("(fp.div RNE "+fp(t.a)+" "+fp(t.b)+")", t.sort)
	case OFToF:
		return ieee("("+fpSort(t.sort)+" RNE "+fp(t.a)+")", t.sort)
	case OSToF:
		return ieee("("+fpSort(t.sort)+" RNE "+a(t.a)+")", t.sort)
	case OUToF:
		return ieee("("+strings.Replace(fpSort(t.sort), "to_fp", "to_fp_unsigned", 1)+" RNE "+a(t.a)+")", t.sort)
	case OFToS:
		f := fp(t.a)
		lo := "((_ to_fp 11 53) RNE (- 9223372036854775808.0))"
		hi := "((_ to_fp 11 53) RNE 9223372036854775808.0)"
		f64 := f
		if t.a.sort == 32 {
			f64 = "((_ to_fp 11 53) RNE " + f + ")"
		}
		return fmt.Sprintf("(ite (and (not (fp.isNaN %s)) (fp.leq %s %s) (fp.lt %s %s)) ((_ extract %d 0) ((_ fp.to_sbv 64) RTZ %s)) %s)", f64, lo, f64, f64, hi, t.sort-1, f64, fmt.Sprintf("((_ extract %d 0) #x8000000000000000)", t.sort-1))
	case OFToU:
		return fmt.Sprintf("((_ extract %d 0) ((_ fp.to_ubv 64) RTZ %s))", t.sort-1, fp(t.a))
	}
	s := "(" + opNames[t.op]
	for _, u := range []*Term{t.a, t.b, t.c} {
		if u != nil {
			s += " " + a(u)
		}
	}
	return s + ")"
}

// fcmp prints an IEEE comparison as bit-vector arithmetic on the patterns.
func fcmp(t *Term) string {
	w := t.a.sort
	magMask, inf := "#x7fffffff", "#x7f800000"
	zero := "#x00000000"
	if w == 64 {
		magMask, inf, zero = "#x7fffffffffffffff", "#x7ff0000000000000", "#x0000000000000000"
	}
	nan := func(s string) string { return "(bvugt (bvand " + s + " " + magMask + ") " + inf + ")" }
	a := ref(t.a)
	if t.op == OFNaN {
		return nan(a)
	}
	b := ref(t.b)
	ok := "(not " + nan(a) + ") (not " + nan(b) + ")"
	bz := "(= (bvand (bvor " + a + " " + b + ") " + magMask + ") " + zero + ")"
	neg := func(s string) string { return "(bvslt " + s + " " + zero + ")" }
	lt := "(and (not " + bz + ") (ite " + neg(a) + " (or (not " + neg(b) + ") (bvult " + b + " " + a + ")) (and (not " + neg(b) + ") (bvult " + a + " " + b + "))))"
	eq := "(or (= " + a + " " + b + ") " + bz + ")"
	switch t.op {
	case OFLt:
		return "(and " + ok + " " + lt + ")"
	case OFLe:
		return "(and " + ok + " (or " + eq + " " + lt + "))"
	}
	return "(and " + ok + " " + eq + ")"
}

var _ = big.NewInt

var noVars = []uint64{}

// varSet is the set of variables t mentions.
func (t *Term) varSet() []uint64 {
	if t.vs != nil {
		return t.vs
	}
	if !t.hasVar {
		return noVars
	}
	if t.op == OVar {
		i := t.val
		t.vs = make([]uint64, i/64+1)
		t.vs[i/64] = 1 << (i % 64)
		return t.vs
	}
	var r []uint64
	shared := false
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x == nil || !x.hasVar {
			continue
		}
		v := x.varSet()
		if r == nil {
			r, shared = v, true
			continue
		}
		sub := len(v) <= len(r)
		if sub {
			for i, y := range v {
				if y&^r[i] != 0 {
					sub = false
					break
				}
			}
		}
		if sub {
			continue
		}
		n := len(r)
		if len(v) > n {
			n = len(v)
		}
		if shared || len(r) < n {
			c := make([]uint64, n)
			copy(c, r)
			r, shared = c, false
		}
		for i, y := range v {
			r[i] |= y
		}
	}
	t.vs = r
	return r
}
