package main

import (
	"fmt"
	"math/bits"
	"strconv"
)

// Term is a hash-consed SMT term. w==0 means Bool, otherwise a bit-vector of width w.
type Term struct {
	op      Op
	w       uint8
	id      int32
	a, b, c *Term
	k       uint64 // constant (masked), variable index, or extension source width
	lo, hi  int64  // signed interval containing every value (bit-vectors)
	vs      *varset
	egen    int32 // evaluation memo generation
	eval    uint64
	dom     *[4]uint64 // truth table over the single small variable (Bool)
	fp      bool       // contains floating point
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OTrunc
	OZext
	OSext
	// floating point (float64 carried as 64-bit IEEE bits)
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFNeg
	OFAbs
	OFRound // k: 0 RNA(half away) 1 ceil 2 floor 3 trunc 4 RNE
	OFFromS // signed int -> float
	OFFromU
	OFToS // float -> signed int (truncate)
)

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr"}

// varset is an immutable sorted set of variable indices.
type varset struct{ v []int32 }

var emptyVS = &varset{}

func (s *varset) has(x int32) bool {
	for _, y := range s.v {
		if y == x {
			return true
		}
	}
	return false
}

func unionVS(a, b *varset) *varset {
	if len(a.v) == 0 {
		return b
	}
	if len(b.v) == 0 || a == b {
		return a
	}
	// is b subset of a?
	out := make([]int32, 0, len(a.v)+len(b.v))
	i, j := 0, 0
	for i < len(a.v) && j < len(b.v) {
		switch {
		case a.v[i] < b.v[j]:
			out = append(out, a.v[i])
			i++
		case a.v[i] > b.v[j]:
			out = append(out, b.v[j])
			j++
		default:
			out = append(out, a.v[i])
			i++
			j++
		}
	}
	out = append(out, a.v[i:]...)
	out = append(out, b.v[j:]...)
	if len(out) == len(a.v) {
		return a
	}
	if len(out) == len(b.v) {
		return b
	}
	return &varset{out}
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

// Var is a symbolic variable.
type Var struct {
	name   string
	w      uint8 // 0 = bool
	lo, hi int64 // declared signed range
	t      *Term
	input  bool // part of the replay vector
}

// TT is a per-worker term table.
type TT struct {
	tab   map[tkey]*Term
	n     int32
	vars  []*Var
	vname map[string]*Var
	gen   int32
	True  *Term
	False *Term
}

func newTT() *TT {
	tt := &TT{tab: map[tkey]*Term{}, vname: map[string]*Var{}}
	tt.True = tt.mk(OConst, 0, nil, nil, nil, 1)
	tt.False = tt.mk(OConst, 0, nil, nil, nil, 0)
	return tt
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

// sx sign-extends the low w bits of x.
func sx(x uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(x)
	}
	s := 64 - uint(w)
	return int64(x<<s) >> s
}

func minS(w uint8) int64 { return sx(uint64(1)<<(w-1), w) }
func maxS(w uint8) int64 { return int64(mask(w) >> 1) }

func (tt *TT) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := tkey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := tt.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, id: tt.n, a: a, b: b, c: c, k: k, vs: emptyVS}
	tt.n++
	for _, x := range [...]*Term{a, b, c} {
		if x != nil {
			t.vs = unionVS(t.vs, x.vs)
			if x.fp {
				t.fp = true
			}
		}
	}
	if op >= OFAdd {
		t.fp = true
	}
	if w > 0 {
		t.lo, t.hi = minS(w), maxS(w)
		tt.ranges(t)
	}
	tt.tab[key] = t
	return t
}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, (a >= 0) == (b >= 0) && (s >= 0) != (a >= 0)
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	p := a * b
	if p/b != a || (a == -1 && b == minS(64)) || (b == -1 && a == minS(64)) {
		return 0, true
	}
	return p, false
}

func min4(a, b, c, d int64) int64 { return min(min(a, b), min(c, d)) }
func max4(a, b, c, d int64) int64 { return max(max(a, b), max(c, d)) }

func (tt *TT) ranges(t *Term) {
	w := t.w
	set := func(lo, hi int64) {
		if lo >= minS(w) && hi <= maxS(w) {
			t.lo, t.hi = lo, hi
		}
	}
	switch t.op {
	case OConst:
		t.lo = sx(t.k, w)
		t.hi = t.lo
	case OIte:
		set(min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi))
	case OAdd:
		l, o1 := addOv(t.a.lo, t.b.lo)
		h, o2 := addOv(t.a.hi, t.b.hi)
		if !o1 && !o2 {
			set(l, h)
		}
	case OSub:
		if t.b.lo != minS(64) {
			l, o1 := addOv(t.a.lo, -t.b.hi)
			h, o2 := addOv(t.a.hi, -t.b.lo)
			if !o1 && !o2 {
				set(l, h)
			}
		}
	case ONeg:
		if t.a.lo != minS(64) {
			set(-t.a.hi, -t.a.lo)
		}
	case OMul:
		p1, o1 := mulOv(t.a.lo, t.b.lo)
		p2, o2 := mulOv(t.a.lo, t.b.hi)
		p3, o3 := mulOv(t.a.hi, t.b.lo)
		p4, o4 := mulOv(t.a.hi, t.b.hi)
		if !(o1 || o2 || o3 || o4) {
			set(min4(p1, p2, p3, p4), max4(p1, p2, p3, p4))
		}
	case OSDiv:
		if (t.b.lo > 0 || t.b.hi < 0) && t.a.lo != minS(w) {
			p1, p2, p3, p4 := t.a.lo/t.b.lo, t.a.lo/t.b.hi, t.a.hi/t.b.lo, t.a.hi/t.b.hi
			l, h := min4(p1, p2, p3, p4), max4(p1, p2, p3, p4)
			set(l, h)
		} else if t.a.lo != minS(w) && t.a.lo != minS(64) {
			m := max(t.a.hi, -t.a.lo, 1)
			set(-m, m)
		}
	case OSRem:
		if t.b.lo <= 0 && t.b.hi >= 0 {
			set(min(t.a.lo, 0), max(t.a.hi, 0))
		} else if t.b.hi < 0 && t.b.lo != minS(64) {
			m := -t.b.lo - 1
			l, h := max(-m, min(t.a.lo, 0)), min(m, max(t.a.hi, 0))
			set(l, h)
		}
		if t.b.lo > 0 {
			m := t.b.hi - 1
			l, h := -m, m
			if t.a.lo >= 0 {
				l = 0
				h = min(h, t.a.hi)
			}
			if t.a.hi <= 0 {
				h = 0
			}
			set(l, h)
		}
	case OURem:
		if t.b.lo > 0 {
			set(0, t.b.hi-1)
		}
	case OUDiv:
		if t.a.lo >= 0 && t.b.lo > 0 {
			set(t.a.lo/t.b.hi, t.a.hi/t.b.lo)
		}
	case OBAnd:
		if t.a.lo >= 0 && t.b.lo >= 0 {
			set(0, min(t.a.hi, t.b.hi))
		} else if t.b.lo >= 0 {
			set(0, t.b.hi)
		} else if t.a.lo >= 0 {
			set(0, t.a.hi)
		}
	case OBOr, OBXor:
		if t.a.lo >= 0 && t.b.lo >= 0 {
			m := uint(bits.Len64(uint64(t.a.hi | t.b.hi)))
			if m < 63 {
				set(0, int64(1)<<m-1)
			}
		}
	case OLshr:
		if t.b.op == OConst && t.b.k > 0 && t.b.k < uint64(w) {
			if t.a.lo >= 0 {
				set(t.a.lo>>t.b.k, t.a.hi>>t.b.k)
			} else {
				set(0, int64(mask(w)>>t.b.k))
			}
		} else if t.a.lo >= 0 {
			set(0, t.a.hi)
		}
	case OAshr:
		if t.b.op == OConst && t.b.k < 64 {
			set(t.a.lo>>t.b.k, t.a.hi>>t.b.k)
		}
	case OShl:
		if t.b.op == OConst && t.b.k < 62 {
			p1, o1 := mulOv(t.a.lo, int64(1)<<t.b.k)
			p2, o2 := mulOv(t.a.hi, int64(1)<<t.b.k)
			if !o1 && !o2 {
				set(p1, p2)
			}
		}
	case OSext:
		set(t.a.lo, t.a.hi)
	case OZext:
		if t.a.lo >= 0 {
			set(t.a.lo, t.a.hi)
		} else {
			set(0, int64(mask(t.a.w)))
		}
	case OTrunc:
		set(t.a.lo, t.a.hi)
	}
}

func (tt *TT) Const(k uint64, w uint8) *Term {
	return tt.mk(OConst, w, nil, nil, nil, k&mask(w))
}

func (tt *TT) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}

// NewVar returns the variable with that name, creating it. lo..hi is its declared range.
func (tt *TT) NewVar(name string, w uint8, lo, hi int64, input bool) *Var {
	key := name + "/" + strconv.Itoa(int(w)) + "/" + strconv.FormatInt(lo, 10) + "/" + strconv.FormatInt(hi, 10)
	if v, ok := tt.vname[key]; ok {
		return v
	}
	v := &Var{name: name, w: w, lo: lo, hi: hi, input: input}
	idx := len(tt.vars)
	tt.vars = append(tt.vars, v)
	t := tt.mk(OVar, w, nil, nil, nil, uint64(idx))
	t.vs = &varset{[]int32{int32(idx)}}
	if w > 0 {
		t.lo, t.hi = lo, hi
	}
	v.t = t
	tt.vname[key] = v
	return v
}

func (t *Term) isC() bool { return t.op == OConst }

func (tt *TT) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return tt.Bool(a.k == 0)
	case ONot:
		return a.a
	case OSlt:
		return tt.Sle(a.b, a.a)
	case OSle:
		return tt.Slt(a.b, a.a)
	case OUlt:
		return tt.Ule(a.b, a.a)
	case OUle:
		return tt.Ult(a.b, a.a)
	}
	return tt.mk(ONot, 0, a, nil, nil, 0)
}

func (tt *TT) And(a, b *Term) *Term {
	if a == b || b == tt.True {
		return a
	}
	if a == tt.True {
		return b
	}
	if a == tt.False || b == tt.False {
		return tt.False
	}
	if tt.isNeg(a, b) {
		return tt.False
	}
	if a.op == OSle && b.op == OSle && a.a == b.b && a.b == b.a {
		return tt.Eq(a.a, a.b)
	}
	for _, p := range [2][2]*Term{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		switch y.op {
		case OSlt: // x <= y and x < y
			if x.op == OSle && x.a == y.a && x.b == y.b {
				return y
			}
		case OOr: // x & (!x | z)
			if x == y.a || x == y.b {
				return x
			}
			if tt.isNeg(x, y.a) {
				return tt.And(x, y.b)
			}
			if tt.isNeg(x, y.b) {
				return tt.And(x, y.a)
			}
		case OAnd:
			if x == y.a || x == y.b {
				return y
			}
			if tt.isNeg(x, y.a) || tt.isNeg(x, y.b) {
				return tt.False
			}
		case ONot: // x <= y and not x = y
			if x.op == OSle && y.a.op == OEq && (y.a.a == x.a && y.a.b == x.b || y.a.a == x.b && y.a.b == x.a) {
				return tt.Slt(x.a, x.b)
			}
			if x.op == OSlt && y.a.op == OEq && (y.a.a == x.a && y.a.b == x.b || y.a.a == x.b && y.a.b == x.a) {
				return x
			}
		case OEq: // x <= y and x = y
			if (x.op == OSle || x.op == OSlt) && (y.a == x.a && y.b == x.b || y.a == x.b && y.b == x.a) {
				if x.op == OSlt {
					return tt.False
				}
				return y
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAnd, 0, a, b, nil, 0)
}

func (tt *TT) isNeg(a, b *Term) bool {
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return true
	}
	if (a.op == OSlt && b.op == OSle || a.op == OSle && b.op == OSlt || a.op == OUlt && b.op == OUle || a.op == OUle && b.op == OUlt) && a.a == b.b && a.b == b.a {
		return true
	}
	return false
}

func (tt *TT) Or(a, b *Term) *Term {
	if a == b || b == tt.False {
		return a
	}
	if a == tt.False {
		return b
	}
	if a == tt.True || b == tt.True {
		return tt.True
	}
	if tt.isNeg(a, b) {
		return tt.True
	}
	if a.op == OSlt && b.op == OSlt && a.a == b.b && a.b == b.a {
		return tt.Not(tt.Eq(a.a, a.b))
	}
	for _, p := range [2][2]*Term{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		switch y.op {
		case OSlt: // x <= y or x < y
			if x.op == OSle && x.a == y.a && x.b == y.b {
				return x
			}
		case OAnd: // x | (!x & z)
			if x == y.a || x == y.b {
				return x
			}
			if tt.isNeg(x, y.a) {
				return tt.Or(x, y.b)
			}
			if tt.isNeg(x, y.b) {
				return tt.Or(x, y.a)
			}
		case OOr:
			if x == y.a || x == y.b {
				return y
			}
			if tt.isNeg(x, y.a) || tt.isNeg(x, y.b) {
				return tt.True
			}
		case OEq: // x < y or x = y
			if (x.op == OSle || x.op == OSlt) && (y.a == x.a && y.b == x.b || y.a == x.b && y.b == x.a) {
				return tt.Sle(x.a, x.b)
			}
		case ONot: // x < y or not x = y
			if x.op == OSlt && y.a.op == OEq && (y.a.a == x.a && y.a.b == x.b || y.a.a == x.b && y.a.b == x.a) {
				return y
			}
			if x.op == OSle && y.a.op == OEq && (y.a.a == x.a && y.a.b == x.b || y.a.a == x.b && y.a.b == x.a) {
				return tt.True
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OOr, 0, a, b, nil, 0)
}

func (tt *TT) Ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == tt.True {
			return tt.Or(c, b)
		}
		if a == tt.False {
			return tt.And(tt.Not(c), b)
		}
		if b == tt.True {
			return tt.Or(tt.Not(c), a)
		}
		if b == tt.False {
			return tt.And(c, a)
		}
	}
	if c.op == ONot {
		return tt.Ite(c.a, b, a)
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	// ite(c1,x,ite(c2,x,y)) -> ite(c1|c2,x,y)
	if b.op == OIte && b.b == a {
		return tt.Ite(tt.Or(c, b.a), a, b.c)
	}
	return tt.mk(OIte, a.w, c, a, b, 0)
}

func (tt *TT) Eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.isC() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isC() {
			if a.isC() {
				return tt.Bool(a.k == b.k)
			}
			if b.k != 0 {
				return a
			}
			return tt.Not(a)
		}
	} else {
		if a.isC() && b.isC() {
			return tt.Bool(a.k == b.k)
		}
		if a.hi < b.lo || b.hi < a.lo {
			return tt.False
		}
		if b.isC() {
			switch a.op {
			case OAdd:
				if a.b.isC() {
					return tt.Eq(a.a, tt.Const(b.k-a.b.k, a.w))
				}
			case ONeg:
				return tt.Eq(a.a, tt.Const(-b.k, a.w))
			case OZext:
				return tt.Eq(a.a, tt.Const(b.k, a.a.w)) // range check above excludes impossible values
			case OSext:
				return tt.Eq(a.a, tt.Const(b.k, a.a.w))
			case OIte:
				if a.b.isC() || a.c.isC() {
					return tt.Ite(a.a, tt.Eq(a.b, b), tt.Eq(a.c, b))
				}
			case OSub:
				if b.k == 0 {
					return tt.Eq(a.a, a.b)
				}
			}
		} else {
			if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
				return tt.Eq(a.a, b.a)
			}
			if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
				return tt.Eq(a.a, b.a)
			}
			if a.op == OAdd && b.op == OAdd && a.b == b.b {
				return tt.Eq(a.a, b.a)
			}
		}
	}
	if a.id > b.id && !b.isC() {
		a, b = b, a
	}
	return tt.mk(OEq, 0, a, b, nil, 0)
}

func (tt *TT) Slt(a, b *Term) *Term {
	if a == b || a.lo >= b.hi {
		return tt.False
	}
	if a.hi < b.lo {
		return tt.True
	}
	if a.isC() && b.isC() {
		return tt.Bool(sx(a.k, a.w) < sx(b.k, b.w))
	}
	if k, ok := remOf(a, b); ok && k <= 0 {
		return tt.True
	}
	if k, ok := remOf(b, a); ok && k <= 1 {
		return tt.False
	}
	if t := tt.cmpNarrow(OSlt, a, b); t != nil {
		return t
	}
	return tt.mk(OSlt, 0, a, b, nil, 0)
}

func (tt *TT) Sle(a, b *Term) *Term {
	if a == b || a.hi <= b.lo {
		return tt.True
	}
	if a.lo > b.hi {
		return tt.False
	}
	if k, ok := remOf(a, b); ok && k <= 1 {
		return tt.True
	}
	if k, ok := remOf(b, a); ok && k <= 0 {
		return tt.False
	}
	if t := tt.cmpNarrow(OSle, a, b); t != nil {
		return t
	}
	return tt.mk(OSle, 0, a, b, nil, 0)
}

// remOf reports whether a is a remainder by n plus k, without overflow, n being positive.
func remOf(a, n *Term) (k int64, ok bool) {
	if n.lo <= 0 {
		return 0, false
	}
	a, n = strip(a), strip(n)
	if a.op == OAdd && a.b.isC() {
		k = sx(a.b.k, a.w)
		if k < -1<<62 || k > 1<<62 {
			return 0, false
		}
		l, o1 := addOv(a.a.lo, k)
		h, o2 := addOv(a.a.hi, k)
		if o1 || o2 || l < minS(a.w) || h > maxS(a.w) {
			return 0, false
		}
		a = strip(a.a)
	}
	if a.op == OBAnd { // x & (n-1) is at most n-1
		for _, m := range []*Term{strip(a.a), strip(a.b)} {
			if m.op == OAdd && m.b.isC() && sx(m.b.k, m.w) == -1 && m.lo >= 0 && m.a.lo > 0 && strip(m.a) == n {
				return k, true
			}
		}
		return 0, false
	}
	if a.op != OSRem && !(a.op == OURem && a.a.lo >= 0 && a.b.lo > 0) {
		return 0, false
	}
	return k, strip(a.b) == n && a.b.lo > 0
}

// strip removes conversions that keep the value.
func strip(a *Term) *Term {
	for {
		switch {
		case a.op == OSext, a.op == OZext && a.a.lo >= 0:
			a = a.a
		case a.op == OTrunc && a.a.lo >= minS(a.w) && a.a.hi <= maxS(a.w):
			a = a.a
		default:
			return a
		}
	}
}

// cmpNarrow strips common sign extensions from a signed comparison.
func (tt *TT) cmpNarrow(op Op, a, b *Term) *Term {
	var x, y *Term
	switch {
	case a.op == OSext && b.op == OSext && a.a.w == b.a.w:
		x, y = a.a, b.a
	case a.op == OSext && b.isC() && b.lo >= minS(a.a.w) && b.lo <= maxS(a.a.w):
		x, y = a.a, tt.Const(b.k, a.a.w)
	case b.op == OSext && a.isC() && a.lo >= minS(b.a.w) && a.lo <= maxS(b.a.w):
		x, y = tt.Const(a.k, b.a.w), b.a
	default:
		return nil
	}
	if op == OSlt {
		return tt.Slt(x, y)
	}
	return tt.Sle(x, y)
}

func (tt *TT) Ult(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if a.isC() && b.isC() {
		return tt.Bool(a.k < b.k)
	}
	if b.isC() && b.k == 0 {
		return tt.False
	}
	if a.lo >= 0 && b.lo >= 0 {
		return tt.Slt(a, b)
	}
	if a.lo >= 0 && b.hi < 0 {
		return tt.True
	}
	if a.hi < 0 && b.lo >= 0 {
		return tt.False
	}
	if b.op == OConst && b.lo >= 0 && a.op == OSub && a.b.isC() && a.a.lo >= 0 && a.b.lo >= 0 {
		// (x - c) <u k  with x>=0: c <= x < c+k
		if s, ov := addOv(a.b.lo, b.lo); !ov && s <= maxS(a.w) {
			return tt.And(tt.Sle(a.b, a.a), tt.Slt(a.a, tt.Const(uint64(s), a.w)))
		}
	}
	if a.op == OURem && a.b == b {
		return tt.Not(tt.Eq(b, tt.Const(0, b.w)))
	}
	return tt.mk(OUlt, 0, a, b, nil, 0)
}

func (tt *TT) Ule(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.isC() && b.isC() {
		return tt.Bool(a.k <= b.k)
	}
	if a.isC() && a.k == 0 {
		return tt.True
	}
	if a.lo >= 0 && b.lo >= 0 {
		return tt.Sle(a, b)
	}
	if a.lo >= 0 && b.hi < 0 {
		return tt.True
	}
	if a.hi < 0 && b.lo >= 0 {
		return tt.False
	}
	return tt.mk(OUle, 0, a, b, nil, 0)
}

func commut(op Op) bool {
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		return true
	}
	return false
}

// fold computes a concrete binary operation (SMT-LIB semantics).
func fold(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	x &= m
	y &= m
	var r uint64
	switch op {
	case OAdd:
		r = x + y
	case OSub:
		r = x - y
	case OMul:
		r = x * y
	case OUDiv:
		if y == 0 {
			r = m
		} else {
			r = x / y
		}
	case OURem:
		if y == 0 {
			r = x
		} else {
			r = x % y
		}
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a >= 0 {
				r = m
			} else {
				r = 1
			}
		} else if b == -1 {
			r = uint64(-a)
		} else {
			r = uint64(a / b)
		}
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			r = x
		} else if b == -1 {
			r = 0
		} else {
			r = uint64(a % b)
		}
	case OBAnd:
		r = x & y
	case OBOr:
		r = x | y
	case OBXor:
		r = x ^ y
	case OShl:
		if y < uint64(w) {
			r = x << y
		}
	case OLshr:
		if y < uint64(w) {
			r = x >> y
		}
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		r = uint64(sx(x, w) >> y)
	}
	return r & m
}

func fitsW(t *Term, k uint8) bool { return t.lo > minS(k) && t.hi <= maxS(k) }

func (tt *TT) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isC() && b.isC() {
		return tt.Const(fold(op, w, a.k, b.k), w)
	}
	if commut(op) && (a.isC() || (!b.isC() && a.id > b.id)) {
		a, b = b, a
	}
	if b.isC() {
		switch op {
		case OAdd:
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isC() {
				return tt.Bin(OAdd, a.a, tt.Const(a.b.k+b.k, w))
			}
			if a.op == OIte && a.b.isC() && a.c.isC() {
				return tt.Ite(a.a, tt.Bin(op, a.b, b), tt.Bin(op, a.c, b))
			}
		case OSub:
			if b.k == 0 {
				return a
			}
			return tt.Bin(OAdd, a, tt.Const(-b.k, w))
		case OMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if b.k == mask(w) {
				return tt.Neg(a)
			}
		case OUDiv, OSDiv:
			if b.k == 1 {
				return a
			}
		case OURem:
			if b.k == 1 {
				return tt.Const(0, w)
			}
		case OSRem:
			if b.k == 1 || b.k == mask(w) {
				return tt.Const(0, w)
			}
		case OBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.lo >= 0 && b.lo >= 0 && bits.OnesCount64(b.k+1) == 1 && a.hi <= b.lo {
				return a
			}
		case OBOr, OBXor:
			if b.k == 0 {
				return a
			}
		case OShl, OLshr, OAshr:
			if b.k == 0 {
				return a
			}
			if op == OShl && b.k < uint64(w) {
				return tt.Bin(OMul, a, tt.Const(uint64(1)<<b.k, w))
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return tt.Const(0, w)
		case OBAnd, OBOr:
			return a
		}
	}
	if op == OSub {
		if r := tt.remainder(a, b); r != nil {
			return r
		}
	}
	// exact decomposition: (c*q + r) div, rem, shift or mask by c, with 0 <= r < c
	if b.isC() && a.op == OAdd && a.lo >= 0 {
		c := int64(0)
		switch op {
		case OSDiv, OSRem, OUDiv, OURem:
			c = sx(b.k, w)
		case OLshr, OAshr:
			if b.k < 62 && b.k < uint64(w)-1 {
				c = int64(1) << b.k
			}
		case OBAnd:
			if b.lo > 0 && b.lo < 1<<62 && (b.lo+1)&b.lo == 0 {
				c = b.lo + 1
			}
		}
		if c > 1 && c <= maxS(w) {
			if q, r := tt.splitBy(a, c); q != nil {
				switch op {
				case OSRem, OURem, OBAnd:
					return r
				}
				return q
			}
		}
	}
	// unsigned on non-negative operands is signed
	if (op == OUDiv || op == OURem) && a.lo >= 0 && b.lo > 0 {
		if op == OUDiv {
			return tt.Bin(OSDiv, a, b)
		}
		return tt.Bin(OSRem, a, b)
	}
	// narrowing of expensive operations
	if w >= 16 && (op == OSDiv || op == OSRem || op == OMul) {
		for _, k := range [...]uint8{8, 12, 16, 20, 24, 32, 48} {
			if k >= w {
				break
			}
			if !fitsW(a, k) || !fitsW(b, k) {
				continue
			}
			if op == OMul {
				r := tt.mk(op, w, a, b, nil, 0)
				if !fitsW(r, k) {
					continue
				}
			}
			// signed division by zero (1 or -1) and remainder by zero (the dividend) mean the same
			// at every width, so nothing is lost where b may be zero
			x, y := tt.Trunc(a, k), tt.Trunc(b, k)
			return tt.Sext(tt.Bin(op, x, y), w)
		}
	}
	return tt.mk(op, w, a, b, nil, 0)
}

func unsext(t *Term) *Term {
	for t.op == OSext {
		t = t.a
	}
	return t
}

func sameSigned(a, b *Term) bool {
	a, b = unsext(a), unsext(b)
	return a == b || a.isC() && b.isC() && sx(a.k, a.w) == sx(b.k, b.w)
}

// remainder recognises x - (x / y) * y, which is x % y for all x and y (also for y = 0 and for
// the overflowing division, as the solver defines them).
func (tt *TT) remainder(x, m *Term) *Term {
	m = unsext(m)
	if m.op != OMul {
		return nil
	}
	for _, p := range [2][2]*Term{{m.a, m.b}, {m.b, m.a}} {
		q, y := unsext(p[0]), p[1]
		if q.op == OSDiv && q.w <= m.w && sameSigned(q.a, x) && sameSigned(q.b, y) {
			r := tt.Bin(OSRem, q.a, q.b)
			if r.w < x.w {
				r = tt.Sext(r, x.w)
			}
			return r
		}
	}
	return nil
}

type linPart struct {
	k int64
	t *Term
}

// linear writes t exactly (without wrapping) as a sum of multiples plus a constant.
func linear(t *Term, k int64, out []linPart, c *int64, depth int) ([]linPart, bool) {
	if depth > 40 || len(out) > 40 {
		return nil, false
	}
	switch t.op {
	case OConst:
		p, o := mulOv(k, sx(t.k, t.w))
		s, o2 := addOv(*c, p)
		*c = s
		return out, !o && !o2
	case OAdd:
		l, o1 := addOv(t.a.lo, t.b.lo)
		h, o2 := addOv(t.a.hi, t.b.hi)
		if !o1 && !o2 && l >= minS(t.w) && h <= maxS(t.w) {
			out, ok := linear(t.a, k, out, c, depth+1)
			if !ok {
				return nil, false
			}
			return linear(t.b, k, out, c, depth+1)
		}
	case OMul:
		if t.b.op == OConst {
			f := sx(t.b.k, t.w)
			p1, o1 := mulOv(t.a.lo, f)
			p2, o2 := mulOv(t.a.hi, f)
			kf, o3 := mulOv(k, f)
			if !o1 && !o2 && !o3 && min(p1, p2) >= minS(t.w) && max(p1, p2) <= maxS(t.w) {
				return linear(t.a, kf, out, c, depth+1)
			}
		}
	}
	return append(out, linPart{k, t}), true
}

// splitBy writes a (non-negative) as c*q + r with 0 <= r < c, or gives nil.
func (tt *TT) splitBy(a *Term, c int64) (q, r *Term) {
	k := int64(0)
	parts, ok := linear(a, 1, nil, &k, 0)
	if !ok {
		return nil, nil
	}
	w := a.w
	rk := ((k % c) + c) % c
	qk := (k - rk) / c
	lo, hi := int64(0), int64(0)
	var qs, rs []linPart
	for _, p := range parts {
		if p.k%c == 0 {
			qs = append(qs, linPart{p.k / c, p.t})
			continue
		}
		rs = append(rs, p)
		x, o1 := mulOv(p.k, p.t.lo)
		y, o2 := mulOv(p.k, p.t.hi)
		l, o3 := addOv(lo, min(x, y))
		h, o4 := addOv(hi, max(x, y))
		if o1 || o2 || o3 || o4 {
			return nil, nil
		}
		lo, hi = l, h
	}
	if x, ov := addOv(lo, rk); ov || x < 0 {
		return nil, nil
	}
	if x, ov := addOv(hi, rk); ov || x >= c {
		// perhaps a constant smaller by c
		rk, qk = rk-c, qk+1
		if lo+rk < 0 || hi+rk >= c {
			return nil, nil
		}
	}
	build := func(ps []linPart, k int64) *Term {
		s := tt.Const(uint64(k), w)
		var x *Term
		for _, p := range ps {
			m := tt.Bin(OMul, p.t, tt.Const(uint64(p.k), w))
			if x == nil {
				x = m
			} else {
				x = tt.Bin(OAdd, x, m)
			}
		}
		if x == nil {
			return s
		}
		return tt.Bin(OAdd, x, s)
	}
	return build(qs, qk), build(rs, rk)
}

func (tt *TT) Neg(a *Term) *Term {
	if a.isC() {
		return tt.Const(-a.k, a.w)
	}
	if a.op == ONeg {
		return a.a
	}
	if a.op == OSub {
		return tt.Bin(OSub, a.b, a.a)
	}
	return tt.mk(ONeg, a.w, a, nil, nil, 0)
}

func (tt *TT) BNot(a *Term) *Term {
	if a.isC() {
		return tt.Const(^a.k, a.w)
	}
	if a.op == OBNot {
		return a.a
	}
	return tt.mk(OBNot, a.w, a, nil, nil, 0)
}

func (tt *TT) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OConst:
		return tt.Const(a.k, w)
	case OZext, OSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return tt.Trunc(a.a, w)
		}
		if a.op == OZext {
			return tt.Zext(a.a, w)
		}
		return tt.Sext(a.a, w)
	case OTrunc:
		return tt.Trunc(a.a, w)
	case OAdd, OSub, OMul, OBAnd, OBOr, OBXor:
		return tt.Bin(a.op, tt.Trunc(a.a, w), tt.Trunc(a.b, w))
	case ONeg:
		return tt.Neg(tt.Trunc(a.a, w))
	case OIte:
		return tt.Ite(a.a, tt.Trunc(a.b, w), tt.Trunc(a.c, w))
	}
	return tt.mk(OTrunc, w, a, nil, nil, 0)
}

func (tt *TT) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return tt.Const(a.k, w)
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	if a.op == OIte && a.b.isC() && a.c.isC() {
		return tt.Ite(a.a, tt.Zext(a.b, w), tt.Zext(a.c, w))
	}
	return tt.mk(OZext, w, a, nil, nil, 0)
}

func (tt *TT) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return tt.Const(uint64(sx(a.k, a.w)), w)
	}
	if a.op == OSext {
		return tt.Sext(a.a, w)
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	if a.op == OTrunc && a.a.w == w && a.a.lo >= minS(a.w) && a.a.hi <= maxS(a.w) {
		return a.a
	}
	if a.op == OIte && a.b.isC() && a.c.isC() {
		return tt.Ite(a.a, tt.Sext(a.b, w), tt.Sext(a.c, w))
	}
	return tt.mk(OSext, w, a, nil, nil, 0)
}

func (tt *TT) FP(op Op, w uint8, a, b *Term, k uint64) *Term {
	return tt.mk(op, w, a, b, nil, k)
}

// Model assigns values (masked) to variable indices.
type Model struct {
	val map[int32]uint64
}

func (m *Model) get(tt *TT, i int32) uint64 {
	if x, ok := m.val[i]; ok {
		return x
	}
	v := tt.vars[i]
	if v.w == 0 {
		return 0
	}
	if v.lo <= 0 && v.hi >= 0 {
		return 0
	}
	return uint64(v.lo) & mask(v.w)
}

func (m *Model) clone() *Model {
	n := make(map[int32]uint64, len(m.val)+4)
	for k, v := range m.val {
		n[k] = v
	}
	return &Model{n}
}

// Eval evaluates t under m.
func (tt *TT) Eval(t *Term, m *Model) uint64 {
	tt.gen++
	return tt.ev(t, m)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (tt *TT) ev(t *Term, m *Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.egen == tt.gen {
		return t.eval
	}
	var r uint64
	switch t.op {
	case OVar:
		r = m.get(tt, int32(t.k))
	case ONot:
		r = 1 - tt.ev(t.a, m)
	case OAnd:
		r = tt.ev(t.a, m)
		if r != 0 {
			r = tt.ev(t.b, m)
		}
	case OOr:
		r = tt.ev(t.a, m)
		if r == 0 {
			r = tt.ev(t.b, m)
		}
	case OIte:
		if tt.ev(t.a, m) != 0 {
			r = tt.ev(t.b, m)
		} else {
			r = tt.ev(t.c, m)
		}
	case OEq:
		r = b2u(tt.ev(t.a, m) == tt.ev(t.b, m))
	case OUlt:
		r = b2u(tt.ev(t.a, m) < tt.ev(t.b, m))
	case OUle:
		r = b2u(tt.ev(t.a, m) <= tt.ev(t.b, m))
	case OSlt:
		r = b2u(sx(tt.ev(t.a, m), t.a.w) < sx(tt.ev(t.b, m), t.a.w))
	case OSle:
		r = b2u(sx(tt.ev(t.a, m), t.a.w) <= sx(tt.ev(t.b, m), t.a.w))
	case OBNot:
		r = ^tt.ev(t.a, m) & mask(t.w)
	case ONeg:
		r = -tt.ev(t.a, m) & mask(t.w)
	case OTrunc:
		r = tt.ev(t.a, m) & mask(t.w)
	case OZext:
		r = tt.ev(t.a, m)
	case OSext:
		r = uint64(sx(tt.ev(t.a, m), t.a.w)) & mask(t.w)
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq, OFNeg, OFAbs, OFRound, OFFromS, OFFromU, OFToS:
		r = tt.evFP(t, m)
	default:
		r = fold(t.op, t.w, tt.ev(t.a, m), tt.ev(t.b, m))
	}
	t.egen = tt.gen
	t.eval = r
	return r
}

// smt prints the node itself with children referred to by name.
func (t *Term) smt(name func(*Term) string) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, name(t.a))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, name(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, name(t.a))
	case ONot, OBNot, ONeg:
		return "(" + opName[t.op] + " " + name(t.a) + ")"
	case OIte:
		return "(ite " + name(t.a) + " " + name(t.b) + " " + name(t.c) + ")"
	}
	return "(" + opName[t.op] + " " + name(t.a) + " " + name(t.b) + ")"
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}
