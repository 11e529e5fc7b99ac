package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unsafe"
)

// V is a target value. Scalars live in I; P carries everything else, or a *Term when symbolic.
type V struct {
	I int64
	P any
}

type Agg struct{ f []V } // struct, array or tuple
type Sl struct{ a []V }  // non-nil slice
type Iface struct {      // non-nil interface value
	t types.Type
	v V
}
type Closure struct {
	fn     *CFn
	env    []V
	native func(in *In, args []V) V
}
type ment struct {
	k, v V
	live bool
}
type Map struct {
	idx  map[any]int
	ents []ment
	n    int
	sym  bool // has symbolic keys: linear search
}
type SymPtr struct {
	base []V
	idx  *Term
	agg  bool
}
type RuneIter struct {
	s   V
	pos int
}
type MapIter struct {
	m   *Map
	pos int
}

// Rope is a string with symbolic parts.
type Seg struct {
	kind uint8 // 0 literal, 1 byte term, 2 decimal of signed 64-bit term
	lit  string
	t    *Term
}
type Rope struct {
	segs []Seg
	flat []V // bytes when there is no decimal segment
}

type engineError struct{ msg string }
type pathCut struct {
	why  string
	kind string // "unsupported", "bound", "assume", "steps", "unknown"
}
type targetPanic struct{ v V }

func (t targetPanic) String() string { return "target panic" }

func boolV(b bool) V {
	if b {
		return V{I: 1}
	}
	return V{}
}
func strV(s string) V {
	if s == "" {
		return V{}
	}
	return V{P: s}
}
func agg(v ...V) V { return V{P: &Agg{v}} }

func isSym(v V) bool { _, ok := v.P.(*Term); return ok }

func copyV(v V) V {
	if a, ok := v.P.(*Agg); ok {
		n := make([]V, len(a.f))
		for i := range a.f {
			if _, ok := a.f[i].P.(*Agg); ok {
				n[i] = copyV(a.f[i])
			} else {
				n[i] = a.f[i]
			}
		}
		return V{P: &Agg{n}}
	}
	return v
}

func lift(tt *TT, v V, w uint8) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	if w == 0 {
		return tt.Bool(v.I != 0)
	}
	return tt.Const(uint64(v.I), w)
}

func unlift(t *Term, signed bool) V {
	if t.op == OConst {
		if t.w == 0 {
			return V{I: int64(t.k)}
		}
		if signed {
			return V{I: sx(t.k, t.w)}
		}
		return V{I: int64(t.k)}
	}
	return V{P: t}
}

func boolT(t *Term) V { return unlift(t, false) }

// integer kinds
type ikind struct {
	w      uint8
	signed bool
}

func intKind(t types.Type) (ikind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ikind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return ikind{64, true}, true
	case types.Int32, types.UntypedRune:
		return ikind{32, true}, true
	case types.Int16:
		return ikind{16, true}, true
	case types.Int8:
		return ikind{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return ikind{64, false}, true
	case types.Uint32:
		return ikind{32, false}, true
	case types.Uint16:
		return ikind{16, false}, true
	case types.Uint8:
		return ikind{8, false}, true
	}
	return ikind{}, false
}

func (k ikind) norm(x int64) int64 {
	if k.w == 64 {
		return x
	}
	if k.signed {
		return sx(uint64(x), k.w)
	}
	return int64(uint64(x) & mask(k.w))
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloatT(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsFloat == 0 {
		return 0, false
	}
	if b.Kind() == types.Float32 {
		return 32, true
	}
	return 64, true
}
func isComplexT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}

func fl(v V) float64            { return math.Float64frombits(uint64(v.I)) }
func flV(f float64) V           { return V{I: int64(math.Float64bits(f))} }
func isIface(t types.Type) bool { return types.IsInterface(t) }

// ---- strings

func ropeSegs(v V) []Seg {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		return []Seg{{lit: s}}
	case *Rope:
		return s.segs
	}
	panic(engineError{fmt.Sprintf("not a string: %T", v.P)})
}

func ropeV(segs []Seg) V {
	// merge literals, drop empties
	out := segs[:0:0]
	for _, s := range segs {
		if s.kind == 0 {
			if s.lit == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].kind == 0 {
				out[n-1].lit += s.lit
				continue
			}
		} else if s.t.op == OConst {
			var l string
			if s.kind == 1 {
				l = string([]byte{byte(s.t.k)})
			} else {
				l = strconv.FormatInt(sx(s.t.k, s.t.w), 10)
			}
			if n := len(out); n > 0 && out[n-1].kind == 0 {
				out[n-1].lit += l
				continue
			}
			s = Seg{lit: l}
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		return V{}
	}
	if len(out) == 1 && out[0].kind == 0 {
		return V{P: out[0].lit}
	}
	return V{P: &Rope{segs: out}}
}

func concatV(a, b V) V {
	if a.P == nil {
		return b
	}
	if b.P == nil {
		return a
	}
	as, ok1 := a.P.(string)
	bs, ok2 := b.P.(string)
	if ok1 && ok2 {
		return V{P: as + bs}
	}
	x, y := ropeSegs(a), ropeSegs(b)
	n := make([]Seg, 0, len(x)+len(y))
	n = append(n, x...)
	n = append(n, y...)
	return ropeV(n)
}

func hasDec(v V) bool {
	r, ok := v.P.(*Rope)
	if !ok || r.flat != nil {
		return false
	}
	for _, s := range r.segs {
		if s.kind == 2 {
			return true
		}
	}
	return false
}

// bytesOf returns the bytes of a string, materialising decimals by case split.
func (in *In) bytesOf(v V) []V {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		out := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			out[i].I = int64(s[i])
		}
		return out
	case *Rope:
		if s.flat != nil {
			return s.flat
		}
		var out []V
		dec := false
		for _, g := range s.segs {
			switch g.kind {
			case 0:
				for i := 0; i < len(g.lit); i++ {
					out = append(out, V{I: int64(g.lit[i])})
				}
			case 1:
				out = append(out, V{P: g.t})
			case 2:
				dec = true
				out = append(out, in.decDigits(g.t)...)
			}
		}
		if !dec {
			s.flat = out
		}
		return out
	}
	panic(engineError{fmt.Sprintf("bytesOf %T", v.P)})
}

// bytesToStr builds a string value from byte values.
func bytesToStr(b []V) V {
	conc := true
	for i := range b {
		if b[i].P != nil {
			conc = false
			break
		}
	}
	if conc {
		s := make([]byte, len(b))
		for i := range b {
			s[i] = byte(b[i].I)
		}
		return strV(unsafe.String(unsafe.SliceData(s), len(s)))
	}
	var segs []Seg
	var lit []byte
	for i := range b {
		if t, ok := b[i].P.(*Term); ok {
			if len(lit) > 0 {
				segs = append(segs, Seg{lit: string(lit)})
				lit = lit[:0]
			}
			segs = append(segs, Seg{kind: 1, t: t})
		} else {
			lit = append(lit, byte(b[i].I))
		}
	}
	if len(lit) > 0 {
		segs = append(segs, Seg{lit: string(lit)})
	}
	flat := make([]V, len(b))
	copy(flat, b)
	return V{P: &Rope{segs: segs, flat: flat}}
}

func (in *In) strLen(v V) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	}
	return len(in.bytesOf(v))
}

func concStr(v V) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// strEq returns the condition under which two strings are equal.
func (in *In) strEq(a, b V) V {
	as, ok1 := concStr(a)
	bs, ok2 := concStr(b)
	if ok1 && ok2 {
		return boolV(as == bs)
	}
	if hasDec(a) || hasDec(b) {
		if r, ok := in.decEq(ropeSegs(a), ropeSegs(b)); ok {
			return r
		}
	}
	x, y := in.bytesOf(a), in.bytesOf(b)
	if len(x) != len(y) {
		return V{}
	}
	r := in.tt.True
	for i := range x {
		if x[i].P == nil && y[i].P == nil {
			if x[i].I != y[i].I {
				return V{}
			}
			continue
		}
		r = in.tt.And(r, in.tt.Eq(lift(in.tt, x[i], 8), lift(in.tt, y[i], 8)))
		if r == in.tt.False {
			return V{}
		}
	}
	return boolT(r)
}

// decEq compares ropes with decimal segments segment-wise when the alignment is unambiguous.
func (in *In) decEq(x, y []Seg) (V, bool) {
	tt := in.tt
	r := tt.True
	x = append([]Seg(nil), x...)
	y = append([]Seg(nil), y...)
	// startsNonDigit: what follows a decimal must not continue it
	ends := func(s []Seg) bool {
		if len(s) == 0 {
			return true
		}
		return s[0].kind == 0 && !isDigit(s[0].lit[0])
	}
	for {
		if len(x) == 0 || len(y) == 0 {
			if len(x) == len(y) {
				return boolT(r), true
			}
			// one is exhausted: the other is non-empty (every segment has at least one byte)
			return V{}, true
		}
		a, b := x[0], y[0]
		switch {
		case a.kind == 2 && b.kind == 2:
			if a.t == b.t {
				x, y = x[1:], y[1:]
				continue
			}
			if !ends(x[1:]) || !ends(y[1:]) {
				return V{}, false
			}
			r = tt.And(r, tt.Eq(a.t, b.t))
			x, y = x[1:], y[1:]
		case a.kind == 0 && b.kind == 0:
			n := min(len(a.lit), len(b.lit))
			if a.lit[:n] != b.lit[:n] {
				return V{}, true
			}
			x, y = dropLit(x, n), dropLit(y, n)
		case a.kind == 2 && b.kind == 0 || a.kind == 0 && b.kind == 2:
			sw := false
			if a.kind == 0 {
				a, b = b, a
				x, y = y, x
				sw = true
			}
			if !ends(x[1:]) {
				return V{}, false
			}
			i := 0
			if b.lit[0] == '-' {
				i = 1
			}
			for i < len(b.lit) && isDigit(b.lit[i]) {
				i++
			}
			if i == len(b.lit) && len(y) > 1 && y[1].kind != 0 {
				return V{}, false
			}
			num := b.lit[:i]
			v, err := strconv.ParseInt(num, 10, 64)
			if err != nil || strconv.FormatInt(v, 10) != num {
				return V{}, true
			}
			r = tt.And(r, tt.Eq(a.t, tt.Const(uint64(v), 64)))
			x, y = x[1:], dropLit(y, i)
			if sw {
				x, y = y, x
			}
		case a.kind == 1 && b.kind == 1:
			r = tt.And(r, tt.Eq(a.t, b.t))
			x, y = x[1:], y[1:]
		case a.kind == 1 && b.kind == 0:
			r = tt.And(r, tt.Eq(a.t, tt.Const(uint64(b.lit[0]), 8)))
			x, y = x[1:], dropLit(y, 1)
		case a.kind == 0 && b.kind == 1:
			r = tt.And(r, tt.Eq(b.t, tt.Const(uint64(a.lit[0]), 8)))
			x, y = dropLit(x, 1), y[1:]
		default:
			return V{}, false
		}
		if r == tt.False {
			return V{}, true
		}
	}
}

func dropLit(s []Seg, n int) []Seg {
	if len(s[0].lit) == n {
		return s[1:]
	}
	s[0].lit = s[0].lit[n:]
	return s
}

// strLess returns the condition a < b.
func (in *In) strLess(a, b V) V {
	as, ok1 := concStr(a)
	bs, ok2 := concStr(b)
	if ok1 && ok2 {
		return boolV(as < bs)
	}
	x, y := in.bytesOf(a), in.bytesOf(b)
	tt := in.tt
	n := min(len(x), len(y))
	r := tt.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := lift(tt, x[i], 8), lift(tt, y[i], 8)
		r = tt.Or(tt.Ult(p, q), tt.And(tt.Eq(p, q), r))
	}
	return boolT(r)
}

// evalStr evaluates a string under a model.
func (in *In) evalStr(v V, m *Model) string {
	var sb strings.Builder
	for _, s := range ropeSegs(v) {
		switch s.kind {
		case 0:
			sb.WriteString(s.lit)
		case 1:
			sb.WriteByte(byte(in.tt.Eval(s.t, m)))
		case 2:
			sb.WriteString(strconv.FormatInt(sx(in.tt.Eval(s.t, m), s.t.w), 10))
		}
	}
	return sb.String()
}
