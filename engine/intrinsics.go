package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

type intrinsic = func(in *In, fn *CFn, a []V) V

var intrinsics map[string]intrinsic

const kVF = "github.com/raa0121/GoBCDice/zz_verif/vf."

var i64k = ikind{64, true}

func slArgs(v V) []V {
	if s, ok := v.P.(*Sl); ok {
		return s.a
	}
	return nil
}

func (in *In) str(v V) string {
	s, ok := concStr(v)
	if !ok {
		panic(pathCut{"symbolic string where a concrete one is needed in " + in.where1(), "unsupported"})
	}
	return s
}

// raw interprets the function's own body.
func raw(in *In, fn *CFn, a []V) V {
	if fn.pkg >= 0 && in.inited[fn.pkg] == 0 {
		in.initPkg(fn.pkg)
	}
	return in.callRaw(fn, a, nil)
}

func allConc(a []V) bool {
	for _, v := range a {
		switch v.P.(type) {
		case nil, string:
		default:
			return false
		}
	}
	return true
}

// native runs f when all arguments are concrete and interprets the body otherwise.
func native(f func(a []V) V) intrinsic {
	return func(in *In, fn *CFn, a []V) V {
		if allConc(a) {
			return f(a)
		}
		return raw(in, fn, a)
	}
}

func cs(v V) string { s, _ := v.P.(string); return s }

func (in *In) mkErr(s V) V {
	t := in.P.namedType("errors", "errorString")
	cell := &V{P: &Agg{[]V{s}}}
	return V{P: &Iface{in.P.canon(types.NewPointer(t)), V{P: cell}}}
}

func concBytes(v V) ([]byte, bool) {
	s, ok := v.P.(*Sl)
	if !ok {
		return nil, v.P == nil
	}
	b := make([]byte, len(s.a))
	for i := range b {
		if s.a[i].P != nil {
			return nil, false
		}
		b[i] = byte(s.a[i].I)
	}
	return b, true
}

func strSlice(ss []string) V {
	if ss == nil {
		return V{}
	}
	a := make([]V, len(ss))
	for i, s := range ss {
		a[i] = strV(s)
	}
	return V{P: &Sl{a}}
}

// builder cells: strings.Builder{addr, buf}, bytes.Buffer{buf, off, lastRead}; the text is kept as a rope in the buf cell.
func bufCell(p V, i int) *V {
	cell := p.P.(*V)
	return &cell.P.(*Agg).f[i]
}

func bufVal(in *In, p V, i int) V {
	if p.P == nil {
		in.nilDeref()
	}
	c := bufCell(p, i)
	if s, ok := c.P.(*Sl); ok {
		return bytesToStr(s.a)
	}
	return *c
}

func bufAppend(in *In, p V, i int, s V) {
	v := concatV(bufVal(in, p, i), s)
	c := bufCell(p, i)
	in.log(c)
	*c = v
}

func regBuf(pfx string, i int) {
	I := intrinsics
	nilE := func(n V) V { return agg(n, V{}) }
	I[pfx+"WriteString"] = func(in *In, fn *CFn, a []V) V {
		bufAppend(in, a[0], i, a[1])
		if hasDec(a[1]) {
			return nilE(V{})
		}
		return nilE(V{I: int64(in.strLen(a[1]))})
	}
	I[pfx+"Write"] = func(in *In, fn *CFn, a []V) V {
		b := slArgs(a[1])
		bufAppend(in, a[0], i, bytesToStr(b))
		return nilE(V{I: int64(len(b))})
	}
	I[pfx+"WriteByte"] = func(in *In, fn *CFn, a []V) V {
		bufAppend(in, a[0], i, bytesToStr([]V{a[1]}))
		return V{}
	}
	I[pfx+"WriteRune"] = func(in *In, fn *CFn, a []V) V {
		s := in.encodeRune(a[1], ikind{32, true})
		bufAppend(in, a[0], i, s)
		return nilE(V{I: int64(in.strLen(s))})
	}
	I[pfx+"String"] = func(in *In, fn *CFn, a []V) V {
		if a[0].P == nil {
			return strV("<nil>")
		}
		return bufVal(in, a[0], i)
	}
	I[pfx+"Len"] = func(in *In, fn *CFn, a []V) V { return V{I: int64(in.strLen(bufVal(in, a[0], i)))} }
	I[pfx+"Reset"] = func(in *In, fn *CFn, a []V) V {
		c := bufCell(a[0], i)
		in.log(c)
		*c = V{}
		return V{}
	}
	I[pfx+"Grow"] = func(in *In, fn *CFn, a []V) V { return V{} }
	I[pfx+"Cap"] = func(in *In, fn *CFn, a []V) V { return V{I: int64(in.strLen(bufVal(in, a[0], i)))} }
	I[pfx+"Truncate"] = func(in *In, fn *CFn, a []V) V {
		b := in.bytesOf(bufVal(in, a[0], i))
		n := int(in.concInt(a[1], i64k))
		if n < 0 || n > len(b) {
			panic(targetPanic{V{P: &Iface{in.P.canon(types.Typ[types.String]), strV("bytes.Buffer: truncation out of range")}}})
		}
		c := bufCell(a[0], i)
		in.log(c)
		*c = bytesToStr(b[:n])
		return V{}
	}
	I[pfx+"Bytes"] = func(in *In, fn *CFn, a []V) V {
		b := in.bytesOf(bufVal(in, a[0], i))
		c := make([]V, len(b))
		copy(c, b)
		return V{P: &Sl{c}}
	}
}

// runePreds: rune classes as unions of ranges
type rng struct{ lo, hi int64 }

var predCache = map[string][]rng{}

func rangesOf(f func(rune) bool) []rng {
	var out []rng
	in := false
	for r := rune(0); r <= 0x10ffff+1; r++ {
		if r <= 0x10ffff && f(r) {
			if !in {
				out = append(out, rng{int64(r), int64(r)})
				in = true
			}
			out[len(out)-1].hi = int64(r)
		} else {
			in = false
		}
	}
	return out
}

func (in *In) inRanges(t *Term, rs []rng) *Term {
	tt := in.tt
	r := tt.False
	for _, g := range rs {
		if t.hi < g.lo || t.lo > g.hi {
			continue
		}
		var c *Term
		if g.lo == g.hi {
			c = tt.Eq(t, tt.Const(uint64(g.lo), t.w))
		} else {
			c = tt.And(tt.Sle(tt.Const(uint64(g.lo), t.w), t), tt.Sle(t, tt.Const(uint64(g.hi), t.w)))
		}
		r = tt.Or(r, c)
	}
	return r
}

var predMu = make(chan struct{}, 1)

func runePred(name string, f func(rune) bool) {
	intrinsics["unicode."+name] = func(in *In, fn *CFn, a []V) V {
		t, ok := a[0].P.(*Term)
		if !ok {
			return boolV(f(rune(a[0].I)))
		}
		predMu <- struct{}{}
		rs, ok := predCache[name]
		if !ok {
			rs = rangesOf(f)
			predCache[name] = rs
		}
		<-predMu
		if len(rs) > 40 && (t.hi >= 0x80 || t.lo < 0) {
			if in.branch(in.tt.Ult(t, in.tt.Const(0x80, t.w))) {
				var as []rng
				for _, g := range rs {
					if g.lo < 0x80 {
						as = append(as, rng{g.lo, min(g.hi, 0x7f)})
					}
				}
				return boolT(in.inRanges(t, as))
			}
		}
		return boolT(in.inRanges(t, rs))
	}
}

func runeMap(name string, f func(rune) rune) {
	var changed, special []rng
	intrinsics["unicode."+name] = func(in *In, fn *CFn, a []V) V {
		t, ok := a[0].P.(*Term)
		if !ok {
			return V{I: int64(f(rune(a[0].I)))}
		}
		tt := in.tt
		predMu <- struct{}{}
		if changed == nil {
			changed = rangesOf(func(r rune) bool { return r >= 0x80 && f(r) != r })
			special = rangesOf(func(r rune) bool { return r >= 0x80 && f(r) < 0x80 })
		}
		<-predMu
		if in.branch(tt.Ult(t, tt.Const(0x80, t.w))) {
			lo, hi, d := int64('A'), int64('Z'), int64(32)
			if name != "ToLower" {
				lo, hi, d = 'a', 'z', -32
			}
			c := in.inRanges(t, []rng{{lo, hi}})
			return unlift(tt.Ite(c, tt.Bin(OAdd, t, tt.Const(uint64(d), t.w)), t), true)
		}
		for _, g := range special {
			for x := g.lo; x <= g.hi; x++ {
				if in.branch(tt.Eq(t, tt.Const(uint64(x), t.w))) {
					return V{I: int64(f(rune(x)))}
				}
			}
		}
		if in.branch(in.inRanges(t, changed)) {
			return V{I: int64(f(rune(sx(in.fix(t, "case mapping of a non-ASCII letter"), t.w))))}
		}
		return a[0]
	}
}

func (in *In) asciiCase(s V, lo, hi byte, d int) (V, bool) {
	b := in.bytesOf(s)
	tt := in.tt
	for i := range b {
		if t, ok := b[i].P.(*Term); ok {
			if !in.branch(tt.Ult(t, tt.Const(0x80, 8))) {
				return V{}, false
			}
		} else if b[i].I >= 0x80 {
			return V{}, false
		}
	}
	out := make([]V, len(b))
	for i := range b {
		if t, ok := b[i].P.(*Term); ok {
			c := tt.And(tt.Ule(tt.Const(uint64(lo), 8), t), tt.Ule(t, tt.Const(uint64(hi), 8)))
			out[i] = unlift(tt.Ite(c, tt.Bin(OAdd, t, tt.Const(uint64(d), 8)), t), false)
		} else {
			x := b[i].I
			if x >= int64(lo) && x <= int64(hi) {
				x = (x + int64(d)) & 255
			}
			out[i] = V{I: x}
		}
	}
	return bytesToStr(out), true
}

// byte searching on possibly symbolic bytes
func (in *In) indexByte(b []V, c V) V {
	tt := in.tt
	for i := range b {
		if b[i].P == nil && c.P == nil {
			if b[i].I&255 == c.I&255 {
				return V{I: int64(i)}
			}
			continue
		}
		if in.branch(tt.Eq(lift(tt, b[i], 8), lift(tt, c, 8))) {
			return V{I: int64(i)}
		}
	}
	return V{I: -1}
}

func (in *In) lastIndexByte(b []V, c V) V {
	tt := in.tt
	for i := len(b) - 1; i >= 0; i-- {
		if in.truth(boolT(tt.Eq(lift(tt, b[i], 8), lift(tt, c, 8)))) {
			return V{I: int64(i)}
		}
	}
	return V{I: -1}
}

func (in *In) indexStr(b, sub []V) V {
	tt := in.tt
	for i := 0; i+len(sub) <= len(b); i++ {
		r := tt.True
		for j := range sub {
			r = tt.And(r, tt.Eq(lift(tt, b[i+j], 8), lift(tt, sub[j], 8)))
		}
		if in.truth(boolT(r)) {
			return V{I: int64(i)}
		}
	}
	return V{I: -1}
}

func (in *In) lock(d int) { in.lockDepth += d }

type reflV struct {
	t    types.Type
	v    V
	addr *V
}

func (in *In) mkReflV(t types.Type, v V, addr *V) V {
	return agg(V{}, V{P: &reflV{t, v, addr}}, V{})
}

func (in *In) getRV(v V) *reflV {
	r, _ := v.P.(*Agg).f[1].P.(*reflV)
	if r == nil {
		panic(pathCut{"zero reflect.Value", "unsupported"})
	}
	if r.addr != nil {
		return &reflV{r.t, *r.addr, r.addr}
	}
	return r
}

func (in *In) mkReflT(t types.Type) V {
	rt := in.P.namedType("reflect", "rtype")
	return V{P: &Iface{in.P.canon(types.NewPointer(rt)), V{P: &reflT{t}}}}
}

type reflT struct{ t types.Type }

func (in *In) reflTypeOf(v V) types.Type {
	if i, ok := v.P.(*Iface); ok {
		v = i.v
	}
	if r, ok := v.P.(*reflT); ok {
		return r.t
	}
	panic(pathCut{"reflect type", "unsupported"})
}

func reflKind(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8,
			types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}
		return m[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// deepEq is structural equality (reflect.DeepEqual on the values this code base uses).
func (in *In) deepEq(t types.Type, a, b V, depth int) *Term {
	tt := in.tt
	if depth > 60 {
		panic(pathCut{"deep comparison too deep", "bound"})
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == nil || y == nil {
			return tt.Bool(x == nil && y == nil)
		}
		if x.t != y.t {
			return tt.False
		}
		return in.deepEq(x.t, x.v, y.v, depth+1)
	case *types.Pointer:
		x, _ := a.P.(*V)
		y, _ := b.P.(*V)
		if x == nil || y == nil || x == y {
			return tt.Bool(x == y)
		}
		return in.deepEq(u.Elem(), *x, *y, depth+1)
	case *types.Slice:
		x, _ := a.P.(*Sl)
		y, _ := b.P.(*Sl)
		if (x == nil) != (y == nil) {
			return tt.False
		}
		if x == nil {
			return tt.True
		}
		if len(x.a) != len(y.a) {
			return tt.False
		}
		r := tt.True
		for i := range x.a {
			r = tt.And(r, in.deepEq(u.Elem(), x.a[i], y.a[i], depth+1))
		}
		return r
	case *types.Array:
		r := tt.True
		for i := range a.P.(*Agg).f {
			r = tt.And(r, in.deepEq(u.Elem(), a.P.(*Agg).f[i], b.P.(*Agg).f[i], depth+1))
		}
		return r
	case *types.Struct:
		r := tt.True
		for i := range a.P.(*Agg).f {
			r = tt.And(r, in.deepEq(u.Field(i).Type(), a.P.(*Agg).f[i], b.P.(*Agg).f[i], depth+1))
		}
		return r
	case *types.Map:
		x, _ := a.P.(*Map)
		y, _ := b.P.(*Map)
		if (x == nil) != (y == nil) {
			return tt.False
		}
		if x == nil {
			return tt.True
		}
		if x.n != y.n {
			return tt.False
		}
		r := tt.True
		for i := range x.ents {
			if !x.ents[i].live {
				continue
			}
			e := in.mapGet(y, u.Key(), x.ents[i].k)
			if e == nil {
				return tt.False
			}
			r = tt.And(r, in.deepEq(u.Elem(), x.ents[i].v, e.v, depth+1))
		}
		return r
	case *types.Signature:
		return tt.Bool(a.P == nil && b.P == nil)
	}
	return lift(tt, in.eq(t, a, b), 0)
}

func fpUn(f func(float64) float64, op Op, k uint64) intrinsic {
	return func(in *In, fn *CFn, a []V) V {
		if t, ok := a[0].P.(*Term); ok {
			return V{P: in.tt.FP(op, 64, t, nil, k)}
		}
		return flV(f(fl(a[0])))
	}
}

func init() {
	intrinsics = map[string]intrinsic{}
	I := intrinsics

	// --- fmt
	I["fmt.Sprintf"] = func(in *In, fn *CFn, a []V) V { r, _ := in.sprintf(a[0], slArgs(a[1])); return r }
	I["fmt.Sprint"] = func(in *In, fn *CFn, a []V) V { return in.sprint(slArgs(a[0]), false) }
	I["fmt.Sprintln"] = func(in *In, fn *CFn, a []V) V { return in.sprint(slArgs(a[0]), true) }
	I["fmt.Errorf"] = func(in *In, fn *CFn, a []V) V {
		r, w := in.sprintf(a[0], slArgs(a[1]))
		if len(w) > 0 {
			t := in.P.namedType("fmt", "wrapError")
			cell := &V{P: &Agg{[]V{r, w[0]}}}
			return V{P: &Iface{in.P.canon(types.NewPointer(t)), V{P: cell}}}
		}
		return in.mkErr(r)
	}
	out := func(in *In, w V, s V) V {
		ifc, _ := w.P.(*Iface)
		if ifc == nil {
			in.nilDeref()
		}
		if ifc.t.String() == "*os.File" {
			in.stdout(s)
			return agg(V{I: int64(0)}, V{})
		}
		if m := in.P.methodNamed(ifc.t, "WriteString"); m != nil && m.intr != nil {
			return in.call(m, []V{ifc.v, s}, nil)
		}
		m := in.P.methodNamed(ifc.t, "Write")
		b := in.bytesOf(s)
		c := make([]V, len(b))
		copy(c, b)
		return in.call(m, []V{ifc.v, {P: &Sl{c}}}, nil)
	}
	I["fmt.Fprintf"] = func(in *In, fn *CFn, a []V) V {
		w := a[0]
		r, _ := in.sprintf(a[1], slArgs(a[2]))
		return out(in, w, r)
	}
	I["fmt.Fprint"] = func(in *In, fn *CFn, a []V) V { w := a[0]; return out(in, w, in.sprint(slArgs(a[1]), false)) }
	I["fmt.Fprintln"] = func(in *In, fn *CFn, a []V) V { w := a[0]; return out(in, w, in.sprint(slArgs(a[1]), true)) }
	I["fmt.Printf"] = func(in *In, fn *CFn, a []V) V {
		r, _ := in.sprintf(a[0], slArgs(a[1]))
		in.stdout(r)
		return agg(V{}, V{})
	}
	I["fmt.Print"] = func(in *In, fn *CFn, a []V) V { in.stdout(in.sprint(slArgs(a[0]), false)); return agg(V{}, V{}) }
	I["fmt.Println"] = func(in *In, fn *CFn, a []V) V { in.stdout(in.sprint(slArgs(a[0]), true)); return agg(V{}, V{}) }

	// --- strings, bytes
	regBuf("(*strings.Builder).", 1)
	regBuf("(*bytes.Buffer).", 0)
	I["(*strings.Builder).WriteByte"] = func(in *In, fn *CFn, a []V) V {
		bufAppend(in, a[0], 1, bytesToStr([]V{a[1]}))
		return V{}
	}
	I["bytes.NewBufferString"] = func(in *In, fn *CFn, a []V) V {
		c := &V{P: &Agg{[]V{a[0], {}, {}}}}
		return V{P: c}
	}
	I["strings.Join"] = func(in *In, fn *CFn, a []V) V {
		r := V{}
		for i, s := range slArgs(a[0]) {
			if i > 0 {
				r = concatV(r, a[1])
			}
			r = concatV(r, s)
		}
		return r
	}
	I["strings.ToUpper"] = func(in *In, fn *CFn, a []V) V {
		if s, ok := concStr(a[0]); ok {
			return strV(strings.ToUpper(s))
		}
		s := a[0]
		if r, ok := in.asciiCase(s, 'a', 'z', -32); ok {
			return r
		}
		return raw(in, fn, []V{s})
	}
	I["strings.ToLower"] = func(in *In, fn *CFn, a []V) V {
		if s, ok := concStr(a[0]); ok {
			return strV(strings.ToLower(s))
		}
		s := a[0]
		if r, ok := in.asciiCase(s, 'A', 'Z', 32); ok {
			return r
		}
		return raw(in, fn, []V{s})
	}
	I["strings.TrimSpace"] = native(func(a []V) V { return strV(strings.TrimSpace(cs(a[0]))) })
	I["strings.Contains"] = native(func(a []V) V { return boolV(strings.Contains(cs(a[0]), cs(a[1]))) })
	I["strings.Repeat"] = func(in *In, fn *CFn, a []V) V {
		n := in.concInt(a[1], i64k)
		if n < 0 {
			panic(targetPanic{in.mkErr(strV("strings: negative Repeat count"))})
		}
		r := V{}
		for range n {
			r = concatV(r, a[0])
		}
		return r
	}
	I["strings.Split"] = native2(func(a []V) V { return strSlice(strings.Split(cs(a[0]), cs(a[1]))) })
	I["strings.Index"] = func(in *In, fn *CFn, a []V) V {
		if allConc(a) {
			return V{I: int64(strings.Index(cs(a[0]), cs(a[1])))}
		}
		return in.indexStr(in.bytesOf(a[0]), in.bytesOf(a[1]))
	}
	I["strings.IndexByte"] = func(in *In, fn *CFn, a []V) V { return in.indexByte(in.bytesOf(a[0]), a[1]) }
	I["strings.Count"] = native(func(a []V) V { return V{I: int64(strings.Count(cs(a[0]), cs(a[1])))} })
	I["strings.Clone"] = func(in *In, fn *CFn, a []V) V { return a[0] }
	I["internal/stringslite.Clone"] = I["strings.Clone"]
	I["internal/stringslite.Index"] = I["strings.Index"]
	I["internal/stringslite.IndexByte"] = I["strings.IndexByte"]
	I["bytes.Equal"] = func(in *In, fn *CFn, a []V) V { return in.strEq(bytesToStr(slArgs(a[0])), bytesToStr(slArgs(a[1]))) }
	I["internal/bytealg.IndexByteString"] = I["strings.IndexByte"]
	I["internal/bytealg.IndexByte"] = func(in *In, fn *CFn, a []V) V { return in.indexByte(slArgs(a[0]), a[1]) }
	I["bytes.IndexByte"] = I["internal/bytealg.IndexByte"]
	I["internal/bytealg.LastIndexByte"] = func(in *In, fn *CFn, a []V) V { return in.lastIndexByte(slArgs(a[0]), a[1]) }
	I["internal/bytealg.LastIndexByteString"] = func(in *In, fn *CFn, a []V) V { return in.lastIndexByte(in.bytesOf(a[0]), a[1]) }
	cnt := func(in *In, b []V, c V) V {
		n := int64(0)
		for _, x := range b {
			if in.truth(boolT(in.tt.Eq(lift(in.tt, x, 8), lift(in.tt, c, 8)))) {
				n++
			}
		}
		return V{I: n}
	}
	I["internal/bytealg.CountString"] = func(in *In, fn *CFn, a []V) V { return cnt(in, in.bytesOf(a[0]), a[1]) }
	I["internal/bytealg.Count"] = func(in *In, fn *CFn, a []V) V { return cnt(in, slArgs(a[0]), a[1]) }
	I["internal/bytealg.IndexString"] = I["strings.Index"]
	I["internal/bytealg.Index"] = func(in *In, fn *CFn, a []V) V { return in.indexStr(slArgs(a[0]), slArgs(a[1])) }
	I["bytes.Index"] = I["internal/bytealg.Index"]
	I["internal/bytealg.Equal"] = I["bytes.Equal"]
	cmp := func(in *In, x, y V) V {
		if in.truth(in.strEq(x, y)) {
			return V{}
		}
		if in.truth(in.strLess(x, y)) {
			return V{I: -1}
		}
		return V{I: 1}
	}
	I["internal/bytealg.Compare"] = func(in *In, fn *CFn, a []V) V { return cmp(in, bytesToStr(slArgs(a[0])), bytesToStr(slArgs(a[1]))) }
	I["internal/bytealg.CompareString"] = func(in *In, fn *CFn, a []V) V { return cmp(in, a[0], a[1]) }
	I["strings.Compare"] = I["internal/bytealg.CompareString"]
	I["internal/bytealg.MakeNoZero"] = func(in *In, fn *CFn, a []V) V {
		n := in.concInt(a[0], i64k)
		if n < 0 || n > maxSliceLen {
			panic(pathCut{"huge buffer", "suspect"})
		}
		return V{P: &Sl{make([]V, n, growCap(0, int(n), 1, true))}}
	}
	I["strings.SplitSeq"] = nil
	delete(I, "strings.SplitSeq")

	// --- strconv
	I["strconv.Itoa"] = func(in *In, fn *CFn, a []V) V {
		if t, ok := a[0].P.(*Term); ok {
			return ropeV([]Seg{{kind: 2, t: t}})
		}
		return strV(strconv.Itoa(int(a[0].I)))
	}
	I["strconv.FormatInt"] = func(in *In, fn *CFn, a []V) V {
		if a[1].P == nil {
			if t, ok := a[0].P.(*Term); ok && a[1].I == 10 {
				return ropeV([]Seg{{kind: 2, t: t}})
			} else if !ok {
				return strV(strconv.FormatInt(a[0].I, int(a[1].I)))
			}
		}
		return raw(in, fn, a)
	}
	I["strconv.AppendInt"] = func(in *In, fn *CFn, a []V) V {
		if a[2].P == nil && a[2].I == 10 {
			var b []V
			if t, ok := a[1].P.(*Term); ok {
				b = in.decDigits(t)
			} else {
				b = in.bytesOf(strV(strconv.FormatInt(a[1].I, 10)))
			}
			base := slArgs(a[0])
			return V{P: &Sl{in.appendV(base, b, 1, false, func() V { return V{} })}}
		}
		return raw(in, fn, a)
	}
	oneDec := func(v V) *Term {
		if r, ok := v.P.(*Rope); ok && len(r.segs) == 1 && r.segs[0].kind == 2 {
			return r.segs[0].t
		}
		return nil
	}
	I["strconv.Atoi"] = func(in *In, fn *CFn, a []V) V {
		if t := oneDec(a[0]); t != nil && t.w == 64 {
			return agg(V{P: t}, V{})
		}
		return in.atoi(a[0], func() V { return raw(in, fn, a) })
	}
	I["strconv.ParseInt"] = func(in *In, fn *CFn, a []V) V {
		if t := oneDec(a[0]); t != nil && t.w == 64 && a[1].P == nil && a[1].I == 10 && a[2].P == nil && (a[2].I == 64 || a[2].I == 0) {
			return agg(V{P: t}, V{})
		}
		if a[1].P == nil && a[1].I == 10 && a[2].P == nil && (a[2].I == 64 || a[2].I == 0) {
			return in.atoi(a[0], func() V { return raw(in, fn, a) })
		}
		return raw(in, fn, a)
	}
	I["strconv.AppendQuote"] = func(in *In, fn *CFn, a []V) V {
		if b, ok := concBytes(a[0]); ok {
			if s, ok := concStr(a[1]); ok {
				return V{P: &Sl{in.bytesOf(strV(string(strconv.AppendQuote(b, s))))}}
			}
		}
		return raw(in, fn, a)
	}
	I["strconv.Quote"] = native(func(a []V) V { return strV(strconv.Quote(cs(a[0]))) })

	// --- unicode
	I["unicode/utf8.DecodeRune"] = func(in *In, fn *CFn, a []V) V {
		b := slArgs(a[0])
		if len(b) == 0 {
			return agg(V{I: utf8.RuneError}, V{})
		}
		r, n := in.decodeRune(b)
		return agg(r, V{I: int64(n)})
	}
	I["unicode/utf8.DecodeRuneInString"] = func(in *In, fn *CFn, a []V) V {
		b := in.bytesOf(a[0])
		if len(b) == 0 {
			return agg(V{I: utf8.RuneError}, V{})
		}
		r, n := in.decodeRune(b)
		return agg(r, V{I: int64(n)})
	}
	runePred("IsSpace", unicode.IsSpace)
	runePred("IsDigit", unicode.IsDigit)
	runePred("IsNumber", unicode.IsNumber)
	runePred("IsLetter", unicode.IsLetter)
	runePred("IsUpper", unicode.IsUpper)
	runePred("IsLower", unicode.IsLower)
	runePred("IsPunct", unicode.IsPunct)
	runePred("IsControl", unicode.IsControl)
	runePred("IsPrint", unicode.IsPrint)
	runePred("IsGraphic", unicode.IsGraphic)
	runePred("IsSymbol", unicode.IsSymbol)
	I["strconv.IsPrint"] = func(in *In, fn *CFn, a []V) V {
		if a[0].P == nil {
			return boolV(strconv.IsPrint(rune(a[0].I)))
		}
		return raw(in, fn, a)
	}
	runeMap("ToLower", unicode.ToLower)
	runeMap("ToUpper", unicode.ToUpper)
	I["unicode.SimpleFold"] = func(in *In, fn *CFn, a []V) V {
		if a[0].P == nil {
			return V{I: int64(unicode.SimpleFold(rune(a[0].I)))}
		}
		return raw(in, fn, a)
	}
	I["unicode.Is"] = func(in *In, fn *CFn, a []V) V {
		t, ok := a[1].P.(*Term)
		if !ok || a[0].P == nil {
			return raw(in, fn, a)
		}
		tab := a[0].P.(*V).P.(*Agg)
		tt := in.tt
		r := tt.False
		for k := 0; k < 2; k++ {
			for _, e := range slArgs(tab.f[k]) {
				f := e.P.(*Agg).f
				lo, hi, st := f[0].I, f[1].I, f[2].I
				if t.hi < lo || t.lo > hi {
					continue
				}
				c := in.inRanges(t, []rng{{lo, hi}})
				if st != 1 && lo != hi {
					c = tt.And(c, tt.Eq(tt.Bin(OURem, tt.Bin(OSub, t, tt.Const(uint64(lo), t.w)), tt.Const(uint64(st), t.w)), tt.Const(0, t.w)))
				}
				r = tt.Or(r, c)
			}
		}
		return boolT(r)
	}

	// --- math
	I["math.Floor"] = fpUn(math.Floor, OFRound, 2)
	I["math.Ceil"] = fpUn(math.Ceil, OFRound, 1)
	I["math.Trunc"] = fpUn(math.Trunc, OFRound, 3)
	I["math.Round"] = fpUn(math.Round, OFRound, 0)
	I["math.RoundToEven"] = fpUn(math.RoundToEven, OFRound, 4)
	I["math.Abs"] = fpUn(math.Abs, OFAbs, 0)
	I["math.Float64bits"] = func(in *In, fn *CFn, a []V) V {
		if t, ok := a[0].P.(*Term); ok {
			return V{P: t}
		}
		return a[0]
	}
	I["math.Float64frombits"] = I["math.Float64bits"]
	I["math.Pow10"] = func(in *In, fn *CFn, a []V) V { return flV(math.Pow10(int(in.concInt(a[0], i64k)))) }
	I["math.Pow"] = func(in *In, fn *CFn, a []V) V {
		if a[0].P == nil && a[1].P == nil {
			return flV(math.Pow(fl(a[0]), fl(a[1])))
		}
		panic(pathCut{"math.Pow on symbolic values", "unsupported"})
	}
	I["math.Mod"] = func(in *In, fn *CFn, a []V) V {
		if a[0].P == nil && a[1].P == nil {
			return flV(math.Mod(fl(a[0]), fl(a[1])))
		}
		panic(pathCut{"math.Mod on symbolic values", "unsupported"})
	}
	I["math/bits.TrailingZeros64"] = native(func(a []V) V { return V{I: int64(bits.TrailingZeros64(uint64(a[0].I)))} })
	I["math/bits.Len64"] = native(func(a []V) V { return V{I: int64(bits.Len64(uint64(a[0].I)))} })
	I["math/bits.Len32"] = native(func(a []V) V { return V{I: int64(bits.Len32(uint32(a[0].I)))} })
	I["math/bits.Len"] = native(func(a []V) V { return V{I: int64(bits.Len(uint(a[0].I)))} })

	// --- sync
	nop := func(in *In, fn *CFn, a []V) V { return V{} }
	for _, n := range []string{"(*sync.Mutex).", "(*sync.RWMutex).", "(*internal/sync.Mutex)."} {
		I[n+"Lock"] = func(in *In, fn *CFn, a []V) V { in.lock(1); return V{} }
		I[n+"Unlock"] = func(in *In, fn *CFn, a []V) V { in.lock(-1); return V{} }
		I[n+"TryLock"] = func(in *In, fn *CFn, a []V) V { in.lock(1); return V{I: 1} }
		I[n+"RLock"] = nop
		I[n+"RUnlock"] = nop
	}
	I["(*sync.Once).Do"] = func(in *In, fn *CFn, a []V) V {
		cell := a[0].P.(*V)
		ag := cell.P.(*Agg)
		c := &ag.f[len(ag.f)-1]
		// the last field is the mutex; a native marker in it records that the function ran
		if c.P != nil {
			if _, ok := c.P.(onceDone); ok {
				return V{}
			}
		}
		in.lockDepth++
		in.log(c)
		*c = V{P: onceDone{}}
		cl, _ := a[1].P.(*Closure)
		if cl == nil {
			in.nilDeref()
		}
		in.callClosure(cl, nil)
		in.lockDepth--
		return V{}
	}
	I["(*sync.Pool).Get"] = func(in *In, fn *CFn, a []V) V {
		cell := a[0].P.(*V)
		ag := cell.P.(*Agg)
		c := &ag.f[1]
		if s, ok := c.P.(*Sl); ok && len(s.a) > 0 {
			v := s.a[len(s.a)-1]
			in.lockDepth++
			in.log(c)
			in.lockDepth--
			*c = V{P: &Sl{append([]V(nil), s.a[:len(s.a)-1]...)}}
			return v
		}
		nf, _ := ag.f[len(ag.f)-1].P.(*Closure)
		if nf == nil {
			return V{}
		}
		return in.callClosure(nf, nil)
	}
	I["(*sync.Pool).Put"] = func(in *In, fn *CFn, a []V) V {
		cell := a[0].P.(*V)
		ag := cell.P.(*Agg)
		c := &ag.f[1]
		var old []V
		if s, ok := c.P.(*Sl); ok {
			old = s.a
		}
		n := append(append([]V(nil), old...), a[1])
		in.lockDepth++
		in.log(c)
		in.lockDepth--
		*c = V{P: &Sl{n}}
		return V{}
	}
	I["(*sync.WaitGroup).Add"] = nop
	I["(*sync.WaitGroup).Done"] = nop
	I["(*sync.WaitGroup).Wait"] = nop
	atomics()
	syncMap()

	// --- time
	I["time.Now"] = func(in *In, fn *CFn, a []V) V {
		t := in.P.namedType("time", "Time")
		v := zeroOf(t)
		if in.path != nil && in.initDep == 0 {
			v.P.(*Agg).f[1] = V{P: in.newInput("clock", 64, math.MinInt64, math.MaxInt64)}
		}
		return v
	}
	for _, n := range []string{"UnixNano", "Unix", "UnixMilli", "UnixMicro"} {
		I["(time.Time)."+n] = func(in *In, fn *CFn, a []V) V {
			f := a[0].P.(*Agg).f[1]
			return f
		}
	}

	// --- sort
	sortSl := func(in *In, s V, less func(i, j int) bool) {
		x := slArgs(s)
		for i := 1; i < len(x); i++ {
			for j := i; j > 0 && less(j, j-1); j-- {
				in.log(&x[j])
				in.log(&x[j-1])
				x[j], x[j-1] = x[j-1], x[j]
			}
		}
	}
	slice := func(in *In, fn *CFn, a []V) V {
		ifc, _ := a[0].P.(*Iface)
		cl := a[1].P.(*Closure)
		if ifc == nil {
			return V{}
		}
		sortSl(in, ifc.v, func(i, j int) bool {
			return in.truth(in.callClosure(cl, []V{{I: int64(i)}, {I: int64(j)}}))
		})
		return V{}
	}
	I["sort.Slice"] = slice
	I["sort.SliceStable"] = slice
	I["sort.Strings"] = func(in *In, fn *CFn, a []V) V {
		x := slArgs(a[0])
		if allConc(x) {
			for i := range x {
				in.log(&x[i])
			}
			sort.SliceStable(x, func(i, j int) bool { return cs(x[i]) < cs(x[j]) })
			return V{}
		}
		sortSl(in, a[0], func(i, j int) bool { return in.truth(in.strLess(x[i], x[j])) })
		return V{}
	}
	I["sort.Ints"] = func(in *In, fn *CFn, a []V) V {
		x := slArgs(a[0])
		sortSl(in, a[0], func(i, j int) bool {
			return in.truth(boolT(in.tt.Slt(lift(in.tt, x[i], 64), lift(in.tt, x[j], 64))))
		})
		return V{}
	}

	// --- regexp: match one rune against an instruction without forking per range
	I["(*regexp/syntax.Inst).MatchRunePos"] = func(in *In, fn *CFn, a []V) V {
		t, ok := a[1].P.(*Term)
		if !ok {
			return raw(in, fn, a)
		}
		ag := a[0].P.(*V).P.(*Agg)
		rs := slArgs(ag.f[3])
		arg := ag.f[2].I
		tt := in.tt
		if len(rs) == 1 {
			r0 := rs[0].I
			c := tt.Eq(t, tt.Const(uint64(r0), t.w))
			if arg&1 != 0 { // FoldCase
				for r1 := unicode.SimpleFold(rune(r0)); r1 != rune(r0); r1 = unicode.SimpleFold(r1) {
					c = tt.Or(c, tt.Eq(t, tt.Const(uint64(r1), t.w)))
				}
			}
			return unlift(tt.Ite(c, tt.Const(0, 64), tt.Const(^uint64(0), 64)), true)
		}
		r := tt.Const(^uint64(0), 64)
		for i := len(rs)/2 - 1; i >= 0; i-- {
			c := in.inRanges(t, []rng{{rs[2*i].I, rs[2*i+1].I}})
			r = tt.Ite(c, tt.Const(uint64(i), 64), r)
		}
		return unlift(r, true)
	}

	// --- reflect
	I["reflect.ValueOf"] = func(in *In, fn *CFn, a []V) V {
		ifc, _ := a[0].P.(*Iface)
		if ifc == nil {
			return agg(V{}, V{}, V{})
		}
		return in.mkReflV(ifc.t, ifc.v, nil)
	}
	elem := func(in *In, r *reflV) V {
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			p, _ := r.v.P.(*V)
			if p == nil {
				return agg(V{}, V{}, V{})
			}
			return in.mkReflV(in.P.canon(u.Elem()), *p, p)
		case *types.Interface:
			ifc, _ := r.v.P.(*Iface)
			if ifc == nil {
				return agg(V{}, V{}, V{})
			}
			return in.mkReflV(ifc.t, ifc.v, nil)
		}
		panic(targetPanic{in.mkErr(strV("reflect: call of reflect.Value.Elem"))})
	}
	I["(reflect.Value).Elem"] = func(in *In, fn *CFn, a []V) V { return elem(in, in.getRV(a[0])) }
	I["reflect.Indirect"] = func(in *In, fn *CFn, a []V) V {
		r := in.getRV(a[0])
		if _, ok := r.t.Underlying().(*types.Pointer); !ok {
			return a[0]
		}
		return elem(in, r)
	}
	I["(reflect.Value).Interface"] = func(in *In, fn *CFn, a []V) V {
		r := in.getRV(a[0])
		if types.IsInterface(r.t) {
			return r.v
		}
		return V{P: &Iface{r.t, copyV(r.v)}}
	}
	I["(reflect.Value).Kind"] = func(in *In, fn *CFn, a []V) V {
		if a[0].P.(*Agg).f[1].P == nil {
			return V{}
		}
		return V{I: reflKind(in.getRV(a[0]).t)}
	}
	I["(reflect.Value).IsValid"] = func(in *In, fn *CFn, a []V) V { return boolV(a[0].P.(*Agg).f[1].P != nil) }
	I["(reflect.Value).IsNil"] = func(in *In, fn *CFn, a []V) V { return boolV(in.getRV(a[0]).v.P == nil) }
	I["(reflect.Value).Type"] = func(in *In, fn *CFn, a []V) V { return in.mkReflT(in.getRV(a[0]).t) }
	I["(reflect.Value).Set"] = func(in *In, fn *CFn, a []V) V {
		d, s := in.getRV(a[0]), in.getRV(a[1])
		if d.addr == nil {
			panic(targetPanic{in.mkErr(strV("reflect: unaddressable value"))})
		}
		in.store(d.addr, copyV(s.v))
		return V{}
	}
	I["(reflect.Value).Addr"] = func(in *In, fn *CFn, a []V) V {
		d := in.getRV(a[0])
		return in.mkReflV(in.P.canon(types.NewPointer(d.t)), V{P: d.addr}, nil)
	}
	I["(reflect.Value).NumField"] = func(in *In, fn *CFn, a []V) V {
		return V{I: int64(in.getRV(a[0]).t.Underlying().(*types.Struct).NumFields())}
	}
	I["(reflect.Value).Field"] = func(in *In, fn *CFn, a []V) V {
		r := in.getRV(a[0])
		i := int(in.concInt(a[1], i64k))
		ft := in.P.canon(r.t.Underlying().(*types.Struct).Field(i).Type())
		f := &r.v.P.(*Agg).f[i]
		if r.addr == nil {
			return in.mkReflV(ft, *f, nil)
		}
		return in.mkReflV(ft, *f, f)
	}
	I["reflect.New"] = func(in *In, fn *CFn, a []V) V {
		t := in.reflTypeOf(a[0])
		c := new(V)
		*c = zeroOf(t)
		return in.mkReflV(in.P.canon(types.NewPointer(t)), V{P: c}, nil)
	}
	I["reflect.TypeOf"] = func(in *In, fn *CFn, a []V) V {
		ifc, _ := a[0].P.(*Iface)
		if ifc == nil {
			return V{}
		}
		return in.mkReflT(ifc.t)
	}
	I["(*reflect.rtype).Elem"] = func(in *In, fn *CFn, a []V) V {
		switch u := in.reflTypeOf(a[0]).Underlying().(type) {
		case *types.Pointer:
			return in.mkReflT(in.P.canon(u.Elem()))
		case *types.Slice:
			return in.mkReflT(in.P.canon(u.Elem()))
		}
		panic(pathCut{"reflect Elem", "unsupported"})
	}
	I["(*reflect.rtype).Kind"] = func(in *In, fn *CFn, a []V) V { return V{I: reflKind(in.reflTypeOf(a[0]))} }
	I["(*reflect.rtype).String"] = func(in *In, fn *CFn, a []V) V { return strV(typeText(in.reflTypeOf(a[0]))) }
	I["(*reflect.rtype).Name"] = func(in *In, fn *CFn, a []V) V {
		if n, ok := in.reflTypeOf(a[0]).(*types.Named); ok {
			return strV(n.Obj().Name())
		}
		return V{}
	}
	I["reflect.DeepEqual"] = func(in *In, fn *CFn, a []V) V {
		x, _ := a[0].P.(*Iface)
		y, _ := a[1].P.(*Iface)
		if x == nil || y == nil {
			return boolV(x == nil && y == nil)
		}
		if x.t != y.t {
			return V{}
		}
		return boolT(in.deepEq(x.t, x.v, y.v, 0))
	}

	I["internal/reflectlite.TypeOf"] = func(in *In, fn *CFn, a []V) V {
		ifc, _ := a[0].P.(*Iface)
		if ifc == nil {
			return V{}
		}
		rt := in.P.namedType("internal/reflectlite", "rtype")
		return V{P: &Iface{rt, V{P: &reflT{ifc.t}}}}
	}
	I["(internal/reflectlite.rtype).Elem"] = func(in *In, fn *CFn, a []V) V {
		if p, ok := in.reflTypeOf(a[0]).Underlying().(*types.Pointer); ok {
			rt := in.P.namedType("internal/reflectlite", "rtype")
			return V{P: &Iface{rt, V{P: &reflT{in.P.canon(p.Elem())}}}}
		}
		panic(pathCut{"reflectlite Elem", "unsupported"})
	}
	// --- runtime
	I["runtime.GC"] = nop
	I["runtime.Gosched"] = nop
	I["runtime.KeepAlive"] = nop
	I["runtime.SetFinalizer"] = nop
	I["os.Exit"] = func(in *In, fn *CFn, a []V) V { panic(pathCut{"os.Exit", "unsupported"}) }
	I["errors.Is"] = func(in *In, fn *CFn, a []V) V {
		if a[0].P == nil || a[1].P == nil {
			return boolV(a[0].P == nil && a[1].P == nil)
		}
		et := types.Universe.Lookup("error").Type()
		for x, n := a[0], 0; n < 20; n++ {
			if in.truth(in.eq(et, x, a[1])) {
				return V{I: 1}
			}
			m := in.P.methodNamed(x.P.(*Iface).t, "Unwrap")
			if m == nil {
				return V{}
			}
			x = in.call(m, []V{x.P.(*Iface).v}, nil)
			if x.P == nil {
				return V{}
			}
		}
		return V{}
	}
	vfAPI()
}

type onceDone struct{}

func native2(f func(a []V) V) intrinsic { return native(f) }

// syncMap models sync.Map by a plain map kept in the last field of the value.
func syncMap() {
	I := intrinsics
	anyT := types.Universe.Lookup("any").Type()
	of := func(in *In, a []V) *Map {
		p, ok := a[0].P.(*V)
		if !ok {
			in.nilDeref()
		}
		ag := p.P.(*Agg)
		c := &ag.f[len(ag.f)-1]
		if m, ok := c.P.(*Map); ok {
			return m
		}
		m := &Map{idx: map[any]int{}}
		in.lockDepth++
		in.log(c)
		in.lockDepth--
		*c = V{P: m}
		return m
	}
	op := func(name string, f func(in *In, m *Map, a []V) V) {
		I["(*sync.Map)."+name] = func(in *In, fn *CFn, a []V) V {
			in.lockDepth++
			defer func() { in.lockDepth-- }()
			return f(in, of(in, a), a)
		}
	}
	get := func(in *In, m *Map, k V) (V, bool) {
		if e := in.mapGet(m, anyT, k); e != nil {
			return e.v, true
		}
		return V{}, false
	}
	op("Load", func(in *In, m *Map, a []V) V {
		v, ok := get(in, m, a[1])
		return agg(v, boolV(ok))
	})
	op("Store", func(in *In, m *Map, a []V) V { in.mapSet(m, anyT, a[1], a[2]); return V{} })
	op("LoadOrStore", func(in *In, m *Map, a []V) V {
		if v, ok := get(in, m, a[1]); ok {
			return agg(v, boolV(true))
		}
		in.mapSet(m, anyT, a[1], a[2])
		return agg(a[2], boolV(false))
	})
	op("Swap", func(in *In, m *Map, a []V) V {
		v, ok := get(in, m, a[1])
		in.mapSet(m, anyT, a[1], a[2])
		return agg(v, boolV(ok))
	})
	op("LoadAndDelete", func(in *In, m *Map, a []V) V {
		v, ok := get(in, m, a[1])
		in.mapDelete(m, anyT, a[1])
		return agg(v, boolV(ok))
	})
	op("Delete", func(in *In, m *Map, a []V) V { in.mapDelete(m, anyT, a[1]); return V{} })
	op("CompareAndSwap", func(in *In, m *Map, a []V) V {
		v, ok := get(in, m, a[1])
		if !ok || !in.truth(in.eq(anyT, v, a[2])) {
			return boolV(false)
		}
		in.mapSet(m, anyT, a[1], a[3])
		return boolV(true)
	})
	op("CompareAndDelete", func(in *In, m *Map, a []V) V {
		v, ok := get(in, m, a[1])
		if !ok || !in.truth(in.eq(anyT, v, a[2])) {
			return boolV(false)
		}
		in.mapDelete(m, anyT, a[1])
		return boolV(true)
	})
	op("Clear", func(in *In, m *Map, a []V) V { in.mapClear(m); return V{} })
	I["(*sync.Map).Range"] = func(in *In, fn *CFn, a []V) V {
		m := of(in, a)
		cl, _ := a[1].P.(*Closure)
		if cl == nil {
			in.nilDeref()
		}
		for i := 0; i < len(m.ents); i++ {
			if e := m.ents[i]; e.live && !in.truth(in.callClosure(cl, []V{e.k, e.v})) {
				break
			}
		}
		return V{}
	}
}

func atomics() {
	I := intrinsics
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		signed := strings.HasPrefix(n, "Int")
		w := uint8(64)
		if strings.HasSuffix(n, "32") {
			w = 32
		}
		ik := ikind{w, signed}
		I["sync/atomic.Load"+n] = func(in *In, fn *CFn, a []V) V { return *a[0].P.(*V) }
		st := func(in *In, c *V, v V) { in.lockDepth++; in.log(c); in.lockDepth--; *c = v }
		I["sync/atomic.Store"+n] = func(in *In, fn *CFn, a []V) V { st(in, a[0].P.(*V), a[1]); return V{} }
		I["sync/atomic.Swap"+n] = func(in *In, fn *CFn, a []V) V { o := *a[0].P.(*V); st(in, a[0].P.(*V), a[1]); return o }
		I["sync/atomic.Add"+n] = func(in *In, fn *CFn, a []V) V {
			c := a[0].P.(*V)
			r := unlift(in.tt.Bin(OAdd, lift(in.tt, *c, w), lift(in.tt, a[1], w)), signed)
			st(in, c, r)
			return r
		}
		I["sync/atomic.CompareAndSwap"+n] = func(in *In, fn *CFn, a []V) V {
			c := a[0].P.(*V)
			same := c.P == a[1].P && c.I == a[1].I
			if isSym(*c) || isSym(a[1]) {
				same = in.branch(in.tt.Eq(lift(in.tt, *c, ik.w), lift(in.tt, a[1], ik.w)))
			}
			if same {
				st(in, c, a[2])
			}
			return boolV(same)
		}
	}
	I["(*sync/atomic.Value).Load"] = func(in *In, fn *CFn, a []V) V { return a[0].P.(*V).P.(*Agg).f[0] }
	I["(*sync/atomic.Value).Store"] = func(in *In, fn *CFn, a []V) V {
		c := &a[0].P.(*V).P.(*Agg).f[0]
		in.lockDepth++
		in.log(c)
		in.lockDepth--
		*c = a[1]
		return V{}
	}
}

// stdout receives what the code prints; harnesses that care read it with vf.Stdout.
func (in *In) stdout(s V) {
	if in.path == nil {
		return
	}
	in.path.stdout = concatV(in.path.stdout, s)
}

// checkFrozen records a write to a location that must not be written.
func (in *In) checkFrozen(p any) {
	if in.lockDepth > 0 {
		return
	}
	if n, ok := in.frozen[p]; ok && in.frozenBad == "" {
		in.frozenBad = n + " written by" + in.where()
	}
}

// freeze marks everything reachable from the package-level variables of the module.
func (in *In) freeze() {
	in.frozen = map[any]string{}
	for i, g := range in.P.globs {
		path := g.Pkg.Pkg.Path()
		if !strings.HasPrefix(path, in.P.repoMod) || strings.HasPrefix(path, in.P.repoMod+"/zz_verif") {
			continue
		}
		if in.globals[i] == nil {
			continue
		}
		in.freezeV(in.globals[i], g.Type().Underlying().(*types.Pointer).Elem(), path+"."+g.Name(), 0)
	}
}

func (in *In) freezeV(p *V, t types.Type, name string, depth int) {
	if depth > 200 {
		return
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic", "regexp":
			return
		}
	}
	if _, ok := in.frozen[p]; ok {
		return
	}
	in.frozen[p] = name
	switch u := t.Underlying().(type) {
	case *types.Struct:
		ag, ok := p.P.(*Agg)
		if !ok {
			return
		}
		for i := range ag.f {
			in.freezeV(&ag.f[i], u.Field(i).Type(), name+"."+u.Field(i).Name(), depth+1)
		}
	case *types.Array:
		ag, ok := p.P.(*Agg)
		if !ok {
			return
		}
		for i := range ag.f {
			in.freezeV(&ag.f[i], u.Elem(), name+"[]", depth+1)
		}
	case *types.Slice:
		if s, ok := p.P.(*Sl); ok {
			full := s.a[:cap(s.a)]
			for i := range full {
				in.freezeV(&full[i], u.Elem(), name+"[]", depth+1)
			}
		}
	case *types.Pointer:
		if q, ok := p.P.(*V); ok {
			in.freezeV(q, u.Elem(), "*"+name, depth+1)
		}
	case *types.Interface:
		if i, ok := p.P.(*Iface); ok {
			c := new(V)
			*c = i.v
			in.freezeV(c, i.t, name, depth+1)
		}
	case *types.Map:
		if m, ok := p.P.(*Map); ok {
			if _, ok := in.frozen[m]; ok {
				return
			}
			in.frozen[m] = name
			for i := range m.ents {
				in.freezeV(&m.ents[i].v, u.Elem(), name+"[]", depth+1)
			}
		}
	}
}

func (in *In) name(v V) string { return in.str(v) }

func vfAPI() {
	I := intrinsics
	I[kVF+"Int"] = func(in *In, fn *CFn, a []V) V {
		lo, hi := in.concInt(a[1], i64k), in.concInt(a[2], i64k)
		if lo == hi {
			return V{I: lo}
		}
		if lo > hi {
			panic(pathCut{"empty range", "assume"})
		}
		return V{P: in.newInput(in.name(a[0]), 64, lo, hi)}
	}
	I[kVF+"IntT"] = func(in *In, fn *CFn, a []V) V {
		// bounds may be symbolic
		if !isSym(a[1]) && !isSym(a[2]) && a[1].I <= a[2].I {
			t := in.newInput(in.name(a[0]), 64, a[1].I, a[2].I)
			if a[1].I == a[2].I {
				return V{I: a[1].I}
			}
			return V{P: t}
		}
		t := in.newInput(in.name(a[0]), 64, math.MinInt64, math.MaxInt64)
		tt := in.tt
		in.assume(boolT(tt.And(tt.Sle(lift(tt, a[1], 64), t), tt.Sle(t, lift(tt, a[2], 64)))))
		return V{P: t}
	}
	I[kVF+"Byte"] = func(in *In, fn *CFn, a []V) V {
		t := in.newInput(in.name(a[0]), 8, -128, 127)
		lo, hi := in.concInt(a[1], i64k), in.concInt(a[2], i64k)
		tt := in.tt
		in.assume(boolT(tt.And(tt.Ule(tt.Const(uint64(lo), 8), t), tt.Ule(t, tt.Const(uint64(hi), 8)))))
		return V{P: t}
	}
	I[kVF+"Bool"] = func(in *In, fn *CFn, a []V) V { return V{P: in.newInput(in.name(a[0]), 0, 0, 1)} }
	I[kVF+"Choose"] = func(in *In, fn *CFn, a []V) V {
		n := in.concInt(a[1], i64k)
		if n <= 1 {
			return V{}
		}
		t := in.newInput(in.name(a[0]), 64, 0, n-1)
		return V{I: in.concretize(t, true)}
	}
	I[kVF+"Split"] = func(in *In, fn *CFn, a []V) V { return V{I: in.concInt(a[0], i64k)} }
	I[kVF+"Str"] = func(in *In, fn *CFn, a []V) V {
		name := in.name(a[0])
		n := in.concInt(a[1], i64k)
		alpha := in.str(a[2])
		tt := in.tt
		b := make([]V, n)
		var set [256]bool
		for i := range len(alpha) {
			set[alpha[i]] = true
		}
		for i := range b {
			t := in.newInput(name, 8, -128, 127)
			if alpha != "" {
				c := tt.False
				for x := 0; x < 256; x++ {
					if set[x] {
						y := x
						for y < 255 && set[y+1] {
							y++
						}
						if x == y {
							c = tt.Or(c, tt.Eq(t, tt.Const(uint64(x), 8)))
						} else {
							c = tt.Or(c, tt.And(tt.Ule(tt.Const(uint64(x), 8), t), tt.Ule(t, tt.Const(uint64(y), 8))))
						}
						x = y
					}
				}
				in.assume(boolT(c))
			}
			b[i] = V{P: t}
		}
		return bytesToStr(b)
	}
	I[kVF+"Assume"] = func(in *In, fn *CFn, a []V) V { in.assume(a[0]); return V{} }
	I[kVF+"Assert"] = func(in *In, fn *CFn, a []V) V { in.assertion(a[0], in.str(a[1]), V{}, ""); return V{} }
	I[kVF+"AssertKnown"] = func(in *In, fn *CFn, a []V) V {
		in.assertion(a[0], in.str(a[1]), a[2], in.str(a[3]))
		return V{}
	}
	obs := func(k string) intrinsic {
		return func(in *In, fn *CFn, a []V) V {
			in.path.obs = append(in.path.obs, obsV{in.str(a[0]), a[1], k})
			return V{}
		}
	}
	I[kVF+"ObsS"] = obs("s")
	I[kVF+"ObsI"] = obs("i")
	I[kVF+"ObsB"] = obs("b")
	I[kVF+"Bound"] = func(in *In, fn *CFn, a []V) V {
		h := in.H
		v := a[1].I
		if h.tier == "thorough" {
			v = a[2].I
		}
		h.mu.Lock()
		h.bounds[in.str(a[0])] = v
		h.mu.Unlock()
		return V{I: v}
	}
	I[kVF+"Reach"] = func(in *In, fn *CFn, a []V) V {
		h := in.H
		if in.path.pos >= len(in.path.prefix) {
			h.mu.Lock()
			h.reach[in.str(a[0])]++
			h.mu.Unlock()
		}
		return V{}
	}
	I[kVF+"Symbolic"] = func(in *In, fn *CFn, a []V) V { return V{I: 1} }
	I[kVF+"And"] = func(in *In, fn *CFn, a []V) V { return boolT(in.tt.And(lift(in.tt, a[0], 0), lift(in.tt, a[1], 0))) }
	I[kVF+"Or"] = func(in *In, fn *CFn, a []V) V { return boolT(in.tt.Or(lift(in.tt, a[0], 0), lift(in.tt, a[1], 0))) }
	I[kVF+"Ite"] = func(in *In, fn *CFn, a []V) V {
		return unlift(in.tt.Ite(lift(in.tt, a[0], 0), lift(in.tt, a[1], 64), lift(in.tt, a[2], 64)), true)
	}
	I[kVF+"StrEq"] = func(in *In, fn *CFn, a []V) V { return in.strEq(a[0], a[1]) }
	I[kVF+"Same"] = func(in *In, fn *CFn, a []V) V {
		x, _ := a[0].P.(*Iface)
		y, _ := a[1].P.(*Iface)
		if x == nil || y == nil {
			return boolV(x == nil && y == nil)
		}
		if x.t != y.t {
			return V{}
		}
		return boolT(in.deepEq(x.t, x.v, y.v, 0))
	}
	I[kVF+"Freeze"] = func(in *In, fn *CFn, a []V) V { in.freeze(); return V{} }
	I[kVF+"FrozenWrite"] = func(in *In, fn *CFn, a []V) V { r := strV(in.frozenBad); in.frozen = nil; return r }
	I[kVF+"Stdout"] = func(in *In, fn *CFn, a []V) V { r := in.path.stdout; in.path.stdout = V{}; return r }
	I[kVF+"MaxSteps"] = func(in *In, fn *CFn, a []V) V { in.maxSteps = a[0].I; return V{} }
	I[kVF+"MaxSplit"] = func(in *In, fn *CFn, a []V) V { in.H.maxSplit = int(a[0].I); return V{} }
	I[kVF+"Debug"] = func(in *In, fn *CFn, a []V) V {
		if debugInit {
			fmt.Println("debug:", in.evalStr(a[0], in.path.model))
		}
		return V{}
	}
}
