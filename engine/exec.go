package main

import (
	"fmt"
	"go/types"
	"strconv"
	"sync/atomic"
)

type Frame struct {
	in        *In
	fn        *CFn
	regs      []V
	env       []V
	result    V
	next      int
	skipPhi   bool
	defers    []deferred
	panicking bool
	recovered bool
	panicV    targetPanic
	caller    *Frame
	deferOf   *Frame // frame whose deferred call this is
}

type jent struct {
	p    *V
	old  V
	undo func()
}

// In is one worker's interpreter.
type In struct {
	P         *Program
	tt        *TT
	sol       *Solver
	globals   []*V
	inited    []uint8
	journal   []jent
	logOn     bool
	initDep   int
	stack     []V
	sp        int
	argBuf    []V
	ap        int
	cur       *Frame
	depth     int
	steps     int64
	maxSteps  int64
	path      *Path
	H         *HarnessRun
	deferTgt  *Frame
	frozen    map[any]string
	frozenBad string
	reflT     map[string]types.Type
	nStep     int64
	curModel  map[string]uint64
	lockDepth int
	spec      int // depth of speculative execution
}

func newIn(P *Program) *In {
	tt := newTT()
	in := &In{P: P, tt: tt, sol: newSolver(tt), globals: make([]*V, len(P.globs)), inited: make([]uint8, len(P.pkgs))}
	in.stack = make([]V, 1<<18)
	in.argBuf = make([]V, 1<<16)
	return in
}

func (in *In) log(p *V) {
	if in.logOn && in.initDep == 0 {
		if in.frozen != nil {
			in.checkFrozen(p)
		}
		in.journal = append(in.journal, jent{p: p, old: *p})
	}
}

func (in *In) logUndo(f func()) {
	if in.logOn && in.initDep == 0 {
		in.journal = append(in.journal, jent{undo: f})
	}
}

func (in *In) store(p *V, v V) {
	if _, ok := v.P.(*Agg); ok {
		in.storeAgg(p, v)
		return
	}
	in.log(p)
	*p = v
}

func (in *In) storeAgg(p *V, v V) {
	src := v.P.(*Agg).f
	d, ok := p.P.(*Agg)
	if !ok || len(d.f) != len(src) {
		in.log(p)
		*p = copyV(v)
		return
	}
	for i := range src {
		if _, ok := src[i].P.(*Agg); ok {
			in.storeAgg(&d.f[i], src[i])
		} else {
			in.log(&d.f[i])
			d.f[i] = src[i]
		}
	}
}

func (in *In) rollback() {
	for i := len(in.journal) - 1; i >= 0; i-- {
		j := &in.journal[i]
		if j.undo != nil {
			j.undo()
		} else {
			*j.p = j.old
		}
		*j = jent{}
	}
	in.journal = in.journal[:0]
}

func (in *In) global(i int) *V {
	p := in.globals[i]
	if p == nil {
		g := in.P.globs[i]
		p = new(V)
		*p = zeroOf(g.Type().Underlying().(*types.Pointer).Elem())
		in.globals[i] = p
	}
	pk := in.P.pkgIdx[in.P.globs[i].Pkg]
	if in.inited[pk] == 0 {
		in.initPkg(pk)
	}
	return p
}

var skipInit = map[string]bool{"runtime": true, "syscall": true, "internal/cpu": true, "internal/poll": true, "internal/godebug": true,
	"runtime/debug": true, "internal/runtime/atomic": true, "internal/syscall/unix": true, "crypto/internal/sysrand": true}

func (in *In) initPkg(pk int) {
	if in.inited[pk] != 0 {
		return
	}
	in.inited[pk] = 1
	pkg := in.P.pkgs[pk]
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	f := pkg.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	in.initDep++
	saveSteps, saveCur, saveFro := in.steps, in.cur, in.frozen
	in.frozen = nil
	in.cur = nil
	sp, ap, depth := in.sp, in.ap, in.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				in.sp, in.ap, in.depth = sp, ap, depth
				if debugInit {
					fmt.Printf("init of %s incomplete: %v\n", pkg.Pkg.Path(), in.describe(r))
				}
			}
		}()
		in.steps = 0
		in.callRaw(in.P.cfn(f), nil, nil)
	}()
	in.initDep--
	in.steps, in.cur, in.frozen = saveSteps, saveCur, saveFro
	in.inited[pk] = 2
}

var debugInit bool

func (in *In) describe(r any) string {
	switch x := r.(type) {
	case targetPanic:
		return "panic: " + in.panicText(x.v)
	case pathCut:
		return x.kind + ": " + x.why
	case engineError:
		return "engine: " + x.msg
	}
	return fmt.Sprint(r)
}

// args reserves argument space; the callee copies it immediately.
func (in *In) args(n int) []V {
	if in.ap+n > len(in.argBuf) {
		return make([]V, n)
	}
	s := in.argBuf[in.ap : in.ap+n : in.ap+n]
	in.ap += n
	return s
}

func (in *In) call(fn *CFn, args []V, env []V) V {
	// intrinsic bodies and replacements
	if fn.intr != nil {
		return fn.intr(in, fn, args)
	}
	if fn.repl != nil {
		fn = fn.repl()
	}
	if fn.pkg >= 0 && in.inited[fn.pkg] == 0 {
		if fn.isInit {
			return V{} // dependency initialisation happens on demand
		}
		in.initPkg(fn.pkg)
	} else if fn.isInit {
		return V{}
	}
	return in.callRaw(fn, args, env)
}

func (in *In) callRaw(fn *CFn, args []V, env []V) V {
	fn.compile()
	if fn.err != "" {
		panic(pathCut{fn.name + ": " + fn.err, "unsupported"})
	}
	if in.depth > 6000 {
		panic(pathCut{"recursion too deep in " + fn.name, "suspect"})
	}
	if in.initDep == 0 && in.H != nil {
		in.H.noteFn(fn)
	}
	n := fn.nregs
	var regs []V
	sp := in.sp
	if sp+n <= len(in.stack) {
		regs = in.stack[sp : sp+n : sp+n]
		in.sp = sp + n
	} else {
		regs = make([]V, n)
	}
	copy(regs, args)
	fr := &Frame{in: in, fn: fn, regs: regs, env: env, caller: in.cur}
	if in.deferTgt != nil {
		fr.deferOf = in.deferTgt
		in.deferTgt = nil
	}
	in.cur = fr
	in.depth++
	if fn.hasDef {
		fr.runDef()
	} else {
		fr.run(0, -1)
	}
	in.depth--
	in.cur = fr.caller
	clear(regs)
	in.sp = sp
	return fr.result
}

func (fr *Frame) run(b, prev int) {
	in := fr.in
	var tmp [8]V
	for {
		blk := fr.fn.blocks[b]
		if len(blk.phis) > 0 {
			if fr.skipPhi {
				fr.skipPhi = false
			} else {
				pi := 0
				for i, p := range blk.preds {
					if p == prev {
						pi = i
						break
					}
				}
				if len(blk.phis) == 1 {
					p := &blk.phis[0]
					fr.regs[p.dst] = p.src[pi].get(fr)
				} else {
					t := tmp[:0]
					for i := range blk.phis {
						t = append(t, blk.phis[i].src[pi].get(fr))
					}
					for i := range blk.phis {
						fr.regs[blk.phis[i].dst] = t[i]
					}
				}
			}
		} else {
			fr.skipPhi = false
		}
		in.steps += blk.n
		if in.steps > in.maxSteps && in.initDep == 0 {
			panic(pathCut{"step limit in " + fr.fn.name, "suspect"})
		}
		if in.initDep == 0 && in.H != nil && atomic.LoadInt32(&in.H.hardStop) != 0 {
			panic(pathCut{"time limit", "suspect"})
		}
		if atomic.LoadInt32(&memoryStop) != 0 && in.initDep == 0 {
			panic(pathCut{"memory limit", "suspect"})
		}
		for _, f := range blk.code {
			f(fr)
		}
		if fr.next < 0 {
			return
		}
		prev = b
		b = fr.next
	}
}

// runDef runs a frame that has deferred calls.
func (fr *Frame) runDef() {
	in := fr.in
	sp, ap, depth := in.sp, in.ap, in.depth
	ok := func() (done bool) {
		defer func() {
			if done {
				return
			}
			r := recover()
			tp, is := r.(targetPanic)
			if !is {
				if re, isRe := r.(error); isRe {
					panic(engineError{fmt.Sprintf("internal: %v in %s", re, in.where())})
				}
				panic(r)
			}
			in.sp, in.ap, in.depth = sp, ap, depth
			in.cur = fr
			fr.panicking = true
			fr.panicV = tp
		}()
		fr.run(0, -1)
		return true
	}()
	if ok {
		return
	}
	fr.runDefers()
	if fr.panicking {
		panic(fr.panicV)
	}
	// recovered
	if fr.fn.recBlk >= 0 {
		fr.next = 0
		fr.skipPhi = false
		fr.run(fr.fn.recBlk, -1)
	} else {
		fr.result = zeroRes(fr.fn.fn.Signature.Results())
	}
}

func zeroRes(t *types.Tuple) V {
	switch t.Len() {
	case 0:
		return V{}
	case 1:
		return zeroOf(t.At(0).Type())
	}
	return zeroOf(t)
}

func (fr *Frame) runDefers() {
	in := fr.in
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		sp, ap, depth := in.sp, in.ap, in.depth
		func() {
			done := false
			defer func() {
				if done {
					return
				}
				r := recover()
				tp, is := r.(targetPanic)
				if !is {
					panic(r)
				}
				in.sp, in.ap, in.depth = sp, ap, depth
				in.cur = fr
				fr.panicking = true
				fr.panicV = tp
			}()
			in.deferTgt = fr
			d.run(in)
			in.deferTgt = nil
			done = true
		}()
		in.deferTgt = nil
	}
}

// doRecover implements recover() for the deferred function that is currently executing.
func (in *In) doRecover() V {
	fr := in.cur
	if fr == nil || fr.deferOf == nil {
		return V{}
	}
	t := fr.deferOf
	if !t.panicking {
		return V{}
	}
	t.panicking = false
	return t.panicV.v
}

func (in *In) where() string {
	s := ""
	for f, n := in.cur, 0; f != nil && n < 8; f, n = f.caller, n+1 {
		s += " < " + f.fn.name
	}
	return s
}

func (in *In) rtPanic(msg string) {
	panic(targetPanic{V{P: &Iface{in.P.rtErrT, strV(msg)}}})
}

func (in *In) nilDeref() { in.rtPanic("invalid memory address or nil pointer dereference") }

func (in *In) badPtr(v V) *V {
	if v.P == nil {
		in.nilDeref()
	}
	panic(pathCut{fmt.Sprintf("pointer to %T in %s", v.P, in.where()), "unsupported"})
}

func (in *In) panicText(v V) string {
	ifc, _ := v.P.(*Iface)
	if ifc == nil {
		return "nil"
	}
	if ifc.t == in.P.rtErrT {
		s, _ := concStr(ifc.v)
		return "runtime error: " + s
	}
	return ifc.t.String()
}

// concInt returns the concrete value of an integer, splitting cases when symbolic.
func (in *In) concInt(v V, k ikind) int64 {
	if v.P == nil {
		return v.I
	}
	return in.concretize(v.P.(*Term), k.signed)
}

func (in *In) truth(v V) bool {
	if t, ok := v.P.(*Term); ok {
		return in.branch(t)
	}
	return v.I != 0
}

// ---- maps

func (in *In) mapKey(t types.Type, v V) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := concStr(v)
			return s, ok
		}
		if v.P != nil {
			if _, ok := v.P.(*Term); ok {
				return nil, false
			}
			return v.P, true
		}
		if u.Info()&types.IsFloat != 0 {
			return fl(v), true
		}
		return v.I, true
	case *types.Interface:
		ifc, _ := v.P.(*Iface)
		if ifc == nil {
			return nil, true
		}
		if !types.Comparable(ifc.t) {
			in.rtPanic("hash of unhashable type " + ifc.t.String())
		}
		k, ok := in.mapKey(ifc.t, ifc.v)
		return [2]any{ifc.t, k}, ok
	case *types.Struct:
		s := ""
		var ptrs any
		for i, f := range v.P.(*Agg).f {
			k, ok := in.mapKey(u.Field(i).Type(), f)
			if !ok {
				return nil, false
			}
			switch k.(type) {
			case string, int64, float64:
				s += fmt.Sprintf("%v\x00", k)
			default:
				ptrs = [2]any{ptrs, k}
			}
		}
		return [2]any{s, ptrs}, true
	case *types.Array:
		s := ""
		var ptrs any
		for _, f := range v.P.(*Agg).f {
			k, ok := in.mapKey(u.Elem(), f)
			if !ok {
				return nil, false
			}
			switch k.(type) {
			case string, int64, float64:
				s += fmt.Sprintf("%v\x00", k)
			default:
				ptrs = [2]any{ptrs, k}
			}
		}
		return [2]any{s, ptrs}, true
	}
	return v.P, true
}

func (in *In) mapGet(m *Map, kt types.Type, k V) *ment {
	key, conc := in.mapKey(kt, k)
	if conc && !m.sym {
		if i, ok := m.idx[key]; ok {
			return &m.ents[i]
		}
		return nil
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.live && in.truth(in.eq(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *In) mapSet(m *Map, kt types.Type, k, v V) {
	if in.frozen != nil {
		in.checkFrozen(m)
	}
	if e := in.mapGet(m, kt, k); e != nil {
		old := e.v
		for i := range m.ents {
			if &m.ents[i] == e {
				in.logUndo(func() { m.ents[i].v = old })
			}
		}
		e.v = v
		return
	}
	key, conc := in.mapKey(kt, k)
	n := len(m.ents)
	oldSym := m.sym
	m.ents = append(m.ents, ment{copyV(k), v, true})
	m.n++
	if conc {
		m.idx[key] = n
	} else {
		m.sym = true
	}
	in.logUndo(func() {
		m.ents = m.ents[:n]
		m.n--
		if conc {
			delete(m.idx, key)
		}
		m.sym = oldSym
	})
}

func (in *In) mapDelete(m *Map, kt types.Type, k V) {
	if in.frozen != nil {
		in.checkFrozen(m)
	}
	e := in.mapGet(m, kt, k)
	if e == nil {
		return
	}
	ek, econc := in.mapKey(kt, e.k)
	pos := 0
	for i := range m.ents {
		if &m.ents[i] == e {
			pos = i
		}
	}
	e.live = false
	m.n--
	if econc {
		delete(m.idx, ek)
	}
	in.logUndo(func() {
		m.ents[pos].live = true
		m.n++
		if econc {
			m.idx[ek] = pos
		}
	})
}

func (in *In) mapClear(m *Map) {
	if in.frozen != nil {
		in.checkFrozen(m)
	}
	o := *m
	m.idx, m.ents, m.n, m.sym = map[any]int{}, nil, 0, false
	in.logUndo(func() { *m = o })
}

// nextRune decodes the next rune of a string range loop.
func (in *In) nextRune(it *RuneIter) V {
	b := in.bytesOf(it.s)
	if it.pos >= len(b) {
		return agg(V{}, V{}, V{})
	}
	p := it.pos
	r, n := in.decodeRune(b[p:])
	it.pos += n
	return agg(V{I: 1}, V{I: int64(p)}, r)
}

// decodeRune decodes one rune of b (non-empty), interpreting the library decoder on symbolic bytes.
func (in *In) decodeRune(b []V) (V, int) {
	if b[0].P == nil {
		if b[0].I < 0x80 {
			return V{I: b[0].I}, 1
		}
		// concrete prefix
		var buf []byte
		conc := true
		for i := 0; i < len(b) && i < 4; i++ {
			if b[i].P != nil {
				conc = false
				break
			}
			buf = append(buf, byte(b[i].I))
		}
		if conc {
			r, n := decodeRuneBytes(buf)
			return V{I: int64(r)}, n
		}
	} else {
		t := b[0].P.(*Term)
		if in.branch(in.tt.Ult(t, in.tt.Const(0x80, 8))) {
			return unlift(in.tt.Zext(t, 32), true), 1
		}
	}
	f := in.P.fnByName("unicode/utf8", "DecodeRune")
	if f == nil {
		panic(pathCut{"no utf8.DecodeRune", "unsupported"})
	}
	c := make([]V, len(b))
	copy(c, b)
	res := raw(in, f, []V{{P: &Sl{c}}})
	t := res.P.(*Agg)
	return t.f[0], int(in.concInt(t.f[1], ikind{64, true}))
}

func (in *In) encodeRune(v V, k ikind) V {
	if v.P == nil {
		r := v.I
		if !k.signed && uint64(r) > 0x10ffff || r < 0 || r > 0x10ffff {
			r = 0xfffd
		}
		return strV(string(rune(r)))
	}
	tt := in.tt
	t := v.P.(*Term)
	if k.w < 64 {
		if k.signed {
			t = tt.Sext(t, 64)
		} else {
			t = tt.Zext(t, 64)
		}
	}
	if in.branch(tt.Ult(t, tt.Const(0x80, 64))) {
		return V{P: &Rope{segs: []Seg{{kind: 1, t: tt.Trunc(t, 8)}}}}
	}
	f := in.P.fnByName("unicode/utf8", "AppendRune")
	if f == nil {
		panic(pathCut{"no utf8.AppendRune", "unsupported"})
	}
	big := tt.Not(tt.Ule(t, tt.Const(0x10ffff, 64)))
	if in.branch(big) {
		return strV("\uFFFD")
	}
	res := in.callClosure(&Closure{fn: f}, []V{{}, unlift(tt.Trunc(t, 32), true)})
	return bytesToStr(res.P.(*Sl).a)
}

// litRec remembers that the decimal representation of t is b.
type litRec struct {
	t *Term
	b []V
}

// litOf is the value whose decimal representation b is known to be.
func (in *In) litOf(b []V) *Term {
	if len(b) < 2 {
		return nil
	}
	k, ok := b[len(b)-1].P.(*Term)
	if !ok {
		return nil
	}
next:
	for _, r := range in.path.digOf[k] {
		if len(r.b) != len(b) {
			continue
		}
		for i := range b {
			if b[i].P != r.b[i].P || b[i].P == nil && b[i].I != r.b[i].I {
				continue next
			}
		}
		return r.t
	}
	return nil
}

// atoi is strconv.Atoi or ParseInt by way of f, short-cutting what is known to be the decimal
// representation of a value.
func (in *In) atoi(s V, f func() V) V {
	if _, ok := s.P.(*Rope); !ok {
		return f()
	}
	b := in.bytesOf(s)
	if len(b) > 0 && b[0].P == nil && b[0].I == '-' {
		return f()
	}
	if t := in.litOf(b); t != nil {
		return agg(V{P: t}, V{})
	}
	r := f()
	if a, ok := r.P.(*Agg); ok && len(a.f) == 2 && a.f[1].P == nil && len(b) >= 2 {
		if t, ok := a.f[0].P.(*Term); ok && t.w == 64 && t.op != OConst {
			for _, c := range b {
				v := c.I
				if d, ok := c.P.(*Term); ok {
					v = int64(in.tt.Eval(d, in.path.model)) // the path fixes whether it is a sign
				}
				if v < '0' || '9' < v {
					return r
				}
			}
			in.path.lits[t] = b
			if k, ok := b[len(b)-1].P.(*Term); ok {
				in.path.digOf[k] = append(in.path.digOf[k], litRec{t, b})
			}
		}
	}
	return r
}

// decDigits splits the decimal representation of a symbolic integer into bytes.
func (in *In) decDigits(t *Term) []V {
	if t.op == OConst {
		s := strconv.FormatInt(sx(t.k, t.w), 10)
		var o []V
		for i := range len(s) {
			o = append(o, V{I: int64(s[i])})
		}
		return o
	}
	if d, ok := in.path.digits[t]; ok {
		return d
	}
	if b, ok := in.path.lits[t]; ok {
		for len(b) > 1 {
			if b[0].P == nil {
				if b[0].I != '0' {
					break
				}
			} else if !in.branch(in.tt.Eq(b[0].P.(*Term), in.tt.Const('0', 8))) {
				break
			}
			b = b[1:]
		}
		in.path.digits[t] = b
		return b
	}
	tt := in.tt
	var out []V
	neg := in.branch(tt.Slt(t, tt.Const(0, t.w)))
	abs := t
	if neg {
		abs = tt.Neg(t)
	}
	// small domain: enumerate values instead of introducing digits
	nd := 1
	lim := uint64(10)
	for nd < 19 {
		if in.branch(tt.Ult(abs, tt.Const(lim, 64))) {
			break
		}
		nd++
		lim *= 10
	}
	if nd == 1 {
		out = []V{{P: tt.Bin(OAdd, tt.Trunc(abs, 8), tt.Const('0', 8))}}
	} else if nd >= 19 && neg && in.branch(tt.Eq(t, tt.Const(1<<63, 64))) {
		for _, c := range []byte("9223372036854775808") {
			out = append(out, V{I: int64(c)})
		}
	} else {
		sum := tt.Const(0, 64)
		pw := uint64(1)
		ds := make([]*Term, nd)
		av := tt.Eval(abs, in.path.model)
		for i := 0; i < nd; i++ {
			lo := int64(0)
			if i == nd-1 {
				lo = 1
			}
			vr := tt.NewVar(fmt.Sprintf("dig%d_%d_%d", t.id, nd, i), 8, lo, 9, false)
			in.path.model.val[int32(vr.t.k)] = av / pw % 10
			ds[i] = vr.t
			sum = tt.Bin(OAdd, sum, tt.Bin(OMul, tt.Zext(vr.t, 64), tt.Const(pw, 64)))
			pw *= 10
		}
		in.path.add(in, tt.Eq(abs, sum))
		for i := nd - 1; i >= 0; i-- {
			out = append(out, V{P: tt.Bin(OAdd, ds[i], tt.Const('0', 8))})
		}
		k := out[nd-1].P.(*Term)
		in.path.digOf[k] = append(in.path.digOf[k], litRec{abs, out})
	}
	if neg {
		out = append([]V{{I: '-'}}, out...)
	}
	in.path.digits[t] = out
	return out
}
