package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type instrFn func(fr *Frame)

// CFn is a function compiled to closures.
type CFn struct {
	fn      *ssa.Function
	P       *Program
	name    string
	pkg     int
	pkgPath string
	isInit  bool
	intr    intrinsic
	repl    func() *CFn
	once    sync.Once
	nregs   int
	blocks  []*CBlk
	hasDef  bool
	recBlk  int
	err     string
}

type CBlk struct {
	phis  []cphi
	code  []instrFn
	n     int64
	preds []int
}

type cphi struct {
	dst int
	src []opnd // per predecessor
}

type opnd struct {
	k uint8 // 0 reg 1 const 2 global 3 freevar
	r int
	c V
}

func (o *opnd) get(fr *Frame) V {
	switch o.k {
	case 0:
		return fr.regs[o.r]
	case 1:
		return o.c
	case 2:
		return V{P: fr.in.global(o.r)}
	}
	return fr.env[o.r]
}

type compiler struct {
	P     *Program
	c     *CFn
	regs  map[ssa.Value]int
	merge map[*ssa.BasicBlock]bool
}

func (c *CFn) compile() {
	c.once.Do(func() {
		defer func() {
			if r := recover(); r != nil {
				c.err = fmt.Sprint("compile: ", r)
			}
		}()
		if c.fn.Blocks == nil {
			c.err = "no body"
			return
		}
		k := &compiler{P: c.P, c: c, regs: map[ssa.Value]int{}}
		n := 0
		for _, p := range c.fn.Params {
			k.regs[p] = n
			n++
		}
		for _, b := range c.fn.Blocks {
			for _, i := range b.Instrs {
				if v, ok := i.(ssa.Value); ok {
					k.regs[v] = n
					n++
				}
				if _, ok := i.(*ssa.Defer); ok {
					c.hasDef = true
				}
			}
		}
		c.nregs = n
		c.recBlk = -1
		if c.fn.Recover != nil {
			c.recBlk = c.fn.Recover.Index
		}
		for _, b := range c.fn.Blocks {
			c.blocks = append(c.blocks, k.block(b))
		}
	})
}

func (k *compiler) opnd(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{k: 1, c: k.constant(x)}
	case *ssa.Global:
		i, ok := k.P.globIdx[x]
		if !ok {
			panic("unknown global " + x.String())
		}
		return opnd{k: 2, r: i}
	case *ssa.Function:
		return opnd{k: 1, c: V{P: &Closure{fn: k.P.cfn(x)}}}
	case *ssa.FreeVar:
		for i, f := range k.c.fn.FreeVars {
			if f == x {
				return opnd{k: 3, r: i}
			}
		}
		panic("freevar")
	case *ssa.Builtin:
		return opnd{k: 1}
	}
	r, ok := k.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %T %s", v, v.Name()))
	}
	return opnd{k: 0, r: r}
}

func (k *compiler) constant(c *ssa.Const) V {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return boolV(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			if b.Info()&types.IsUnsigned != 0 {
				return V{I: int64(c.Uint64())}
			}
			return V{I: c.Int64()}
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return strV(constant.StringVal(c.Value))
			}
			return strV(string(rune(c.Int64())))
		case b.Info()&types.IsFloat != 0:
			f := c.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return flV(f)
		case b.Info()&types.IsComplex != 0:
			return V{P: c.Complex128()}
		case b.Kind() == types.UnsafePointer:
			return V{}
		}
	}
	panic("constant " + c.String())
}

// zeroOf builds a zero value.
func zeroOf(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		f := make([]V, u.NumFields())
		for i := range f {
			f[i] = zeroOf(u.Field(i).Type())
		}
		return V{P: &Agg{f}}
	case *types.Array:
		n := int(u.Len())
		f := make([]V, n)
		if n > 0 {
			z := zeroOf(u.Elem())
			if _, ok := z.P.(*Agg); ok {
				for i := range f {
					f[i] = zeroOf(u.Elem())
				}
			}
		}
		return V{P: &Agg{f}}
	case *types.Tuple:
		f := make([]V, u.Len())
		for i := range f {
			f[i] = zeroOf(u.At(i).Type())
		}
		return V{P: &Agg{f}}
	case *types.Basic:
		if u.Info()&types.IsComplex != 0 {
			return V{P: complex128(0)}
		}
	}
	return V{}
}

func zeroFn(t types.Type) func() V {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return func() V { return zeroOf(t) }
	}
	z := zeroOf(t)
	return func() V { return z }
}

func (k *compiler) block(b *ssa.BasicBlock) *CBlk {
	cb := &CBlk{}
	for _, p := range b.Preds {
		cb.preds = append(cb.preds, p.Index)
	}
	for _, i := range b.Instrs {
		if phi, ok := i.(*ssa.Phi); ok {
			cp := cphi{dst: k.regs[phi]}
			for _, e := range phi.Edges {
				cp.src = append(cp.src, k.opnd(e))
			}
			cb.phis = append(cb.phis, cp)
			continue
		}
		if f := k.instr(i); f != nil {
			cb.code = append(cb.code, f)
		}
	}
	cb.n = int64(len(b.Instrs))
	return cb
}

func (k *compiler) instr(i ssa.Instruction) instrFn {
	dst := -1
	if v, ok := i.(ssa.Value); ok {
		dst = k.regs[v]
	}
	switch x := i.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		z := zeroFn(x.Type().Underlying().(*types.Pointer).Elem())
		return func(fr *Frame) {
			p := new(V)
			*p = z()
			fr.regs[dst] = V{P: p}
		}
	case *ssa.UnOp:
		return k.unop(x, dst)
	case *ssa.BinOp:
		return k.binop(x, dst)
	case *ssa.Call:
		call := k.call(&x.Call)
		return func(fr *Frame) { fr.regs[dst] = call(fr) }
	case *ssa.ChangeInterface, *ssa.ChangeType:
		a := k.opnd(*i.Operands(nil)[0])
		return func(fr *Frame) { fr.regs[dst] = a.get(fr) }
	case *ssa.Convert:
		return k.convert(x.X, x.Type(), dst)
	case *ssa.MultiConvert:
		return k.convert(x.X, x.Type(), dst)
	case *ssa.MakeInterface:
		a := k.opnd(x.X)
		t := k.P.canon(x.X.Type())
		return func(fr *Frame) { fr.regs[dst] = V{P: &Iface{t, copyV(a.get(fr))}} }
	case *ssa.Extract:
		a := k.opnd(x.Tuple)
		n := x.Index
		return func(fr *Frame) { fr.regs[dst] = a.get(fr).P.(*Agg).f[n] }
	case *ssa.Field:
		a := k.opnd(x.X)
		n := x.Field
		return func(fr *Frame) { fr.regs[dst] = a.get(fr).P.(*Agg).f[n] }
	case *ssa.FieldAddr:
		a := k.opnd(x.X)
		n := x.Field
		return func(fr *Frame) {
			v := a.get(fr)
			p, ok := v.P.(*V)
			if !ok {
				p = fr.in.badPtr(v)
			}
			fr.regs[dst] = V{P: &p.P.(*Agg).f[n]}
		}
	case *ssa.IndexAddr:
		return k.indexAddr(x, dst)
	case *ssa.Index:
		a, ix := k.opnd(x.X), k.opnd(x.Index)
		isStr := isStringT(x.X.Type())
		ik, _ := intKind(x.Index.Type())
		if isStr {
			return func(fr *Frame) { fr.regs[dst] = fr.in.strIndex(a.get(fr), ix.get(fr), ik) }
		}
		return func(fr *Frame) {
			arr := a.get(fr).P.(*Agg).f
			iv := ix.get(fr)
			n, st := fr.in.index(iv, ik, len(arr), arr, true)
			if st != nil {
				fr.regs[dst] = fr.in.symLoad(arr, st)
				return
			}
			fr.regs[dst] = copyV(arr[n])
		}
	case *ssa.Lookup:
		return k.lookup(x, dst)
	case *ssa.Slice:
		return k.slice(x, dst)
	case *ssa.Store:
		a, v := k.opnd(x.Addr), k.opnd(x.Val)
		local := k.localAddr(x.Addr)
		return func(fr *Frame) {
			pv := a.get(fr)
			p, ok := pv.P.(*V)
			if !ok {
				p = fr.in.badPtr(pv)
			}
			val := v.get(fr)
			if _, isA := val.P.(*Agg); isA {
				fr.in.storeAgg(p, val)
				return
			}
			if !local {
				fr.in.log(p)
			}
			*p = val
		}
	case *ssa.MapUpdate:
		m, kk, v := k.opnd(x.Map), k.opnd(x.Key), k.opnd(x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *Frame) {
			mv := m.get(fr)
			if mv.P == nil {
				fr.in.rtPanic("assignment to entry in nil map")
			}
			fr.in.mapSet(mv.P.(*Map), kt, kk.get(fr), copyV(v.get(fr)))
		}
	case *ssa.MakeMap:
		return func(fr *Frame) { fr.regs[dst] = V{P: &Map{idx: map[any]int{}}} }
	case *ssa.MakeSlice:
		l, c := k.opnd(x.Len), k.opnd(x.Cap)
		el := x.Type().Underlying().(*types.Slice).Elem()
		z := zeroFn(el)
		sz := k.P.sizeof(el)
		lk, _ := intKind(x.Len.Type())
		ck, _ := intKind(x.Cap.Type())
		return func(fr *Frame) {
			n, m := fr.in.makeSliceDims(l.get(fr), c.get(fr), lk, ck, sz)
			s := make([]V, n, m)
			full := s[:m]
			z0 := z()
			if _, ok := z0.P.(*Agg); ok {
				for i := range full {
					full[i] = z()
				}
			} else if z0.P != nil {
				for i := range full {
					full[i] = z0
				}
			}
			fr.regs[dst] = V{P: &Sl{s}}
		}
	case *ssa.MakeClosure:
		f := k.P.cfn(x.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, k.opnd(b))
		}
		return func(fr *Frame) {
			env := make([]V, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[dst] = V{P: &Closure{fn: f, env: env}}
		}
	case *ssa.TypeAssert:
		return k.typeAssert(x, dst)
	case *ssa.Range:
		a := k.opnd(x.X)
		if isStringT(x.X.Type()) {
			return func(fr *Frame) { fr.regs[dst] = V{P: &RuneIter{s: a.get(fr)}} }
		}
		return func(fr *Frame) {
			m, _ := a.get(fr).P.(*Map)
			fr.regs[dst] = V{P: &MapIter{m: m}}
		}
	case *ssa.Next:
		a := k.opnd(x.Iter)
		if x.IsString {
			return func(fr *Frame) { fr.regs[dst] = fr.in.nextRune(a.get(fr).P.(*RuneIter)) }
		}
		tp := x.Type().(*types.Tuple)
		return func(fr *Frame) {
			it := a.get(fr).P.(*MapIter)
			for it.m != nil && it.pos < len(it.m.ents) {
				e := &it.m.ents[it.pos]
				it.pos++
				if e.live {
					fr.regs[dst] = agg(V{I: 1}, e.k, copyV(e.v))
					return
				}
			}
			fr.regs[dst] = agg(V{}, zeroOf1(tp.At(1).Type()), zeroOf1(tp.At(2).Type()))
		}
	case *ssa.SliceToArrayPointer:
		a := k.opnd(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *Frame) {
			s, _ := a.get(fr).P.(*Sl)
			if s == nil {
				if n == 0 {
					fr.regs[dst] = V{}
					return
				}
				fr.in.rtPanic("cannot convert slice with length 0 to array or pointer to array")
			}
			if len(s.a) < n {
				fr.in.rtPanic("cannot convert slice to array pointer: too short")
			}
			p := &V{P: &Agg{s.a[:n:n]}}
			fr.regs[dst] = V{P: p}
		}
	case *ssa.Jump:
		t := x.Block().Succs[0].Index
		return func(fr *Frame) { fr.next = t }
	case *ssa.If:
		return k.ifInstr(x)
	case *ssa.Return:
		var rs []opnd
		for _, r := range x.Results {
			rs = append(rs, k.opnd(r))
		}
		switch len(rs) {
		case 0:
			return func(fr *Frame) { fr.next = -1 }
		case 1:
			o := rs[0]
			return func(fr *Frame) { fr.result = o.get(fr); fr.next = -1 }
		}
		return func(fr *Frame) {
			f := make([]V, len(rs))
			for i := range rs {
				f[i] = rs[i].get(fr)
			}
			fr.result = V{P: &Agg{f}}
			fr.next = -1
		}
	case *ssa.Panic:
		a := k.opnd(x.X)
		return func(fr *Frame) {
			v := a.get(fr)
			if v.P == nil {
				fr.in.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			panic(targetPanic{v})
		}
	case *ssa.Defer:
		prep := k.prepCall(&x.Call)
		return func(fr *Frame) { fr.defers = append(fr.defers, prep(fr)) }
	case *ssa.RunDefers:
		return func(fr *Frame) { fr.runDefers() }
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		nm := fmt.Sprintf("%T in %s", i, k.c.name)
		return func(fr *Frame) { panic(pathCut{nm, "unsupported"}) }
	}
	nm := fmt.Sprintf("%T in %s", i, k.c.name)
	return func(fr *Frame) { panic(pathCut{nm, "unsupported"}) }
}

func zeroOf1(t types.Type) V {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return V{}
	}
	return zeroOf(t)
}

// localAddr reports whether the address lies in a variable allocated by this very function.
func (k *compiler) localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			v = x.X
		default:
			return false
		}
	}
}

func (k *compiler) unop(x *ssa.UnOp, dst int) instrFn {
	a := k.opnd(x.X)
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			gi := k.P.globIdx[g]
			return func(fr *Frame) { fr.regs[dst] = copyV(*fr.in.global(gi)) }
		}
		return func(fr *Frame) {
			v := a.get(fr)
			p, ok := v.P.(*V)
			if !ok {
				if sp, ok := v.P.(*SymPtr); ok {
					fr.regs[dst] = fr.in.symLoad(sp.base, sp.idx)
					return
				}
				p = fr.in.badPtr(v)
			}
			if _, ok := p.P.(*Agg); ok {
				fr.regs[dst] = copyV(*p)
				return
			}
			fr.regs[dst] = *p
		}
	case token.NOT:
		return func(fr *Frame) {
			v := a.get(fr)
			if t, ok := v.P.(*Term); ok {
				fr.regs[dst] = boolT(fr.in.tt.Not(t))
				return
			}
			fr.regs[dst] = V{I: 1 - v.I}
		}
	case token.SUB:
		if ik, ok := intKind(x.Type()); ok {
			return func(fr *Frame) {
				v := a.get(fr)
				if t, ok := v.P.(*Term); ok {
					fr.regs[dst] = unlift(fr.in.tt.Neg(t), ik.signed)
					return
				}
				fr.regs[dst] = V{I: ik.norm(-v.I)}
			}
		}
		if _, ok := isFloatT(x.Type()); ok {
			return func(fr *Frame) {
				v := a.get(fr)
				if t, ok := v.P.(*Term); ok {
					fr.regs[dst] = V{P: fr.in.tt.FP(OFNeg, 64, t, nil, 0)}
					return
				}
				fr.regs[dst] = flV(-fl(v))
			}
		}
		return func(fr *Frame) { fr.regs[dst] = V{P: -a.get(fr).P.(complex128)} }
	case token.XOR:
		ik, _ := intKind(x.Type())
		return func(fr *Frame) {
			v := a.get(fr)
			if t, ok := v.P.(*Term); ok {
				fr.regs[dst] = unlift(fr.in.tt.BNot(t), ik.signed)
				return
			}
			fr.regs[dst] = V{I: ik.norm(^v.I)}
		}
	}
	return func(fr *Frame) { panic(pathCut{"channel receive", "unsupported"}) }
}

func (k *compiler) binop(x *ssa.BinOp, dst int) instrFn {
	a, b := k.opnd(x.X), k.opnd(x.Y)
	t := x.X.Type()
	op := x.Op
	if ik, ok := intKind(t); ok {
		if op == token.SHL || op == token.SHR {
			ck, _ := intKind(x.Y.Type())
			return func(fr *Frame) { fr.regs[dst] = fr.in.shift(op == token.SHL, a.get(fr), b.get(fr), ik, ck) }
		}
		return k.intBinop(op, ik, a, b, dst)
	}
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		eq := k.eqFn(t, x.Y.Type())
		return func(fr *Frame) {
			r := eq(fr.in, a.get(fr), b.get(fr))
			if neg {
				if tt, ok := r.P.(*Term); ok {
					r = boolT(fr.in.tt.Not(tt))
				} else {
					r.I = 1 - r.I
				}
			}
			fr.regs[dst] = r
		}
	}
	if isStringT(t) {
		switch op {
		case token.ADD:
			return func(fr *Frame) { fr.regs[dst] = concatV(a.get(fr), b.get(fr)) }
		case token.LSS:
			return func(fr *Frame) { fr.regs[dst] = fr.in.strLess(a.get(fr), b.get(fr)) }
		case token.GTR:
			return func(fr *Frame) { fr.regs[dst] = fr.in.strLess(b.get(fr), a.get(fr)) }
		case token.LEQ:
			return func(fr *Frame) { fr.regs[dst] = fr.in.notV(fr.in.strLess(b.get(fr), a.get(fr))) }
		case token.GEQ:
			return func(fr *Frame) { fr.regs[dst] = fr.in.notV(fr.in.strLess(a.get(fr), b.get(fr))) }
		}
	}
	if isBoolT(t) {
		switch op {
		case token.AND, token.LAND, token.OR, token.LOR:
			return func(fr *Frame) {
				p, q := lift(fr.in.tt, a.get(fr), 0), lift(fr.in.tt, b.get(fr), 0)
				if op == token.AND || op == token.LAND {
					fr.regs[dst] = boolT(fr.in.tt.And(p, q))
				} else {
					fr.regs[dst] = boolT(fr.in.tt.Or(p, q))
				}
			}
		}
	}
	if fw, ok := isFloatT(t); ok {
		return func(fr *Frame) { fr.regs[dst] = fr.in.floatOp(op, a.get(fr), b.get(fr), fw) }
	}
	if isComplexT(t) {
		return func(fr *Frame) {
			p, q := a.get(fr).P.(complex128), b.get(fr).P.(complex128)
			switch op {
			case token.ADD:
				p += q
			case token.SUB:
				p -= q
			case token.MUL:
				p *= q
			case token.QUO:
				p /= q
			}
			fr.regs[dst] = V{P: p}
		}
	}
	panic("binop " + x.String())
}

func (in *In) floatOp(op token.Token, a, b V, w int) V {
	if isSym(a) || isSym(b) {
		if w == 32 {
			panic(pathCut{"symbolic float32", "unsupported"})
		}
		p, q := lift(in.tt, a, 64), lift(in.tt, b, 64)
		tt := in.tt
		switch op {
		case token.ADD:
			return V{P: tt.FP(OFAdd, 64, p, q, 0)}
		case token.SUB:
			return V{P: tt.FP(OFSub, 64, p, q, 0)}
		case token.MUL:
			return V{P: tt.FP(OFMul, 64, p, q, 0)}
		case token.QUO:
			return V{P: tt.FP(OFDiv, 64, p, q, 0)}
		case token.LSS:
			return V{P: tt.FP(OFLt, 0, p, q, 0)}
		case token.GTR:
			return V{P: tt.FP(OFLt, 0, q, p, 0)}
		case token.LEQ:
			return V{P: tt.FP(OFLe, 0, p, q, 0)}
		case token.GEQ:
			return V{P: tt.FP(OFLe, 0, q, p, 0)}
		}
	}
	x, y := fl(a), fl(b)
	var r float64
	switch op {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		r = x / y
	case token.LSS:
		return boolV(x < y)
	case token.GTR:
		return boolV(x > y)
	case token.LEQ:
		return boolV(x <= y)
	case token.GEQ:
		return boolV(x >= y)
	}
	if w == 32 {
		r = float64(float32(r))
	}
	return flV(r)
}

func (in *In) notV(v V) V {
	if t, ok := v.P.(*Term); ok {
		return boolT(in.tt.Not(t))
	}
	return V{I: 1 - v.I}
}

func (k *compiler) intBinop(op token.Token, ik ikind, a, b opnd, dst int) instrFn {
	w, signed := ik.w, ik.signed
	sym := func(fr *Frame, o Op, x, y V) {
		fr.regs[dst] = unlift(fr.in.tt.Bin(o, lift(fr.in.tt, x, w), lift(fr.in.tt, y, w)), signed)
	}
	switch op {
	case token.ADD:
		return func(fr *Frame) {
			x, y := a.get(fr), b.get(fr)
			if x.P == nil && y.P == nil {
				fr.regs[dst] = V{I: ik.norm(x.I + y.I)}
				return
			}
			sym(fr, OAdd, x, y)
		}
	case token.SUB:
		return func(fr *Frame) {
			x, y := a.get(fr), b.get(fr)
			if x.P == nil && y.P == nil {
				fr.regs[dst] = V{I: ik.norm(x.I - y.I)}
				return
			}
			sym(fr, OSub, x, y)
		}
	case token.MUL:
		return func(fr *Frame) {
			x, y := a.get(fr), b.get(fr)
			if x.P == nil && y.P == nil {
				fr.regs[dst] = V{I: ik.norm(x.I * y.I)}
				return
			}
			sym(fr, OMul, x, y)
		}
	case token.QUO, token.REM:
		return func(fr *Frame) {
			x, y := a.get(fr), b.get(fr)
			tt := fr.in.tt
			if y.P == nil && y.I == 0 {
				fr.in.rtPanic("integer divide by zero")
			}
			if x.P == nil && y.P == nil {
				var r int64
				if signed {
					if y.I == -1 {
						if op == token.QUO {
							r = -x.I
						}
					} else if op == token.QUO {
						r = x.I / y.I
					} else {
						r = x.I % y.I
					}
				} else if op == token.QUO {
					r = int64(uint64(x.I) / uint64(y.I))
				} else {
					r = int64(uint64(x.I) % uint64(y.I))
				}
				fr.regs[dst] = V{I: ik.norm(r)}
				return
			}
			ty := lift(tt, y, w)
			if fr.in.branch(tt.Eq(ty, tt.Const(0, w))) {
				fr.in.rtPanic("integer divide by zero")
			}
			var o Op
			switch {
			case signed && op == token.QUO:
				o = OSDiv
			case signed:
				o = OSRem
			case op == token.QUO:
				o = OUDiv
			default:
				o = OURem
			}
			sym(fr, o, x, y)
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return func(fr *Frame) {
			x, y := a.get(fr), b.get(fr)
			if x.P == nil && y.P == nil {
				var r int64
				switch op {
				case token.AND:
					r = x.I & y.I
				case token.OR:
					r = x.I | y.I
				case token.XOR:
					r = x.I ^ y.I
				default:
					r = x.I &^ y.I
				}
				fr.regs[dst] = V{I: ik.norm(r)}
				return
			}
			switch op {
			case token.AND:
				sym(fr, OBAnd, x, y)
			case token.OR:
				sym(fr, OBOr, x, y)
			case token.XOR:
				sym(fr, OBXor, x, y)
			default:
				y = unlift(fr.in.tt.BNot(lift(fr.in.tt, y, w)), signed)
				sym(fr, OBAnd, x, y)
			}
		}
	}
	// comparisons
	return func(fr *Frame) {
		x, y := a.get(fr), b.get(fr)
		if x.P == nil && y.P == nil {
			var r bool
			if signed {
				switch op {
				case token.EQL:
					r = x.I == y.I
				case token.NEQ:
					r = x.I != y.I
				case token.LSS:
					r = x.I < y.I
				case token.LEQ:
					r = x.I <= y.I
				case token.GTR:
					r = x.I > y.I
				case token.GEQ:
					r = x.I >= y.I
				}
			} else {
				p, q := uint64(x.I), uint64(y.I)
				switch op {
				case token.EQL:
					r = p == q
				case token.NEQ:
					r = p != q
				case token.LSS:
					r = p < q
				case token.LEQ:
					r = p <= q
				case token.GTR:
					r = p > q
				case token.GEQ:
					r = p >= q
				}
			}
			fr.regs[dst] = boolV(r)
			return
		}
		tt := fr.in.tt
		p, q := lift(tt, x, w), lift(tt, y, w)
		var r *Term
		lt, le := tt.Slt, tt.Sle
		if !signed {
			lt, le = tt.Ult, tt.Ule
		}
		switch op {
		case token.EQL:
			r = tt.Eq(p, q)
		case token.NEQ:
			r = tt.Not(tt.Eq(p, q))
		case token.LSS:
			r = lt(p, q)
		case token.LEQ:
			r = le(p, q)
		case token.GTR:
			r = lt(q, p)
		case token.GEQ:
			r = le(q, p)
		}
		fr.regs[dst] = boolT(r)
	}
}

func (in *In) shift(left bool, x, y V, ik, ck ikind) V {
	if y.P == nil {
		if ck.signed && y.I < 0 {
			in.rtPanic("negative shift amount")
		}
		n := uint64(y.I)
		if x.P == nil {
			if left {
				if n >= 64 {
					return V{}
				}
				return V{I: ik.norm(x.I << n)}
			}
			if ik.signed {
				if n >= 64 {
					n = 63
				}
				return V{I: x.I >> n}
			}
			if n >= 64 {
				return V{}
			}
			return V{I: int64(uint64(x.I) >> n)}
		}
	}
	tt := in.tt
	p := lift(tt, x, ik.w)
	c := lift(tt, y, ck.w)
	if ck.signed && y.P != nil {
		if in.branch(tt.Slt(c, tt.Const(0, ck.w))) {
			in.rtPanic("negative shift amount")
		}
	}
	if ck.w > ik.w {
		lim := tt.Const(uint64(ik.w), ck.w)
		c = tt.Ite(tt.Ult(c, lim), tt.Trunc(c, ik.w), tt.Const(uint64(ik.w), ik.w))
	} else if ck.w < ik.w {
		c = tt.Zext(c, ik.w)
	}
	o := OShl
	if !left {
		o = OLshr
		if ik.signed {
			o = OAshr
		}
	}
	return unlift(tt.Bin(o, p, c), ik.signed)
}

// eqFn compiles equality on a type.
func (k *compiler) eqFn(t, t2 types.Type) func(in *In, a, b V) V {
	if isIface(t) != isIface(t2) {
		// mixed comparison: SSA inserts MakeInterface, so this should not happen
		panic("mixed interface comparison")
	}
	return func(in *In, a, b V) V { return in.eq(t, a, b) }
}

func (in *In) eq(t types.Type, a, b V) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return in.strEq(a, b)
		case u.Info()&types.IsFloat != 0:
			if isSym(a) || isSym(b) {
				return V{P: in.tt.FP(OFEq, 0, lift(in.tt, a, 64), lift(in.tt, b, 64), 0)}
			}
			return boolV(fl(a) == fl(b))
		case u.Info()&types.IsComplex != 0:
			return boolV(a.P.(complex128) == b.P.(complex128))
		case u.Info()&types.IsBoolean != 0:
			if a.P == nil && b.P == nil {
				return boolV(a.I == b.I)
			}
			return boolT(in.tt.Eq(lift(in.tt, a, 0), lift(in.tt, b, 0)))
		}
		if ik, ok := intKind(t); ok {
			if a.P == nil && b.P == nil {
				return boolV(a.I == b.I)
			}
			return boolT(in.tt.Eq(lift(in.tt, a, ik.w), lift(in.tt, b, ik.w)))
		}
		return boolV(a.P == b.P)
	case *types.Interface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == nil || y == nil {
			return boolV(x == nil && y == nil)
		}
		if x.t != y.t {
			return V{}
		}
		if !types.Comparable(x.t) {
			in.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return in.eq(x.t, x.v, y.v)
	case *types.Struct:
		x, y := a.P.(*Agg).f, b.P.(*Agg).f
		r := in.tt.True
		for i := range x {
			e := in.eq(u.Field(i).Type(), x[i], y[i])
			r = in.tt.And(r, lift(in.tt, e, 0))
			if r == in.tt.False {
				return V{}
			}
		}
		return boolT(r)
	case *types.Array:
		x, y := a.P.(*Agg).f, b.P.(*Agg).f
		r := in.tt.True
		for i := range x {
			e := in.eq(u.Elem(), x[i], y[i])
			r = in.tt.And(r, lift(in.tt, e, 0))
			if r == in.tt.False {
				return V{}
			}
		}
		return boolT(r)
	case *types.Slice, *types.Map, *types.Signature:
		return boolV(a.P == nil && b.P == nil)
	}
	return boolV(a.P == b.P)
}

func (P *Program) sizeof(t types.Type) int64 {
	P.fnMu.Lock()
	defer P.fnMu.Unlock()
	return P.sizes.Sizeof(t)
}

const maxSliceLen = 1 << 24

func (in *In) makeSliceDims(l, c V, lk, ck ikind, sz int64) (int, int) {
	tt := in.tt
	if sz == 0 {
		sz = 1
	}
	lim := int64(1) << 47 / sz
	chk := func(v V, k ikind, what string) V {
		if t, ok := v.P.(*Term); ok {
			t64 := t
			if k.w < 64 {
				if k.signed {
					t64 = tt.Sext(t, 64)
				} else {
					t64 = tt.Zext(t, 64)
				}
			}
			bad := tt.Or(tt.Slt(t64, tt.Const(0, 64)), tt.Slt(tt.Const(uint64(lim), 64), t64))
			if in.branch(bad) {
				in.rtPanic("makeslice: " + what + " out of range")
			}
			if in.branch(tt.Slt(tt.Const(maxSliceLen, 64), t64)) {
				panic(pathCut{"huge allocation", "suspect"})
			}
			return v
		}
		if v.I < 0 || v.I > lim {
			in.rtPanic("makeslice: " + what + " out of range")
		}
		if v.I > maxSliceLen {
			panic(pathCut{"huge allocation", "suspect"})
		}
		return v
	}
	l = chk(l, lk, "len")
	same := l.P == c.P && l.I == c.I
	if same {
		n := int(in.concInt(l, lk))
		return n, n
	}
	c = chk(c, ck, "cap")
	n := int(in.concInt(l, lk))
	if c.P != nil {
		if in.branch(tt.Slt(lift(tt, c, ck.w), tt.Const(uint64(n), ck.w))) {
			in.rtPanic("makeslice: cap out of range")
		}
		return n, n // the capacity is not observed beyond growth
	}
	if c.I < int64(n) {
		in.rtPanic("makeslice: cap out of range")
	}
	return n, int(c.I)
}

// index checks bounds; returns a concrete index or a symbolic one (when symOK).
func (in *In) index(iv V, ik ikind, n int, arr []V, symOK bool) (int, *Term) {
	if iv.P == nil {
		if (ik.signed && iv.I < 0) || uint64(iv.I) >= uint64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", iv.I, n))
		}
		return int(iv.I), nil
	}
	tt := in.tt
	t := iv.P.(*Term)
	if ik.w < 64 {
		if ik.signed {
			t = tt.Sext(t, 64)
		} else {
			t = tt.Zext(t, 64)
		}
	}
	ok := tt.Ult(t, tt.Const(uint64(n), 64))
	if !in.branch(ok) {
		in.rtPanic(fmt.Sprintf("index out of range [?] with length %d", n))
	}
	if symOK && scalars(arr) {
		return 0, t
	}
	return int(in.concretize(t, true)), nil
}

func scalars(arr []V) bool {
	for i := range arr {
		if arr[i].P != nil {
			if _, ok := arr[i].P.(*Term); !ok {
				return false
			}
		}
	}
	return true
}

// symLoad reads arr[idx] for a symbolic in-range index as an if-then-else over runs of equal values.
func (in *In) symLoad(arr []V, idx *Term) V {
	lo, hi := idx.lo, idx.hi
	if lo < 0 {
		lo = 0
	}
	if hi >= int64(len(arr)) {
		hi = int64(len(arr)) - 1
	}
	// width: from any term, otherwise 64 (callers normalise through types)
	w := uint8(0)
	for i := lo; i <= hi; i++ {
		if t, ok := arr[i].P.(*Term); ok {
			w = t.w
			break
		}
	}
	if w == 0 {
		panic(engineError{"symLoad width unknown"})
	}
	return in.symLoadW(arr, idx, w, false)
}

func (in *In) symLoadW(arr []V, idx *Term, w uint8, signed bool) V {
	tt := in.tt
	lo, hi := idx.lo, idx.hi
	if lo < 0 {
		lo = 0
	}
	if hi >= int64(len(arr)) {
		hi = int64(len(arr)) - 1
	}
	if hi-lo > 4096 {
		return arr[in.concretize(idx, true)]
	}
	r := lift(tt, arr[hi], w)
	for i := hi - 1; i >= lo; i-- {
		e := lift(tt, arr[i], w)
		// runs: value e holds for indices <= i down to the start of the run
		if e == r {
			continue
		}
		r = tt.Ite(tt.Sle(idx, tt.Const(uint64(i), 64)), e, r)
	}
	return unlift(r, signed)
}

func (k *compiler) indexAddr(x *ssa.IndexAddr, dst int) instrFn {
	a, ix := k.opnd(x.X), k.opnd(x.Index)
	ik, _ := intKind(x.Index.Type())
	el := x.Type().Underlying().(*types.Pointer).Elem()
	elk, isInt := intKind(el)
	isB := isBoolT(el)
	symOK := (isInt || isB)
	if symOK {
		for _, r := range *x.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				symOK = false
			}
		}
	}
	isPtr := false
	if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		isPtr = true
	}
	w := elk.w
	return func(fr *Frame) {
		v := a.get(fr)
		var arr []V
		if isPtr {
			p, ok := v.P.(*V)
			if !ok {
				p = fr.in.badPtr(v)
			}
			arr = p.P.(*Agg).f
		} else if s, ok := v.P.(*Sl); ok {
			arr = s.a
		}
		iv := ix.get(fr)
		n, st := fr.in.index(iv, ik, len(arr), arr, symOK)
		if st != nil {
			r := fr.in.symLoadW(arr, st, w, elk.signed)
			p := new(V)
			*p = r
			fr.regs[dst] = V{P: p}
			return
		}
		fr.regs[dst] = V{P: &arr[n]}
	}
}

func (in *In) strIndex(s, iv V, ik ikind) V {
	if str, ok := concStr(s); ok && iv.P == nil {
		if iv.I < 0 || iv.I >= int64(len(str)) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", iv.I, len(str)))
		}
		return V{I: int64(str[iv.I])}
	}
	b := in.bytesOf(s)
	n, st := in.index(iv, ik, len(b), b, true)
	if st != nil {
		return in.symLoadW(b, st, 8, false)
	}
	return b[n]
}

func (k *compiler) lookup(x *ssa.Lookup, dst int) instrFn {
	a, ix := k.opnd(x.X), k.opnd(x.Index)
	if isStringT(x.X.Type()) {
		ik, _ := intKind(x.Index.Type())
		return func(fr *Frame) { fr.regs[dst] = fr.in.strIndex(a.get(fr), ix.get(fr), ik) }
	}
	mt := x.X.Type().Underlying().(*types.Map)
	z := zeroFn(mt.Elem())
	kt := mt.Key()
	comma := x.CommaOk
	return func(fr *Frame) {
		var v V
		found := false
		kv := ix.get(fr)
		if m, ok := a.get(fr).P.(*Map); ok {
			if e := fr.in.mapGet(m, kt, kv); e != nil {
				v = copyV(e.v)
				found = true
			}
		}
		if !found {
			v = z()
		}
		if comma {
			fr.regs[dst] = agg(v, boolV(found))
		} else {
			fr.regs[dst] = v
		}
	}
}

func (k *compiler) slice(x *ssa.Slice, dst int) instrFn {
	a := k.opnd(x.X)
	var lo, hi, mx *opnd
	var lk, hk, xk ikind
	if x.Low != nil {
		o := k.opnd(x.Low)
		lo = &o
		lk, _ = intKind(x.Low.Type())
	}
	if x.High != nil {
		o := k.opnd(x.High)
		hi = &o
		hk, _ = intKind(x.High.Type())
	}
	if x.Max != nil {
		o := k.opnd(x.Max)
		mx = &o
		xk, _ = intKind(x.Max.Type())
	}
	isStr := isStringT(x.X.Type())
	isPtr := false
	if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		isPtr = true
	}
	return func(fr *Frame) {
		in := fr.in
		v := a.get(fr)
		if isStr {
			n := in.strLen(v)
			l, h := 0, n
			if hi != nil {
				h = in.concBound(hi.get(fr), hk, n)
			}
			if lo != nil {
				l = in.concBound(lo.get(fr), lk, h)
			}
			if h < 0 || h > n || l < 0 || l > h {
				in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			if s, ok := concStr(v); ok {
				fr.regs[dst] = strV(s[l:h])
				return
			}
			if l == 0 && h == n {
				fr.regs[dst] = v
				return
			}
			fr.regs[dst] = bytesToStr(in.bytesOf(v)[l:h])
			return
		}
		var arr []V
		nilS := false
		if isPtr {
			p, ok := v.P.(*V)
			if !ok {
				p = in.badPtr(v)
			}
			arr = p.P.(*Agg).f
		} else if s, ok := v.P.(*Sl); ok {
			arr = s.a
		} else {
			nilS = true
		}
		n, c := len(arr), cap(arr)
		if isPtr {
			c = n
		}
		l, h, m := 0, n, c
		if mx != nil {
			m = in.concBound(mx.get(fr), xk, c)
			if m < 0 || m > c {
				in.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, c))
			}
		}
		if hi != nil {
			h = in.concBound(hi.get(fr), hk, m)
		}
		if lo != nil {
			l = in.concBound(lo.get(fr), lk, h)
		}
		if h < 0 || h > m || l < 0 || l > h {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, c))
		}
		if nilS {
			fr.regs[dst] = V{}
			return
		}
		fr.regs[dst] = V{P: &Sl{arr[l:h:m]}}
	}
}

// concBound concretises a slice bound, first separating the out-of-range case.
func (in *In) concBound(v V, ik ikind, max int) int {
	if v.P == nil {
		if v.I > math.MaxInt32*64 || v.I < -1 {
			return -1
		}
		return int(v.I)
	}
	tt := in.tt
	t := v.P.(*Term)
	if ik.w < 64 {
		if ik.signed {
			t = tt.Sext(t, 64)
		} else {
			t = tt.Zext(t, 64)
		}
	}
	if !in.branch(tt.Ule(t, tt.Const(uint64(max), 64))) {
		return -1
	}
	return int(in.concretize(t, true))
}

func (k *compiler) typeAssert(x *ssa.TypeAssert, dst int) instrFn {
	a := k.opnd(x.X)
	at := k.P.canon(x.AssertedType)
	z := zeroFn(x.AssertedType)
	comma := x.CommaOk
	toIface := isIface(at)
	P := k.P
	return func(fr *Frame) {
		ifc, _ := a.get(fr).P.(*Iface)
		var v V
		ok := false
		if ifc != nil {
			if toIface {
				if P.implements(ifc.t, at) {
					ok = true
					v = V{P: ifc}
				}
			} else if ifc.t == at {
				ok = true
				v = copyV(ifc.v)
			}
		}
		if !ok {
			if !comma {
				if ifc == nil {
					fr.in.rtPanic("interface conversion: interface is nil, not " + at.String())
				}
				fr.in.rtPanic("interface conversion: interface is " + ifc.t.String() + ", not " + at.String())
			}
			v = z()
		}
		if comma {
			fr.regs[dst] = agg(v, boolV(ok))
		} else {
			fr.regs[dst] = v
		}
	}
}
