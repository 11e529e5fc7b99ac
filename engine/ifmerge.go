package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pureInstr reports whether an instruction may be executed speculatively.
func pureInstr(i ssa.Instruction) bool {
	scalar := func(t types.Type) bool {
		_, ok := intKind(t)
		return ok || isBoolT(t)
	}
	switch x := i.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM:
			if _, ok := isFloatT(x.X.Type()); ok {
				return true
			}
			c, ok := x.Y.(*ssa.Const)
			return ok && c.Value != nil && scalar(x.Type()) && c.Int64() != 0
		case token.SHL, token.SHR:
			if _, ok := x.Y.(*ssa.Const); ok {
				return scalar(x.Type())
			}
			k, ok := intKind(x.Y.Type())
			return ok && !k.signed && scalar(x.Type())
		}
		return scalar(x.X.Type())
	case *ssa.UnOp:
		return x.Op != token.MUL && x.Op != token.ARROW && scalar(x.Type())
	case *ssa.Convert:
		return scalar(x.X.Type()) && scalar(x.Type())
	case *ssa.ChangeType:
		return scalar(x.Type())
	}
	return false
}

// specAbort is raised when speculative execution meets something that it cannot do; the branch is
// then decided in the ordinary way.
type specAbort struct{}

// guarded reports whether an instruction has no effect but may fail, so that it may be executed
// speculatively if its failure is caught.
func (k *compiler) guarded(i ssa.Instruction, depth int) bool {
	switch x := i.(type) {
	case *ssa.BinOp:
		if x.Op == token.QUO || x.Op == token.REM || x.Op == token.SHL || x.Op == token.SHR {
			return scalarT(x.Type())
		}
		return scalarT(x.Type())
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch x.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return false
		}
		return true
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Extract, *ssa.ChangeInterface:
		return true
	case *ssa.Lookup:
		return isStringT(x.X.Type())
	case *ssa.TypeAssert:
		return true
	case *ssa.Call:
		return k.pureCall(&x.Call, depth)
	}
	return false
}

// pureCall: the call of a small function without effects.
func (k *compiler) pureCall(c *ssa.CallCommon, depth int) bool {
	if c.IsInvoke() {
		return false
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return f.Name() == "len" || f.Name() == "cap"
	case *ssa.Function:
		cf := k.P.cfn(f)
		if cf.repl != nil {
			return false
		}
		if cf.intr != nil {
			for _, p := range []string{"strings.", "unicode.", "unicode/utf8.", "math.", "math/bits."} {
				if strings.HasPrefix(cf.name, p) {
					return true
				}
			}
			return false
		}
		if depth <= 0 || len(f.Blocks) == 0 || len(f.Blocks) > 24 || f.Recover != nil {
			return false
		}
		for _, b := range f.Blocks {
			for n, i := range b.Instrs {
				if n == len(b.Instrs)-1 {
					switch i.(type) {
					case *ssa.Jump, *ssa.If, *ssa.Return:
						continue
					}
					return false
				}
				if _, ok := i.(*ssa.Phi); ok {
					continue
				}
				if !pureInstr(i) && !k.guarded(i, depth-1) {
					return false
				}
			}
			for _, s := range b.Succs {
				if s.Index <= b.Index && s.Dominates(b) {
					return false // a loop
				}
			}
		}
		return true
	}
	return false
}

// pureBlock: every instruction except the terminator is pure, and there are no phis unless allowed.
func (k *compiler) pureBlock(b *ssa.BasicBlock) (ok, risky bool) {
	if len(b.Instrs) > 32 {
		return false, false
	}
	for n, i := range b.Instrs {
		if n == len(b.Instrs)-1 {
			switch i.(type) {
			case *ssa.Jump, *ssa.If:
				return true, risky
			case *ssa.Return:
				return b.Parent().Recover == nil, risky
			}
			return false, false
		}
		if p, ok := i.(*ssa.Phi); ok {
			if _, ok := intKind(p.Type()); !ok && !isBoolT(p.Type()) {
				return false, false
			}
			continue
		}
		if pureInstr(i) {
			continue
		}
		if !k.guarded(i, 2) {
			return false, false
		}
		risky = true
	}
	return false, false
}

// region is an acyclic set of pure blocks behind an If, with one or two exits. Its blocks may have other
// predecessors: they are executed here only for arrivals from the If.
type region struct {
	head   *ssa.BasicBlock
	blocks []*ssa.BasicBlock // topological
	exits  []*ssa.BasicBlock // nil stands for returning
	risky  bool
}

func returns(b *ssa.BasicBlock) *ssa.Return {
	r, _ := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	return r
}

// returnsOK: the results of the returning blocks can be merged.
func returnsOK(order []*ssa.BasicBlock) bool {
	var first *ssa.Return
	rest, allConst := 0, []bool{}
	for _, b := range order {
		r := returns(b)
		if r == nil {
			continue
		}
		if first == nil {
			first = r
			allConst = make([]bool, len(r.Results))
			for i := range allConst {
				allConst[i] = true
			}
		}
		for i, v := range r.Results {
			if !scalarT(v.Type()) && !sameVal(v, first.Results[i]) {
				return false
			}
			if _, c := v.(*ssa.Const); !c || isBoolT(v.Type()) {
				allConst[i] = false
			}
			if _, c := v.(*ssa.Const); c && sameVal(v, first.Results[i]) && !scalarT(v.Type()) {
				allConst[i] = false
			}
		}
		rest++
	}
	if rest > 1 {
		for _, c := range allConst {
			if c {
				return false
			}
		}
	}
	return true
}

func scalarT(t types.Type) bool {
	_, ok := intKind(t)
	return ok || isBoolT(t)
}

// sameVal: two operands that certainly denote the same value.
func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	c1, k1 := a.(*ssa.Const)
	c2, k2 := b.(*ssa.Const)
	if k1 && k2 && types.Identical(c1.Type(), c2.Type()) {
		if c1.Value == nil || c2.Value == nil {
			return c1.Value == nil && c2.Value == nil
		}
		return c1.Value.ExactString() == c2.Value.ExactString()
	}
	return false
}

// findRegion grows a region and returns the largest prefix with at most two exits.
func (k *compiler) findRegion(head *ssa.BasicBlock) *region {
	const maxBlocks = 16
	inside := map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	var best *region
	riskyB := map[*ssa.BasicBlock]bool{}
	// what comes after the head in the same iteration of its loops
	after := map[*ssa.BasicBlock]bool{}
	var reach func(b *ssa.BasicBlock)
	reach = func(b *ssa.BasicBlock) {
		for _, t := range b.Succs {
			if !after[t] && !t.Dominates(head) {
				after[t] = true
				reach(t)
			}
		}
	}
	reach(head)
	frontier := func() []*ssa.BasicBlock {
		var front []*ssa.BasicBlock
		seen := map[*ssa.BasicBlock]bool{}
		add := func(b *ssa.BasicBlock) {
			for _, s := range b.Succs {
				if !inside[s] && !seen[s] {
					seen[s] = true
					front = append(front, s)
				}
			}
		}
		add(head)
		ret := false
		for _, b := range order {
			add(b)
			ret = ret || returns(b) != nil
		}
		if ret {
			front = append(front, nil)
		}
		return front
	}
	phisOK := func(j *ssa.BasicBlock) bool {
		if j == nil {
			return returnsOK(order)
		}
		for _, i := range j.Instrs {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if scalarT(p.Type()) {
				continue
			}
			var v ssa.Value
			for n, pr := range j.Preds {
				if pr == head || inside[pr] {
					if v == nil {
						v = p.Edges[n]
					} else if !sameVal(v, p.Edges[n]) {
						return false
					}
				}
			}
		}
		return true
	}
	for {
		front := frontier()
		if len(front) <= 2 && len(front) > 0 && (len(order) > 0 || len(front) == 1) {
			ok := true
			for _, j := range front {
				if !phisOK(j) {
					ok = false
				}
			}
			if ok && (best == nil || len(front) <= len(best.exits) || len(best.exits) == 2) {
				best = &region{head: head, blocks: append([]*ssa.BasicBlock(nil), order...), exits: front}
				for _, b := range order {
					best.risky = best.risky || riskyB[b]
				}
			}
			if len(front) == 1 && ok {
				return best // a join: nothing to decide
			}
		}
		grown := false
		for _, s := range front {
			if s == nil || !after[s] || len(order) >= maxBlocks {
				continue
			}
			ok, risky := k.pureBlock(s)
			if !ok {
				continue
			}
			for _, p := range s.Preds {
				if p != head && !inside[p] && after[p] {
					ok = false // it can still be entered from a block to come
				}
			}
			for _, t := range s.Succs {
				if inside[t] || t == s {
					ok = false
				}
			}
			if ok {
				inside[s], riskyB[s] = true, risky
				order = append(order, s)
				grown = true
				break
			}
		}
		if !grown {
			return best
		}
	}
}

func (k *compiler) ifInstr(x *ssa.If) instrFn {
	b := x.Block()
	c := k.opnd(x.Cond)
	t, f := b.Succs[0].Index, b.Succs[1].Index
	if reg := k.findRegion(b); reg != nil {
		merge := k.mergeRegion(reg)
		run := func(fr *Frame, cond *Term) { merge(fr, cond)() }
		if reg.risky {
			run = func(fr *Frame, cond *Term) {
				var leave func()
				if fr.speculate(func() { leave = merge(fr, cond) }) {
					leave()
				} else if fr.in.branch(cond) {
					fr.next = t
				} else {
					fr.next = f
				}
			}
		}
		return func(fr *Frame) {
			v := c.get(fr)
			if cond, ok := v.P.(*Term); ok {
				if r, ok := fr.in.cheap(cond); ok {
					v = boolV(r)
				} else {
					run(fr, cond)
					return
				}
			}
			if v.I != 0 {
				fr.next = t
			} else {
				fr.next = f
			}
		}
	}
	return func(fr *Frame) {
		v := c.get(fr)
		r := v.I != 0
		if cond, ok := v.P.(*Term); ok {
			r = fr.in.branch(cond)
		}
		if r {
			fr.next = t
		} else {
			fr.next = f
		}
	}
}

// speculate runs f, which has no effects, and reports whether it went through.
func (fr *Frame) speculate(f func()) (done bool) {
	in := fr.in
	sp, ap, depth, spec, steps := in.sp, in.ap, in.depth, in.spec, in.steps
	defer func() {
		in.spec = spec
		if done {
			return
		}
		switch r := recover().(type) {
		case specAbort, targetPanic:
		case pathCut:
			if r.kind != "unsupported" {
				panic(r)
			}
		default:
			panic(r)
		}
		clear(in.stack[sp:max(sp, in.sp)])
		in.sp, in.ap, in.depth, in.cur, in.steps = sp, ap, depth, fr, steps
		fr.skipPhi = false
	}()
	in.spec++
	f()
	return true
}

type inEdge struct {
	from int // region index, -1 head
	one  bool
	slot int
	pi   int
}

// mergeRegion compiles the speculative execution of a region with if-then-else at its exits. The
// compiled function evaluates the region and returns the step that decides the exit and leaves.
func (k *compiler) mergeRegion(r *region) func(fr *Frame, cond *Term) func() {
	type blk struct {
		code  []instrFn
		phis  []cphi
		kinds []ikind
		in    []inEdge
		isIf  bool
		cond  opnd
		ret   []opnd
		isRet bool
	}
	type jphi struct {
		dst int
		src []opnd // by position in the exit's in-edge list
		k   ikind
		uni bool
	}
	type exit struct {
		idx  int
		in   []inEdge
		phis []jphi
		rets []int // the returning blocks, for the exit that returns
	}
	idx := map[*ssa.BasicBlock]int{r.head: -1}
	for i, b := range r.blocks {
		idx[b] = i
	}
	edges := func(b *ssa.BasicBlock) []inEdge {
		var out []inEdge
		used := map[*ssa.BasicBlock]int{}
		for pi, p := range b.Preds {
			fi, ok := idx[p]
			if !ok {
				continue
			}
			slot, cnt := -1, 0
			for si, s := range p.Succs {
				if s == b {
					if cnt == used[p] {
						slot = si
						break
					}
					cnt++
				}
			}
			used[p]++
			out = append(out, inEdge{fi, len(p.Succs) == 1, slot, pi})
		}
		return out
	}
	bs := make([]blk, len(r.blocks))
	for i, b := range r.blocks {
		bs[i].in = edges(b)
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Phi:
				cp := cphi{dst: k.regs[y]}
				for _, e := range y.Edges {
					cp.src = append(cp.src, k.opnd(e))
				}
				ik, _ := intKind(y.Type())
				bs[i].phis = append(bs[i].phis, cp)
				bs[i].kinds = append(bs[i].kinds, ik)
			case *ssa.Jump:
			case *ssa.Return:
				bs[i].isRet = true
				for _, v := range y.Results {
					bs[i].ret = append(bs[i].ret, k.opnd(v))
				}
			case *ssa.If:
				bs[i].isIf = true
				bs[i].cond = k.opnd(y.Cond)
			default:
				if f := k.instr(in); f != nil {
					bs[i].code = append(bs[i].code, f)
				}
			}
		}
	}
	exits := make([]exit, len(r.exits))
	for n, j := range r.exits {
		if j == nil {
			e := exit{idx: -1}
			for i, b := range r.blocks {
				if ret := returns(b); ret != nil {
					e.rets = append(e.rets, i)
					e.in = append(e.in, inEdge{i, true, 0, 0})
					if e.phis == nil {
						e.phis = make([]jphi, len(ret.Results))
					}
					for x, v := range ret.Results {
						jp := &e.phis[x]
						if ik, ok := intKind(v.Type()); ok {
							jp.k = ik
						} else if !isBoolT(v.Type()) {
							jp.uni = true
						}
						jp.src = append(jp.src, k.opnd(v))
					}
				}
			}
			exits[n] = e
			continue
		}
		e := exit{idx: j.Index, in: edges(j)}
		for _, in := range j.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			jp := jphi{dst: k.regs[p]}
			if ik, ok := intKind(p.Type()); ok {
				jp.k = ik
			} else if !isBoolT(p.Type()) {
				jp.uni = true
			}
			for _, ie := range e.in {
				jp.src = append(jp.src, k.opnd(p.Edges[ie.pi]))
			}
			e.phis = append(e.phis, jp)
		}
		exits[n] = e
	}
	return func(fr *Frame, cond *Term) func() {
		tt := fr.in.tt
		g := make([]*Term, len(bs))
		conds := make([]*Term, len(bs))
		edge := func(e inEdge) *Term {
			guard, c := tt.True, cond
			if e.from >= 0 {
				guard, c = g[e.from], conds[e.from]
			}
			if e.one {
				return guard
			}
			if e.slot == 1 {
				c = tt.Not(c)
			}
			return tt.And(guard, c)
		}
		for i := range bs {
			gd := tt.False
			ecs := make([]*Term, len(bs[i].in))
			for n, e := range bs[i].in {
				ecs[n] = edge(e)
				gd = tt.Or(gd, ecs[n])
			}
			g[i] = gd
			for n, p := range bs[i].phis {
				kd := bs[i].kinds[n]
				var acc *Term
				for m := len(ecs) - 1; m >= 0; m-- {
					v := lift(tt, p.src[bs[i].in[m].pi].get(fr), kd.w)
					if acc == nil {
						acc = v
					} else {
						acc = tt.Ite(ecs[m], v, acc)
					}
				}
				fr.regs[p.dst] = unlift(acc, kd.signed)
			}
			for _, f := range bs[i].code {
				f(fr)
			}
			if bs[i].isIf {
				conds[i] = lift(tt, bs[i].cond.get(fr), 0)
			}
		}
		// the values at an exit
		values := func(ex *exit) []V {
			vals := make([]V, len(ex.phis))
			for n := range ex.phis {
				j := &ex.phis[n]
				if j.uni {
					vals[n] = j.src[0].get(fr)
					continue
				}
				var acc *Term
				first, same := j.src[0].get(fr), true
				for m := range ex.in {
					if o := j.src[m].get(fr); o.I != first.I || o.P != first.P {
						same = false
					}
				}
				if same {
					vals[n] = first
					continue
				}
				for m := len(ex.in) - 1; m >= 0; m-- {
					v := lift(tt, j.src[m].get(fr), j.k.w)
					if acc == nil {
						acc = v
					} else {
						acc = tt.Ite(edge(ex.in[m]), v, acc)
					}
				}
				vals[n] = unlift(acc, j.k.signed)
			}
			return vals
		}
		return func() {
			ex := &exits[0]
			if len(exits) == 2 {
				// guard of the exit with fewer in-edges
				pick := 0
				if len(exits[1].in) < len(exits[0].in) {
					pick = 1
				}
				gd := tt.False
				for _, e := range exits[pick].in {
					gd = tt.Or(gd, edge(e))
				}
				if fr.in.branch(gd) {
					ex = &exits[pick]
				} else {
					ex = &exits[1-pick]
				}
			}
			vals := values(ex)
			if ex.rets != nil {
				switch len(vals) {
				case 0:
				case 1:
					fr.result = vals[0]
				default:
					fr.result = V{P: &Agg{vals}}
				}
				fr.next = -1
				return
			}
			for n := range ex.phis {
				fr.regs[ex.phis[n].dst] = vals[n]
			}
			fr.skipPhi = true
			fr.next = ex.idx
		}
	}
}
