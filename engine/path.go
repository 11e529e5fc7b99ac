package main

import (
	"fmt"
	"sort"
	"sync/atomic"
)

// decision is one resolved choice of a path.
type decision struct {
	v      int64 // value, for case splits
	conc   bool
	taken  bool
	forced bool
}

type workItem struct {
	dec   []decision
	model map[string]uint64 // input name -> value
}

// Path is the state of the path being executed.
type Path struct {
	prefix []decision
	pos    int
	dec    []decision
	pc     []*Term
	has    map[*Term]bool
	dom    map[int32]*[4]uint64
	ent    map[int32]bool // variable occurs in a multi-variable constraint
	model  *Model
	digits map[*Term][]V
	lits   map[*Term][]V      // decimal text, possibly with leading zeros, a value was read from
	digOf  map[*Term][]litRec // by last byte
	inputs []*Var             // in creation order
	names  map[string]int
	obs    []obsV
	known  map[string]bool
	note   string
	concN  map[*Term]int
	stdout V
	lossy  string // a value was fixed without case split (under-approximation)
}

type obsV struct {
	label string
	v     V
	kind  string
}

func newPath(it *workItem) *Path {
	p := &Path{prefix: it.dec, has: map[*Term]bool{}, dom: map[int32]*[4]uint64{}, ent: map[int32]bool{},
		model: &Model{map[int32]uint64{}}, digits: map[*Term][]V{}, lits: map[*Term][]V{}, digOf: map[*Term][]litRec{}, names: map[string]int{}, known: map[string]bool{}, concN: map[*Term]int{}}
	return p
}

// small returns the single small-domain variable of a term, or -1.
func (in *In) small(t *Term) int32 {
	if len(t.vs.v) != 1 {
		return -1
	}
	i := t.vs.v[0]
	v := in.tt.vars[i]
	if v.w == 0 || (v.hi-v.lo >= 0 && v.hi-v.lo < 256) {
		return i
	}
	return -1
}

func (in *In) fullDom(i int32) [4]uint64 {
	v := in.tt.vars[i]
	n := int64(2)
	if v.w > 0 {
		n = v.hi - v.lo + 1
	}
	var d [4]uint64
	for k := int64(0); k < n; k++ {
		d[k>>6] |= 1 << uint(k&63)
	}
	return d
}

func (in *In) domVal(i int32, k int) uint64 {
	v := in.tt.vars[i]
	if v.w == 0 {
		return uint64(k)
	}
	return uint64(v.lo+int64(k)) & mask(v.w)
}

// truthTab tabulates a boolean term over its single small variable.
func (in *In) truthTab(t *Term, i int32) *[4]uint64 {
	if t.dom != nil {
		return t.dom
	}
	d := in.fullDom(i)
	var r [4]uint64
	m := &Model{map[int32]uint64{}}
	for k := 0; k < 256; k++ {
		if d[k>>6]>>uint(k&63)&1 == 0 {
			continue
		}
		m.val[i] = in.domVal(i, k)
		if in.tt.Eval(t, m) != 0 {
			r[k>>6] |= 1 << uint(k&63)
		}
	}
	t.dom = &r
	return t.dom
}

func (in *In) curDom(i int32) [4]uint64 {
	if d := in.path.dom[i]; d != nil {
		return *d
	}
	return in.fullDom(i)
}

func andDom(a, b [4]uint64) [4]uint64 {
	for k := range a {
		a[k] &= b[k]
	}
	return a
}
func andNotDom(a, b [4]uint64) [4]uint64 {
	for k := range a {
		a[k] &^= b[k]
	}
	return a
}
func emptyDom(a [4]uint64) bool { return a[0]|a[1]|a[2]|a[3] == 0 }
func firstDom(a [4]uint64) int {
	for k := 0; k < 256; k++ {
		if a[k>>6]>>uint(k&63)&1 != 0 {
			return k
		}
	}
	return -1
}

// cheap decides a condition without a solver call, deterministically.
func (in *In) cheap(c *Term) (bool, bool) {
	if c.op == OConst {
		return c.k != 0, true
	}
	p := in.path
	if p == nil {
		return false, false
	}
	if p.has[c] {
		return true, true
	}
	if p.has[in.tt.Not(c)] {
		return false, true
	}
	if i := in.small(c); i >= 0 && !c.fp {
		t := in.truthTab(c, i)
		d := in.curDom(i)
		if emptyDom(andDom(d, *t)) {
			in.sol.st.DomainDecided++
			return false, true
		}
		if emptyDom(andNotDom(d, *t)) {
			in.sol.st.DomainDecided++
			return true, true
		}
	}
	if c.op == OAnd {
		if r, ok := in.cheap(c.a); ok && !r {
			return false, true
		} else if ok {
			if r2, ok2 := in.cheap(c.b); ok2 {
				return r2, true
			}
		}
		if r, ok := in.cheap(c.b); ok && !r {
			return false, true
		}
	}
	if c.op == OOr {
		if r, ok := in.cheap(c.a); ok && r {
			return true, true
		} else if ok {
			if r2, ok2 := in.cheap(c.b); ok2 {
				return r2, true
			}
		}
		if r, ok := in.cheap(c.b); ok && r {
			return true, true
		}
	}
	return false, false
}

// add puts a constraint on the path.
func (p *Path) add(in *In, c *Term) {
	if c.op == OConst {
		if c.k == 0 {
			panic(engineError{"false constraint added"})
		}
		return
	}
	if p.has[c] {
		return
	}
	in.decide()
	if c.op == OAnd {
		p.add(in, c.a)
		p.add(in, c.b)
		p.has[c] = true
		return
	}
	p.has[c] = true
	p.pc = append(p.pc, c)
	if i := in.small(c); i >= 0 && !c.fp {
		d := andDom(in.curDom(i), *in.truthTab(c, i))
		p.dom[i] = &d
	} else {
		for _, v := range c.vs.v {
			p.ent[v] = true
		}
	}
}

// slice returns the constraints connected to the given variables.
func (p *Path) slice(vs *varset) []*Term {
	set := map[int32]bool{}
	for _, v := range vs.v {
		set[v] = true
	}
	used := make([]bool, len(p.pc))
	var out []*Term
	for {
		grown := false
		for i, c := range p.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vs.v {
				if set[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				for _, v := range c.vs.v {
					if !set[v] {
						set[v] = true
						grown = true
					}
				}
			}
		}
		if !grown {
			return out
		}
	}
}

// query asks whether the path condition together with c is satisfiable; the model extends the current one.
func (in *In) query(c *Term, hardMS int) (satRes, *Model) {
	p := in.path
	if c.op == OConst {
		if c.k == 0 {
			return unsat, nil
		}
		return sat, p.model
	}
	if i := in.small(c); i >= 0 && !c.fp {
		d := andDom(in.curDom(i), *in.truthTab(c, i))
		if emptyDom(d) {
			in.sol.st.DomainDecided++
			return unsat, nil
		}
		if !p.ent[i] {
			in.sol.st.DomainDecided++
			m := p.model.clone()
			m.val[i] = in.domVal(i, firstDom(d))
			return sat, m
		}
	}
	cs := append(p.slice(c.vs), c)
	r, mv := in.sol.Check(cs, hardMS)
	if r != sat {
		return r, nil
	}
	m := p.model.clone()
	for k, v := range mv {
		m.val[k] = v
	}
	return sat, m
}

func (in *In) exportModel(m *Model) map[string]uint64 {
	out := make(map[string]uint64, len(m.val))
	for i, v := range m.val {
		vr := in.tt.vars[i]
		if vr.input {
			out[vr.name] = v
		}
	}
	return out
}

func (in *In) needPath(c *Term) {
	if in.path == nil || in.initDep > 0 {
		panic(engineError{"symbolic value outside a path"})
	}
}

// decide is called wherever the path takes a decision or a constraint.
func (in *In) decide() {
	if in.spec > 0 {
		panic(specAbort{})
	}
}

// branch decides a condition, queueing the alternative when both sides are feasible.
func (in *In) branch(c *Term) bool {
	if c.op == OConst {
		return c.k != 0
	}
	in.needPath(c)
	if r, ok := in.cheap(c); ok {
		return r
	}
	in.decide()
	p := in.path
	tt := in.tt
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		if d.conc {
			panic(engineError{"replay divergence"})
		}
		p.dec = append(p.dec, d)
		if !d.forced {
			l := c
			if !d.taken {
				l = tt.Not(c)
			}
			p.add(in, l)
		}
		return d.taken
	}
	mv := tt.Eval(c, p.model) != 0
	lit, other := c, tt.Not(c)
	if !mv {
		lit, other = other, lit
	}
	r, m := in.query(other, 0)
	if r == unknown && atomic.AddInt64(&in.H.hardTries, 1) <= 16 {
		r, m = in.query(other, 6000)
	}
	switch r {
	case unsat:
		p.dec = append(p.dec, decision{taken: mv, forced: true})
		return mv
	case sat:
		alt := make([]decision, len(p.dec)+1)
		copy(alt, p.dec)
		alt[len(p.dec)] = decision{taken: !mv}
		in.H.push(&workItem{dec: alt, model: in.exportModel(m)})
	default:
		in.H.noteUnknown("branch in " + in.where1())
	}
	p.dec = append(p.dec, decision{taken: mv})
	p.add(in, lit)
	return mv
}

func (in *In) where1() string {
	if in.cur != nil {
		return in.cur.fn.name
	}
	return "?"
}

// concretize splits on the value of t.
func (in *In) concretize(t *Term, signed bool) int64 {
	if t.op == OConst {
		if signed {
			return sx(t.k, t.w)
		}
		return int64(t.k)
	}
	in.needPath(t)
	in.decide()
	p := in.path
	tt := in.tt
	conv := func(u uint64) int64 {
		if signed {
			return sx(u, t.w)
		}
		return int64(u & mask(t.w))
	}
	// a single value left?
	for {
		if p.pos < len(p.prefix) {
			d := p.prefix[p.pos]
			p.pos++
			if !d.conc {
				panic(engineError{"replay divergence"})
			}
			p.dec = append(p.dec, d)
			eq := tt.Eq(t, tt.Const(uint64(d.v), t.w))
			if d.taken {
				if !d.forced {
					p.add(in, eq)
				}
				return d.v
			}
			p.add(in, tt.Not(eq))
			p.concN[t]++
			continue
		}
		if p.concN[t] > in.H.maxSplit {
			panic(pathCut{fmt.Sprintf("more than %d values at %s", in.H.maxSplit, in.where1()), "bound"})
		}
		v := conv(tt.Eval(t, p.model))
		eq := tt.Eq(t, tt.Const(uint64(v), t.w))
		r, m := in.query(tt.Not(eq), 0)
		if r == unsat {
			p.dec = append(p.dec, decision{v: v, conc: true, taken: true, forced: true})
			return v
		}
		if r == sat {
			alt := make([]decision, len(p.dec)+1)
			copy(alt, p.dec)
			alt[len(p.dec)] = decision{v: v, conc: true}
			in.H.push(&workItem{dec: alt, model: in.exportModel(m)})
		} else {
			in.H.noteUnknown("case split in " + in.where1())
		}
		p.dec = append(p.dec, decision{v: v, conc: true, taken: true})
		p.add(in, eq)
		return v
	}
}

// fix replaces a term by its value in the current model without exploring the others.
func (in *In) fix(t *Term, why string) uint64 {
	p := in.path
	in.needPath(t)
	in.decide()
	tt := in.tt
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		if !d.conc {
			panic(engineError{"replay divergence"})
		}
		p.dec = append(p.dec, d)
		p.add(in, tt.Eq(t, tt.Const(uint64(d.v), t.w)))
		p.lossy = why
		return uint64(d.v) & mask(t.w)
	}
	v := tt.Eval(t, p.model)
	p.dec = append(p.dec, decision{v: int64(v), conc: true, taken: true})
	p.add(in, tt.Eq(t, tt.Const(v, t.w)))
	p.lossy = why
	return v
}

// newInput creates a symbolic input of the harness.
func (in *In) newInput(name string, w uint8, lo, hi int64) *Term {
	p := in.path
	if p == nil || in.initDep > 0 {
		panic(engineError{"input outside a path"})
	}
	in.decide()
	n := p.names[name]
	p.names[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	v := in.tt.NewVar(name, w, lo, hi, true)
	i := int32(v.t.k)
	if x, ok := in.curModel[name]; ok {
		if sv := sx(x, max(w, 1)); w == 0 || sv >= lo && sv <= hi {
			p.model.val[i] = x & mask(max(w, 1))
		}
	}
	if _, ok := p.model.val[i]; !ok {
		p.model.val[i] = p.model.get(in.tt, i)
	}
	p.inputs = append(p.inputs, v)
	return v.t
}

// vector renders the inputs under a model.
func (in *In) vector(m *Model) map[string]int64 {
	out := map[string]int64{}
	for _, v := range in.path.inputs {
		x := m.get(in.tt, int32(v.t.k))
		if v.w == 0 {
			out[v.name] = int64(x)
		} else {
			out[v.name] = sx(x, v.w)
		}
	}
	return out
}

func sortedKeys[T any](m map[string]T) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
