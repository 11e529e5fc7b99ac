package main

import (
	"sort"
	"strconv"
)

// Queries with wide non-linear operations are first asked with every such operation replaced by a
// fresh variable that obeys a few consequences of the operation. No answer to that weaker query means
// none to the real one; a model of it is taken only if it satisfies the real one.

func hardOp(t *Term) bool {
	switch t.op {
	case OMul, OSDiv, OSRem, OUDiv, OURem:
		return t.w >= 24 && t.a.op != OConst && t.b.op != OConst
	}
	return false
}

// hasHard reports whether a term contains such an operation.
func (s *Solver) hasHard(t *Term) bool {
	if t == nil || t.op == OConst || t.op == OVar {
		return false
	}
	if r, ok := s.hard[t]; ok {
		return r
	}
	r := hardOp(t) || s.hasHard(t.a) || s.hasHard(t.b) || s.hasHard(t.c)
	s.hard[t] = r
	return r
}

// abs rewrites a term; the facts about the variables that it brings in are collected in need.
func (s *Solver) abs(t *Term, need map[*Term]bool) *Term {
	if t == nil || !s.hasHard(t) {
		return t
	}
	if hardOp(t) {
		v := s.tt.NewVar("abs"+strconv.Itoa(int(t.id)), t.w, t.lo, t.hi, false).t
		if !need[t] {
			need[t] = true
			s.abs(t.a, need)
			s.abs(t.b, need)
		}
		return v
	}
	if r, ok := s.absOf[t]; ok {
		s.collect(t, need)
		return r
	}
	a, b, c := s.abs(t.a, need), s.abs(t.b, need), s.abs(t.c, need)
	r := s.tt.mk(t.op, t.w, a, b, c, t.k)
	s.absOf[t] = r
	return r
}

// collect finds the hard operations below a term that was rewritten before.
func (s *Solver) collect(t *Term, need map[*Term]bool) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || !s.hasHard(t) {
			return
		}
		seen[t] = true
		if hardOp(t) {
			need[t] = true
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	walk(t)
}

func (s *Solver) abstract(cs []*Term) ([]*Term, bool) {
	any := false
	for _, c := range cs {
		any = any || s.hasHard(c)
	}
	if !any {
		return nil, false
	}
	tt := s.tt
	need := map[*Term]bool{}
	out := make([]*Term, 0, len(cs)+8)
	for _, c := range cs {
		out = append(out, s.abs(c, need))
	}
	ts := make([]*Term, 0, len(need))
	for t := range need {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, t := range ts {
		v, a, b := s.abs(t, need), s.abs(t.a, need), s.abs(t.b, need)
		zero := tt.Const(0, t.w)
		imp := func(p, q *Term) {
			if f := tt.Or(tt.Not(p), q); f != tt.True {
				out = append(out, f)
			}
		}
		switch t.op {
		case OSRem:
			imp(tt.Sle(zero, a), tt.Sle(zero, v))
			imp(tt.Sle(a, zero), tt.Sle(v, zero))
			imp(tt.Slt(zero, b), tt.And(tt.Slt(tt.Neg(b), v), tt.Slt(v, b)))
			imp(tt.Slt(b, zero), tt.And(tt.Slt(b, v), tt.Slt(b, tt.Neg(v))))
		case OSDiv:
			imp(tt.And(tt.Sle(zero, a), tt.Slt(zero, b)), tt.And(tt.Sle(zero, v), tt.Sle(v, a)))
		}
	}
	return out, true
}
