package h

import (
	"strconv"

	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// rollSpec is one nXm of a list.
type rollSpec struct{ n, m *tr }

func genRolls(letter string, k, maxN, mDigits int) ([]rollSpec, string) {
	n := 1 + vf.Choose("rolls", k)
	var rs []rollSpec
	s := ""
	for i := 0; i < n; i++ {
		r := rollSpec{numIn("n", 1, 1, maxN), num("m", mDigits)}
		vf.Assume(r.m.n >= 1)
		rs = append(rs, r)
		if i > 0 {
			s += "+"
		}
		s += r.n.s + letter + r.m.s
	}
	return rs, s
}

// basicValues are the values of the listed rolls, in order.
func (r *ref) basicValues(rs []rollSpec) []int {
	var vs []int
	for _, x := range rs {
		for i := 0; i < x.n.n; i++ {
			vs = append(vs, r.die(x.m.n))
		}
	}
	return vs
}

func joinInts(vs []int, sep string) string {
	s := ""
	for i, v := range vs {
		if i > 0 {
			s += sep
		}
		s += strconv.Itoa(v)
	}
	return s
}

func count(vs []int, op string, target int) int {
	n := 0
	for _, v := range vs {
		n += vf.Ite(holds(op, v, target), 1, 0)
	}
	return n
}

// C04_List: lists of basic rolls.
func C04_List() {
	rs, s := genRolls("B", vf.Bound("rolls", 3, 4), vf.Bound("dice per roll", 3, 4), 2)
	f, r, err := run(s, 16)
	vf.Assert(err == nil, "a basic roll failed")
	rf := &ref{drawn: f.drawn}
	vs := rf.basicValues(rs)
	vf.Assert(rf.pos == len(f.drawn), "more dice were drawn than written")
	vf.Assert(len(r.MessageParts) == 2, "a basic roll does not have two message parts")
	vf.Assert(r.MessageParts[1] == joinInts(vs, ","), "the listed dice are not the dice rolled, in order")
	vf.Reach("listed")
}

// C04_Comp: lists with a comparison; the target is an expression.
func C04_Comp() {
	rs, s := genRolls("B", 2, vf.Bound("dice per roll", 2, 4), 2)
	op := cmpOps[vf.Choose("cmp", 6)]
	var target *tr
	switch vf.Choose("target", 3) {
	case 0:
		target = num("t", 2)
	case 1:
		target = bin("+-*/"[vf.Choose("top", 4)], num("t", 1), num("u", 1))
	case 2:
		target = un('m', num("t", 1))
	}
	f, r, err := run(s+op+target.text(1), 16)
	rf := &ref{drawn: f.drawn}
	tv := rf.value(target)
	if rf.err != "" {
		vf.Assert(err != nil, "a division by zero was not reported as an error")
		return
	}
	vf.Assert(err == nil, "a basic roll failed")
	vs := rf.basicValues(rs)
	vf.Assert(rf.pos == len(f.drawn), "more dice were drawn than written")
	p := r.MessageParts
	vf.Assert(len(p) == 3, "a compared basic roll does not have three message parts")
	vf.Assert(p[1] == joinInts(vs, ","), "the listed dice are not the dice rolled, in order")
	vf.Assert(p[2] == "成功数"+strconv.Itoa(count(vs, op, tv)), "the number of successes is not the number of dice that satisfy the comparison")
	vf.Reach("counted")
}

// C04_Wide: sides and target arbitrary.
func C04_Wide() {
	op := cmpOps[vf.Choose("cmp", 6)]
	target := anyInt("target")
	n := vf.Int("n", 1, vf.Bound("dice", 12, 30))
	f := &feed{name: "die", limit: 40, cut: true}
	m := vf.Int("sides", 1, 1<<62)
	list := ast.NewBRollList(ast.NewBRoll(ast.NewInt(n), ast.NewInt(m)))
	r, err := command.Execute(ast.NewBRollComp(ast.NewCompare(list, op, target.node())), "DiceBot", newEvaluator(f))
	vf.Assert(err == nil, "a basic roll failed")
	vf.Assert(len(f.drawn) == n, "not exactly the written number of dice was drawn")
	var vs []int
	for _, d := range f.drawn {
		vf.Assert(d.Sides == m, "a die with other sides than written was drawn")
		vs = append(vs, d.Value)
	}
	vf.Assert(r.MessageParts[1] == joinInts(vs, ","), "the listed dice are not the dice rolled, in order")
	vf.Assert(last(r.MessageParts) == "成功数"+strconv.Itoa(count(vs, op, target.n)), "the number of successes is not the number of dice that satisfy the comparison")
}

// C04_Count: the successes among several dice of one digit, the target a digit.
func C04_Count() {
	n := 1 + vf.Choose("dice", vf.Bound("dice", 8, 12))
	op := cmpOps[vf.Choose("cmp", 6)]
	t := num("t", 1)
	f, r, err := run(strconv.Itoa(n)+"B9"+op+t.s, 16)
	vf.Assert(err == nil, "a basic roll failed")
	rf := &ref{drawn: f.drawn}
	vs := rf.basicValues([]rollSpec{{lit(n), lit(9)}})
	vf.Assert(rf.pos == len(f.drawn), "more dice were drawn than written")
	vf.Assert(vf.StrEq(last(r.MessageParts), "成功数"+strconv.Itoa(count(vs, op, t.n))), "the number of successes is not the number of dice that satisfy the comparison")
}
