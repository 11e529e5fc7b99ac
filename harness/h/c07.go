package h

import (
	"strconv"

	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// feedHigh is a dice source that always shows the highest face.
type feedHigh struct{ n int }

func (f *feedHigh) CanSpecifyDie() bool { return false }
func (f *feedHigh) Next(sides int) (dice.Die, error) {
	f.n++
	return dice.Die{Value: sides, Sides: sides}, nil
}

func commandNode(kind int, rolls []*ast.VariableInfixExpression, th ast.Node, op string, target ast.Node) ast.Node {
	l := ast.NewRRollList(rolls[0], th)
	for _, r := range rolls[1:] {
		l.Append(r)
	}
	switch kind {
	case 0:
		return l
	case 1:
		return ast.NewRRollComp(ast.NewCompare(l, op, target))
	case 2:
		return ast.NewURollExpr(l, nil)
	}
	return ast.NewURollComp(ast.NewCompare(ast.NewURollExpr(l, nil), op, target))
}

// C07_Limit: with a reroll limit k the number of draws is bounded, whatever the dice, and the
// result lists exactly the dice drawn.
func C07_Limit() {
	k := vf.Split(vf.Int("limit", 1, vf.Bound("reroll limit", 3, 4)))
	kind := vf.Choose("kind", 4)
	nr := 1 + vf.Choose("rolls", 2)
	var rolls []*ast.VariableInfixExpression
	total := 0
	m := vf.Int("sides", 1, 1<<40)
	for i := 0; i < nr; i++ {
		n := 1 + vf.Choose("n", 2)
		total += n
		if kind < 2 {
			rolls = append(rolls, ast.NewRRoll(ast.NewInt(n), ast.NewInt(m)))
		} else {
			rolls = append(rolls, ast.NewURoll(ast.NewInt(n), ast.NewInt(m)))
		}
	}
	t := vf.Int("threshold", 2, 1<<40)
	f := &feed{name: "die", limit: total*k + 4}
	e := evaluator.NewEvaluator(roller.New(f), evaluator.NewEnvironment())
	e.MaxRerolls = k
	r, err := command.Execute(commandNode(kind, rolls, ast.NewInt(t), ">=", ast.NewInt(t)), "DiceBot", e)
	vf.Assert(err == nil, "an exploding or compounding roll failed within its reroll limit")
	vf.Assert(len(f.drawn) <= total*k, "more dice were drawn than the reroll limit allows")
	vf.Assert(sameDice(r.RolledDice, f.drawn), "the rolled dice are not the dice drawn")
	vs := make([]int, 0)
	for _, d := range f.drawn {
		vs = append(vs, d.Value)
	}
	if kind == 1 {
		vf.Assert(last(r.MessageParts) == "成功数"+strconv.Itoa(count(vs, ">=", t)), "the result at the reroll limit is not consistent with the dice")
	}
	if kind == 2 && total == 1 {
		vf.Assert(last(r.MessageParts) == strconv.Itoa(sumOf(vs))+"/"+strconv.Itoa(sumOf(vs))+" (最大/合計)", "the result at the reroll limit is not consistent with the dice")
	}
	vf.Reach("limited")
}

// C07_Default: every die explodes and the limit is the built-in one.
func C07_Default() {
	vf.MaxSteps(400000000)
	f := &feedHigh{}
	cmd := []string{"1R6[2]", "2R6>=5", "1R6[6]<=3", "1U6[6]", "1U6[2]+1", "1U6[6]>=1", "1R6[3]+1"}[vf.Choose("command", 7)]
	r, err := exec(f, cmd)
	if err != nil {
		vf.Assert(f.n == 0, "a refused command rolled dice")
		return
	}
	vf.Assert(f.n == len(r.RolledDice), "the rolled dice are not the dice drawn")
	vf.Assert(f.n >= 1 && f.n <= 100000, "rerolling did not stop at the limit")
	vf.Reach("limited")
}

const badThreshold = "振り足し目標値として2以上の整数を指定してください"

// C07_Refused: a threshold below 2, or none, is answered with the message and no die is rolled.
func C07_Refused() {
	n, m := numIn("n", 1, 1, 9), num("m", 1)
	letter := "RrUu"[vf.Choose("letter", 4)]
	isR := letter == 'R' || letter == 'r'
	s := n.s + string([]byte{letter}) + m.s
	if vf.Choose("more", 2) == 1 {
		s += "+" + s
	}
	var t *tr
	switch vf.Choose("threshold", 5) {
	case 0: // none
	case 1:
		t = num("t", 1)
	case 2:
		t = un('m', num("t", 2))
	case 3:
		t = bin("+-*/"[vf.Choose("top", 4)], num("t", 1), num("u", 1))
	case 4:
		t = bin('-', num("t", 2), num("u", 2))
	}
	op, u := "", num("u", 1)
	if t != nil {
		s += "[" + t.text(1) + "]"
	}
	if !isR && vf.Choose("modified", 2) == 1 {
		s += "+1"
		if t != nil {
			s += "-2"
		}
	}
	if vf.Choose("compare", 2) == 1 {
		op = cmpOps[vf.Choose("cmp", 6)]
		s += op + u.s
	}
	rf := &ref{}
	var th int
	want := badThreshold
	switch {
	case t != nil:
		th = rf.value(t)
	case op != "" && isR:
		th = u.n
	default:
		want = "2R6>=5 あるいは 2R6[5] のように振り足し目標値を指定してください"
		if !isR {
			want = "2U6[5] のように振り足し目標値を指定してください"
		}
	}
	vf.Assume(rf.err == "")
	vf.Assume(th < 2)
	f, r, err := run(s, 3)
	vf.Assert(len(f.drawn) == 0, "dice were rolled although the threshold is refused")
	vf.Assert(err == nil, "a refused threshold is an error instead of a message")
	vf.Assert(len(r.RolledDice) == 0, "dice are reported although the threshold is refused")
	vf.Assert(len(r.MessageParts) == 2 && r.MessageParts[1] == want, "the explanatory message is wrong")
	vf.Reach("refused")
}

// C07_Wide: an arbitrary threshold is refused exactly when it is below 2.
func C07_Wide() {
	kind := vf.Choose("kind", 4)
	roll := ast.NewRRoll(ast.NewInt(1), ast.NewInt(6))
	if kind >= 2 {
		roll = ast.NewURoll(ast.NewInt(1), ast.NewInt(6))
	}
	t := anyInt("threshold")
	f := &feed{name: "die", limit: 4, cut: true}
	r, err := command.Execute(commandNode(kind, []*ast.VariableInfixExpression{roll}, t.node(), ">=", ast.NewInt(3)), "DiceBot", newEvaluator(f))
	vf.Assert(err == nil, "the roll failed")
	if t.n < 2 {
		vf.Assert(len(f.drawn) == 0, "dice were rolled although the threshold is refused")
		vf.Assert(last(r.MessageParts) == badThreshold, "the explanatory message is wrong")
		vf.Reach("refused")
	} else {
		vf.Assert(len(f.drawn) > 0, "a valid threshold was refused")
		vf.Assert(last(r.MessageParts) != badThreshold, "a valid threshold was refused")
		vf.Reach("accepted")
	}
}
