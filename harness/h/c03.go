package h

import (
	"strconv"

	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// checkVerdict compares the verdict on left-total op target.
func checkVerdict(r *command.Result, err error, op string, left, target int) {
	vf.Assert(err == nil, "a compared sum roll failed")
	want, flag := "失敗", command.SUCCESS_CHECK_FAILURE
	if holds(op, left, target) {
		want, flag = "成功", command.SUCCESS_CHECK_SUCCESS
		vf.Reach("success")
	} else {
		vf.Reach("failure")
	}
	vf.Assert(r.SuccessCheckResult == flag, "the success flag does not agree with the comparison")
	vf.Assert(last(r.MessageParts) == want, "the success word does not agree with the comparison")
	vf.Assert(len(r.MessageParts) == 4 && r.MessageParts[2] == strconv.Itoa(left), "the compared total is not reported")
}

func checkComp(t *tr, op string, target *tr, limit int) {
	f, r, err := run(t.text(1)+op+target.text(1), limit)
	rf := &ref{drawn: f.drawn}
	rf.operands(t)
	tv := rf.value(target)
	rf.rollAll(t)
	total := rf.total(t)
	if rf.err != "" {
		vf.Reach("error")
		vf.Assert(err != nil, "an invalid operand or a division by zero was not reported as an error")
		return
	}
	checkVerdict(r, err, op, total, tv)
}

// C03_Text: sum rolls against every operator and target expressions.
func C03_Text() {
	var t *tr
	switch vf.Choose("left", 4) {
	case 0:
		t = dRoll(vf.Bound("dice", 2, 3))
	case 1:
		t = bin("+-"[vf.Choose("op", 2)], dRoll(2), num("c", 2))
	case 2:
		t = bin("*/RU"[vf.Choose("op", 4)], dRoll(2), num("c", 1))
	case 3:
		t = bin("+-"[vf.Choose("op", 2)], dRoll(1), dRoll(1))
	}
	op := cmpOps[vf.Choose("cmp", 6)]
	var target *tr
	switch vf.Choose("target", 5) {
	case 0:
		target = num("t", vf.Bound("target digits", 2, 4))
	case 1:
		target = bin(arithOps[vf.Choose("top", 6)], num("t", 1), num("u", 1))
	case 2:
		target = un('m', num("t", 2))
	case 3:
		target = bin('-', bin('*', num("t", 1), num("u", 1)), num("v", 1))
	case 4:
		target = bin('*', num("t", 1), bin('-', num("u", 1), num("v", 1)))
	}
	checkComp(t, op, target, 4)
}

// C03_Wide: the comparison itself on arbitrary 64-bit values.
func C03_Wide() {
	op := cmpOps[vf.Choose("cmp", 6)]
	c, target := anyInt("c"), anyInt("target")
	f := &feed{name: "die", limit: 2, cut: true}
	left := ast.NewAdd(ast.NewDRoll(ast.NewInt(1), ast.NewInt(vf.Int("sides", 1, 1<<40))), c.node())
	r, err := command.Execute(ast.NewDRollComp(ast.NewCompare(left, op, target.node())), "DiceBot", newEvaluator(f))
	vf.Assert(len(f.drawn) == 1, "not exactly one die was drawn")
	checkVerdict(r, err, op, f.drawn[0].Value+c.n, target.n)
}

// C03_Others: no other command sets the flag.
func C03_Others() {
	cmp := cmpOps[vf.Choose("cmp", 6)]
	n, m, t := numIn("n", 1, 1, 2), numIn("m", 1, 1, 6), num("t", 1)
	list := []string{
		"C(" + n.s + "+" + m.s + ")", "CHOICE[a,b]", n.s + "D" + m.s, n.s + "B" + m.s, n.s + "B" + m.s + cmp + t.s,
		n.s + "R" + m.s + "[" + t.s + "]", n.s + "R" + m.s + cmp + t.s, n.s + "R" + m.s + "[6]" + cmp + t.s,
		n.s + "U" + m.s + "[" + t.s + "]", n.s + "U" + m.s + "[" + t.s + "]" + cmp + t.s, n.s + "U" + m.s + "[6]+" + t.s + cmp + t.s,
		n.s + "D" + m.s + "+" + t.s, "[1..." + t.s + "]B" + m.s,
	}
	_, r, err := run(list[vf.Choose("command", len(list))], 5)
	vf.Assume(err == nil)
	vf.Reach("done")
	vf.Assert(r.SuccessCheckResult == command.SUCCESS_CHECK_UNSPECIFIED, "a command without a success check sets the flag")
	l := last(r.MessageParts)
	vf.Assert(l != "成功" && l != "失敗", "a command without a success check reports success or failure")
}
