package h

import (
	"strconv"

	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// dRoll is nDm with n in 1..maxN and m in 0..99.
func dRoll(maxN int) *tr {
	return bin('D', numIn("n", 1, 1, maxN), num("m", 2))
}

// dRoll1 is nDm with n in 1..maxN and m in 0..9.
func dRoll1(maxN int) *tr {
	return bin('D', numIn("n", 1, 1, maxN), num("m", 1))
}

// genD is any sum-roll expression of the given depth; ops and sub are the operators allowed at the
// root and below it.
func genD(depth, maxN int, ops, sub string) *tr {
	n := 2
	if depth > 0 {
		n += 1 + len(ops)
	}
	k := vf.Choose("shape", n)
	switch {
	case k == 0:
		return dRoll1(maxN)
	case k == 1:
		return num("c", 1)
	case k == 2:
		return un('m', genD(depth-1, maxN, sub, sub))
	}
	l := genD(depth-1, maxN, sub, sub)
	return bin(ops[k-3], l, genD(depth-1, maxN, sub, sub))
}

func (t *tr) rolls() int {
	if t == nil {
		return 0
	}
	n := t.l.rolls() + t.r.rolls()
	if t.op == 'D' {
		n++
	}
	return n
}

// checkSum compares a sum roll without comparison against the reference.
func checkSum(t *tr, cmd string, limit int) {
	f, r, err := run(cmd, limit)
	rf := &ref{drawn: f.drawn}
	rf.operands(t)
	rf.rollAll(t)
	total := rf.total(t)
	if rf.err != "" {
		vf.Reach("error")
		vf.Assert(err != nil, "a sum roll with an invalid operand or a division by zero was not reported as an error")
		return
	}
	vf.Reach("total")
	vf.Assert(err == nil, "a sum roll failed")
	vf.Assert(rf.pos == len(f.drawn), "more dice were drawn than the command asks for")
	p := r.MessageParts
	vf.Assert(len(p) == 3, "a sum roll does not have three message parts")
	vf.Assert(p[2] == strconv.Itoa(total), "the reported total is not the value of the expression over the dice")
	if t.showable() {
		vf.Assert(p[1] == t.show(true, true), "the intermediate part does not show the rolls in order")
	}
	vf.Assert(sameDice(r.RolledDice, f.drawn), "the rolled dice are not the dice drawn")
	vf.Assert(r.SuccessCheckResult == command.SUCCESS_CHECK_UNSPECIFIED, "success without a comparison")
}

// C02_Tree: every sum-roll expression of bounded depth.
func C02_Tree() {
	vf.MaxSplit(200)
	depth := 2
	sub := "+-*"
	if vf.Bound("all divisions below the root", 0, 1) == 1 {
		sub = arithOps
	}
	t := genD(depth, vf.Bound("dice per roll", 1, 2), arithOps, sub)
	n := t.rolls()
	vf.Assume(n >= 1 && n <= vf.Bound("rolls per command", 2, 4))
	checkSum(t, t.text(1), 8)
}

// C02_Chain: up to four terms joined with + - *, two of them rolls of several dice.
func C02_Chain() {
	k := vf.Bound("terms", 3, 4)
	n := 1 + vf.Choose("terms", k)
	t := genTerm()
	for i := 1; i < n; i++ {
		t = bin("+-"[vf.Choose("op", 2)], t, genTerm())
	}
	vf.Assume(t.rolls() >= 1)
	checkSum(t, t.text(1), vf.Bound("dice", 7, 9))
}

func genTerm() *tr {
	switch vf.Choose("term", 3) {
	case 0:
		return bin('D', numIn("n", 1, 1, 3), num("m", 2))
	case 1:
		return num("c", 2)
	}
	return bin("*/"[vf.Choose("mul", 2)], dRoll(1), num("c", 1))
}

// C02_Many: one roll of many dice.
func C02_Many() {
	n := vf.Bound("dice in one roll", 20, 60)
	t := bin('+', bin('D', numIn("n", 2, 1, n), num("m", 3)), num("c", 2))
	checkSum(t, t.text(1), n)
}

// C02_Operands: the count and the number of sides are themselves expressions.
func C02_Operands() {
	t := bin('D', genOperand("+-*/"), genOperand("+-*/"))
	if vf.Choose("more", 2) == 1 {
		t = bin('-', t, bin('D', numIn("n", 1, 1, 2), num("m", 1)))
	}
	checkSum(t, t.text(1), 6)
}

func genOperand(ops string) *tr {
	if k := vf.Choose("operand", len(ops)+1); k > 0 {
		return bin(ops[k-1], num("a", 1), num("b", 1))
	}
	return num("a", 1)
}
