package h

import (
	"math"
	"strconv"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// genEnd is an end of a range: a digit or a parenthesised expression of digits.
func genEnd(expr bool) *tr {
	if !expr {
		return num("p", 1)
	}
	if k := vf.Choose("end", 3); k > 0 {
		return bin("+-"[k-1], num("p", 1), num("q", 1))
	}
	return num("p", 1)
}

// genRand is an operand that may contain random numbers.
func genRand(depth int, ops string) *tr {
	wide := vf.Bound("ends of ranges are expressions", 0, 1) == 1
	n := 2
	if depth > 0 {
		n += len(ops) + 1
	}
	k := vf.Choose("operand", n)
	switch {
	case k == 0:
		return num("a", 1)
	case k == 1:
		return bin('?', genEnd(wide), genEnd(wide))
	case k == 2:
		return un('m', genRand(depth-1, ops))
	}
	l := genRand(depth-1, ops)
	return bin(ops[k-3], l, genRand(depth-1, ops))
}

// genExpr is an operand without random numbers.
func genExpr(ops string) *tr {
	k := vf.Choose("expr", len(ops)+2)
	switch k {
	case 0:
		return num("a", 1)
	case 1:
		return un('m', num("a", 1))
	}
	return bin(ops[k-2], num("a", 1), num("b", 1))
}

// litText writes a value as an operand.
func litText(v int) string {
	if v < 0 {
		return "(" + strconv.Itoa(v) + ")"
	}
	return strconv.Itoa(v)
}

// sameAsLiteral runs cmd, whose operands have the values that value computes from the dice drawn,
// and literal with the remaining dice: both must have the same outcome.
func sameAsLiteral(cmd string, limit int, value func(r *ref) string) {
	sameOutcome(cmd, limit, false, value)
}

// sameOutcome is the same; with terms, the part that shows the terms of a sum is left out, as it shows
// a negative random number and a negated literal differently.
func sameOutcome(cmd string, limit int, terms bool, value func(r *ref) string) {
	f := &feed{name: "die", limit: limit, cut: true}
	sameFrom(f, f, cmd, terms, value)
}

// sameFrom is the same with dice from a source that records them in f.
func sameFrom(f *feed, source feeder.DieFeeder, cmd string, terms bool, value func(r *ref) string) {
	vf.ObsS("cmd", cmd)
	a := see(bcdice.New(source).ExecuteCommand(cmd))
	rf := &ref{drawn: f.drawn}
	literal := value(rf)
	if rf.err != "" {
		vf.Assert(!a.ok, "an operand without a value was not reported as an error")
		vf.Reach("no value")
		return
	}
	vf.ObsS("literal", literal)
	g := &replayFeed{dice: f.drawn[rf.pos:]}
	b := see(bcdice.New(g).ExecuteCommand(literal))
	vf.Assert(a.ok == b.ok, "an error only with the operands written as expressions, or only with their values")
	if !a.ok {
		vf.Reach("refused")
		return
	}
	vf.Assert(!g.bad && g.pos == len(g.dice), "other dice are rolled than with the values of the operands")
	vf.Assert(sameDice(a.dice, f.drawn), "the rolled dice are not the dice drawn")
	vf.Assert(len(a.parts) == len(b.parts), "another message than with the values of the operands")
	for i := 1; i < len(a.parts); i++ {
		if terms && i == 1 {
			continue
		}
		vf.Assert(vf.StrEq(a.parts[i], b.parts[i]), "another outcome than with the values of the operands")
	}
	vf.Assert(a.succ == b.succ, "another success flag than with the values of the operands")
	vf.Reach("same")
}

// C18_Roll: one roll of every kind with operands of depth 1.
func C18_Roll() {
	ops := "+-"
	if vf.Bound("all operators", 0, 1) == 1 {
		ops = arithOps
	}
	var n, m *tr
	if vf.Choose("deep", 2) == 0 {
		n, m = genRand(1, ops), genRand(0, ops)
	} else {
		n, m = genRand(0, ops), genRand(1, ops)
	}
	k := vf.Choose("kind", 4)
	kind := string([]byte{"DBRU"[k]})
	suffix := []string{"", ">=4", "[5]", "[5]"}[k]
	sameAsLiteral(n.operand()+kind+m.operand()+suffix, vf.Bound("dice", 4, 6), func(r *ref) string {
		nv := r.value(n)
		mv := r.value(m)
		return litText(nv) + kind + litText(mv) + suffix
	})
}

// C18_Threshold: thresholds and targets that are expressions.
func C18_Threshold() {
	t, c := num("t", 1), num("c", 1)
	i := vf.Choose("expression", vf.Bound("expressions at once", 2, 3))
	if i != 1 {
		t = genExpr(arithOps)
	}
	if i != 0 {
		c = genExpr("+-*/")
	}
	op := []string{"=", "<", ">="}[vf.Choose("cmp", 3)]
	switch vf.Choose("kind", 6) {
	case 0:
		sameAsLiteral("2R6["+t.text(1)+"]", 4, func(r *ref) string { return "2R6[" + litText(r.value(t)) + "]" })
	case 1:
		sameAsLiteral("1R6["+t.text(1)+"]"+op+c.text(1), 3, func(r *ref) string {
			tv := r.value(t)
			return "1R6[" + litText(tv) + "]" + op + litText(r.value(c))
		})
	case 2:
		sameAsLiteral("1U6["+t.text(1)+"]", 3, func(r *ref) string { return "1U6[" + litText(r.value(t)) + "]" })
	case 3:
		sameAsLiteral("2U6[4]+"+t.text(2)+op+c.text(1), 4, func(r *ref) string {
			tv := r.value(t)
			return "2U6[4]+" + litText(tv) + op + litText(r.value(c))
		})
	case 4:
		sameAsLiteral("2B9"+op+c.text(1), 2, func(r *ref) string { return "2B9" + op + litText(r.value(c)) })
	case 5:
		sameAsLiteral("2D9"+op+t.text(1), 2, func(r *ref) string { return "2D9" + op + litText(r.value(t)) })
	}
}

// C18_Lists: random numbers in several rolls of one command are drawn from left to right.
func C18_Lists() {
	k := vf.Choose("kind", 4)
	kind := string([]byte{"DBRU"[k]})
	suffix := []string{"-1>=4", "", "[6]", "[6]+2"}[k]
	a, b := bin('?', num("p", 1), num("q", 1)), bin('?', lit(1), num("q", 1))
	c, d := bin('?', lit(1), lit(2)), bin('?', bin('-', num("p", 1), lit(1)), lit(5))
	switch vf.Choose("form", 4) {
	case 0:
		sameAsLiteral("1"+kind+a.operand()+"+"+c.operand()+kind+d.operand()+suffix, 6, func(r *ref) string {
			av, cv := r.value(a), r.value(c)
			dv := r.value(d)
			return "1" + kind + litText(av) + "+" + litText(cv) + kind + litText(dv) + suffix
		})
	case 1:
		sameAsLiteral(c.operand()+kind+b.operand()+"+1"+kind+a.operand()+suffix, 6, func(r *ref) string {
			cv, bv := r.value(c), r.value(b)
			av := r.value(a)
			return litText(cv) + kind + litText(bv) + "+1" + kind + litText(av) + suffix
		})
	case 2:
		e := bin('*', bin('?', lit(0), num("q", 1)), bin('?', lit(1), lit(3)))
		sameAsLiteral("1"+kind+e.operand()+"+1"+kind+b.operand()+suffix, 6, func(r *ref) string {
			ev := r.value(e)
			bv := r.value(b)
			return "1" + kind + litText(ev) + "+1" + kind + litText(bv) + suffix
		})
	case 3:
		e := bin('-', bin('?', num("p", 1), lit(9)), bin('-', bin('?', lit(2), lit(4)), lit(1)))
		sameAsLiteral("1"+kind+"6+1"+kind+e.operand()+suffix, 6, func(r *ref) string {
			return "1" + kind + "6+1" + kind + litText(r.value(e)) + suffix
		})
	}
}

// C18_Terms: random numbers as terms of a sum roll.
func C18_Terms() {
	a, b := bin('?', genEnd(true), num("q", 1)), bin('?', lit(2), num("q", 1))
	x := bin('D', lit(1), lit(6))
	forms := []*tr{
		bin('+', x, a), bin('-', x, a), bin('-', a, bin('*', x, b)), bin('+', bin('*', a, b), x), un('m', bin('-', a, x)),
		bin('*', bin('+', a, lit(1)), bin('-', x, b)), bin('+', bin('/', x, b), a), bin('-', bin('D', b, lit(2)), bin('-', a, lit(3))),
		bin('+', a, bin('D', lit(1), b)), bin('R', x, b),
	}
	i := vf.Choose("form", vf.Bound("forms", len(forms)-1, len(forms)))
	t, suffix := forms[i], ""
	if vf.Choose("compared", 2) == 1 {
		vf.Assume(i < vf.Bound("compared forms", 3, len(forms)))
		suffix = "<=7"
	}
	sameOutcome(t.text(1)+suffix, 5, true, func(r *ref) string {
		r.operands(t)
		return t.fixed().text(1) + suffix
	})
}

// fixed is t with its evaluated operands as literals.
func (t *tr) fixed() *tr {
	if t == nil {
		return nil
	}
	switch t.op {
	case 'n':
		if t.n < 0 {
			return un('(', &tr{op: 'n', n: t.n, s: strconv.Itoa(t.n)})
		}
		return t
	case 'D':
		return bin('D', &tr{op: 'n', n: t.nv, s: litText(t.nv)}, &tr{op: 'n', n: t.mv, s: litText(t.mv)})
	}
	return &tr{op: t.op, l: t.l.fixed(), r: t.r.fixed()}
}

// C18_Range: a range between any two integers.
func C18_Range() {
	a, b := vf.Int("a", math.MinInt64, math.MaxInt64), vf.Int("b", math.MinInt64, math.MaxInt64)
	f := &feed{name: "die", limit: 3}
	n := ast.NewDRollExpr(ast.NewAdd(ast.NewDRoll(ast.NewInt(1), ast.NewInt(1)), ast.NewRandomNumber(ast.NewInt(a), ast.NewInt(b))))
	if vf.Choose("compared", 2) == 1 {
		n = ast.NewDRollComp(ast.NewCompare(ast.NewAdd(ast.NewDRoll(ast.NewInt(1), ast.NewInt(1)), ast.NewRandomNumber(ast.NewInt(a), ast.NewInt(b))), ">", ast.NewInt(0)))
	}
	r, err := command.Execute(n, "DiceBot", newEvaluator(f))
	if a >= b {
		vf.Assert(err != nil, "a range that is not increasing was accepted")
		vf.Assert(len(f.drawn) == 0, "a die was rolled for a range that is not increasing")
		return
	}
	if uint(b)-uint(a) > math.MaxInt64-1 {
		vf.Assert(err != nil, "a range with too many values was accepted")
		return
	}
	vf.Assert(err == nil, "an increasing range was refused")
	vf.Assert(len(f.drawn) == 2, "a random number is not exactly one die")
	vf.Assert(f.drawn[0].Sides == b-a+1, "the die of a random number has not one side for every integer of the range")
	v := a + (f.drawn[0].Value - 1) + 1
	vf.Assert(vf.StrEq(r.MessageParts[2], strconv.Itoa(v)), "a random number is not the integer of the range at the die's position")
	vf.Reach("drawn")
}
