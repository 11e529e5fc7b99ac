package h

import (
	"strconv"

	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

var arithOps = "+-*/RU"

// genArith is any expression of the given depth over literals of `digits` digits.
func genArith(depth, digits int, unary bool) *tr {
	n := 1
	if depth > 0 {
		n += 6
		if unary {
			n += 2
		}
	}
	k := vf.Choose("shape", n)
	switch {
	case k == 0:
		return num("n", digits)
	case k <= 6:
		l := genArith(depth-1, digits, unary)
		r := genArith(depth-1, digits, unary)
		return bin(arithOps[k-1], l, r)
	case k == 7:
		return un('m', genArith(depth-1, digits, unary))
	}
	return un('p', genArith(depth-1, digits, unary))
}

// checkCalc runs C(text of t) and compares with the reference.
func checkCalc(t *tr, cmd string) {
	f := &feed{name: "die", limit: 1}
	r, err := exec(f, cmd)
	rf := &ref{}
	want := rf.value(t)
	vf.ObsS("cmd", cmd)
	vf.Assert(len(f.drawn) == 0, "a calculation rolled a die")
	if rf.err != "" {
		vf.Reach("division by zero")
		vf.Assert(err != nil, "division by zero was not reported as an error")
		return
	}
	vf.Reach("value")
	vf.Assert(err == nil, "a calculation failed")
	vf.Assert(len(r.RolledDice) == 0, "a calculation reports dice")
	p := r.MessageParts
	vf.ObsS("last", p[len(p)-1])
	vf.Assert(p[len(p)-1] == strconv.Itoa(want), "the reported value is not the value of the expression")
}

// C01_Tree: every expression tree of depth 2 with its minimal parentheses.
func C01_Tree() {
	vf.Bound("tree depth", 2, 2)
	d := vf.Bound("digits", 1, 2)
	t := genArith(2, d, true)
	checkCalc(t, "C("+t.text(1)+")")
}

// C01_Chain: a op b op c op d with every operator, written without parentheses.
func C01_Chain() {
	n := vf.Bound("operands", 4, 5)
	t := num("n", 1)
	ops := "+-*/"
	// reference: precedence climbing over the operator list
	var operand []*tr
	var op []byte
	operand = append(operand, t)
	s := t.s
	for i := 1; i < n; i++ {
		o := ops[vf.Choose("op", 4)]
		x := num("n", 1)
		op = append(op, o)
		operand = append(operand, x)
		s += string([]byte{o}) + x.s
	}
	var sum *tr
	var sumOp byte
	cur := operand[0]
	for i, o := range op {
		if o == '*' || o == '/' {
			cur = bin(o, cur, operand[i+1])
			continue
		}
		if sum == nil {
			sum = cur
		} else {
			sum = bin(sumOp, sum, cur)
		}
		sumOp = o
		cur = operand[i+1]
	}
	if sum == nil {
		sum = cur
	} else {
		sum = bin(sumOp, sum, cur)
	}
	checkCalc(sum, "C("+s+")")
}

// node builds the tree of the code under check.
func (t *tr) node() ast.Node {
	switch t.op {
	case 'n':
		return ast.NewInt(t.n)
	case '(', 'p':
		return t.l.node()
	case 'm':
		return ast.NewUnaryMinus(t.l.node())
	case '+':
		return ast.NewAdd(t.l.node(), t.r.node())
	case '-':
		return ast.NewSubtract(t.l.node(), t.r.node())
	case '*':
		return ast.NewMultiply(t.l.node(), t.r.node())
	case '/':
		return ast.NewDivideWithRoundingDown(t.l.node(), t.r.node())
	case 'R':
		return ast.NewDivideWithRounding(t.l.node(), t.r.node())
	case 'U':
		return ast.NewDivideWithRoundingUp(t.l.node(), t.r.node())
	case 'D':
		return ast.NewDRoll(t.l.node(), t.r.node())
	case '?':
		return ast.NewRandomNumber(t.l.node(), t.r.node())
	}
	return nil
}

func newEvaluator(f feeder.DieFeeder) *evaluator.Evaluator {
	return evaluator.NewEvaluator(roller.New(f), evaluator.NewEnvironment())
}

func anyInt(name string) *tr {
	return &tr{op: 'n', n: vf.Int(name, -1<<63, 1<<63-1)}
}

func checkCalcNode(t *tr) {
	f := &feed{name: "die", limit: 1}
	r, err := command.Execute(ast.NewCalc(t.node()), "DiceBot", newEvaluator(f))
	rf := &ref{}
	want := rf.value(t)
	vf.Assert(len(f.drawn) == 0, "a calculation rolled a die")
	if rf.err != "" {
		vf.Reach("division by zero")
		vf.Assert(err != nil, "division by zero was not reported as an error")
		return
	}
	vf.Reach("value")
	vf.Assert(err == nil, "a calculation failed")
	p := r.MessageParts
	vf.ObsS("last", p[len(p)-1])
	vf.Assert(p[len(p)-1] == strconv.Itoa(want), "the reported value is not the value of the expression")
}

// C01_Wide: + - * and unary minus on arbitrary 64-bit operands, two operators.
func C01_Wide() {
	ops := "+-*"
	a := anyInt("a")
	var t *tr
	switch vf.Choose("shape", 4) {
	case 0:
		t = bin(ops[vf.Choose("op", 3)], a, anyInt("b"))
	case 1:
		t = bin(ops[vf.Choose("op", 3)], bin(ops[vf.Choose("op", 3)], a, anyInt("b")), anyInt("c"))
	case 2:
		t = bin(ops[vf.Choose("op", 3)], a, bin(ops[vf.Choose("op", 3)], anyInt("b"), anyInt("c")))
	case 3:
		t = un('m', bin(ops[vf.Choose("op", 3)], un('m', a), anyInt("c")))
	}
	checkCalcNode(t)
}

var divisors = []int{1, 2, 3, 7, 10, 100, 1000, 1 << 31, 1<<53 + 1, 1<<62 + 3, 1<<63 - 1, -1, -2, -3, -10, -(1 << 40), -1 << 63, 0}

// C01_DivBy: the three divisions of an arbitrary 64-bit dividend by each of the listed divisors.
func C01_DivBy() {
	k := vf.Choose("divisor", len(divisors))
	checkCalcNode(bin("/RU"[vf.Choose("op", 3)], anyInt("a"), lit(divisors[k])))
}

// C01_DivAny: the three divisions with both operands arbitrary.
func C01_DivAny() {
	checkCalcNode(bin("/RU"[vf.Choose("op", 3)], signedInt("a"), signedInt("b")))
}

// signedInt is anyInt with a case split on the sign.
func signedInt(name string) *tr {
	if vf.Choose(name+" is negative", 2) == 1 {
		return &tr{op: 'n', n: vf.Int(name, -1<<63, -1)}
	}
	return &tr{op: 'n', n: vf.Int(name, 0, 1<<63-1)}
}

// C01_DivDef: the rounding modes against their definition: the quotient q of a by b is the one with
// the smallest distance (half away from zero), or the least integer not below a/b.
func C01_DivDef() {
	m := vf.Bound("operand magnitude", 200, 2000)
	a, b := vf.Int("a", 0, m), vf.Int("b", 1, m)
	if vf.Choose("a is negative", 2) == 1 {
		a = -a
	}
	if vf.Choose("b is negative", 2) == 1 {
		b = -b
	}
	op := "/RU"[vf.Choose("op", 3)]
	e := newEvaluator(&feed{name: "die", limit: 1})
	obj, err := e.Eval(bin(op, lit(0), lit(0)).withInts(a, b).node())
	vf.Assert(err == nil, "a division failed")
	q, perr := strconv.Atoi(obj.Inspect())
	vf.Assert(perr == nil, "a division is not a number")
	vf.ObsI("q", q)
	d := a - q*b // a = q*b + d
	ad, ab := d, b
	if ad < 0 {
		ad = -ad
	}
	if ab < 0 {
		ab = -ab
	}
	switch op {
	case '/':
		vf.Assert(ad < ab && (d == 0 || (d < 0) == (a < 0)), "the quotient is not truncated toward zero")
	case 'R':
		vf.Assert(2*ad <= ab, "the quotient is not rounded to the nearest")
		// at the midpoint the quotient is the one farther from zero
		vf.Assert(2*ad != ab || (d < 0) != (a < 0), "a midpoint is not rounded away from zero")
	case 'U':
		// q-1 < a/b <= q
		vf.Assert(ad < ab && (d == 0 || (d < 0) != (b < 0)), "the quotient is not rounded up")
	}
}

func (t *tr) withInts(a, b int) *tr {
	t.l.n, t.r.n = a, b
	return t
}
