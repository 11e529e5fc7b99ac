package h

import (
	"strconv"

	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// The reference: expression trees with their own text form and their own meaning, independent of
// the parser, evaluator and notation packages.

// tr is an expression.
//
// op: n literal, m unary minus, p unary plus, + - * arithmetic, / R U division (down, half away
// from zero, up), D sum roll, ? random number l...r, ( redundant parentheses.
type tr struct {
	op   byte
	l, r *tr
	n    int
	s    string

	nv, mv int // D: count and sides, ?: unused
	v      int // value, once evaluated
	roll   string
}

// num is a decimal literal of that many digits, all values.
func num(name string, digits int) *tr {
	s := vf.Str(name, digits, "0123456789")
	v := 0
	for i := 0; i < digits; i++ {
		v = v*10 + int(s[i]-'0')
	}
	return &tr{op: 'n', n: v, s: s}
}

// numIn is a literal of one or two digits restricted to lo..hi.
func numIn(name string, digits, lo, hi int) *tr {
	t := num(name, digits)
	vf.Assume(vf.And(lo <= t.n, t.n <= hi))
	return t
}

func lit(v int) *tr { return &tr{op: 'n', n: v, s: strconv.Itoa(v)} }

func un(op byte, l *tr) *tr     { return &tr{op: op, l: l} }
func bin(op byte, l, r *tr) *tr { return &tr{op: op, l: l, r: r} }

func prec(op byte) int {
	switch op {
	case '+', '-':
		return 1
	case '*', '/', 'R', 'U':
		return 2
	}
	return 3
}

// text writes t so that it reads back as t where at least precedence p is needed.
func (t *tr) text(p int) string {
	var s string
	switch t.op {
	case 'n':
		return t.s
	case '(':
		return "(" + t.l.text(1) + ")"
	case 'm':
		return "-" + t.l.text(3)
	case 'p':
		return "+" + t.l.text(3)
	case 'D':
		return t.l.operand() + "D" + t.r.operand()
	case '?':
		return "[" + t.l.intOperand() + "..." + t.r.intOperand() + "]"
	case '+', '-', '*', '/':
		s = t.l.text(prec(t.op)) + string([]byte{t.op}) + t.r.text(prec(t.op)+1)
	case 'R', 'U':
		s = t.l.text(2) + "/" + t.r.text(3) + string([]byte{t.op})
	}
	if prec(t.op) < p {
		return "(" + s + ")"
	}
	return s
}

// operand writes t as a count or number of sides.
func (t *tr) operand() string {
	switch t.op {
	case 'n', '?', '(':
		return t.text(3)
	}
	return "(" + t.text(1) + ")"
}

// intOperand writes t as an end of a random-number range.
func (t *tr) intOperand() string {
	switch t.op {
	case 'n', '(':
		return t.text(3)
	}
	return "(" + t.text(1) + ")"
}

// ref evaluates trees against the dice that the code under check drew.
type ref struct {
	drawn []dice.Die
	pos   int
	err   string
}

// die is the next die drawn; it must have been asked for with these sides.
func (r *ref) die(sides int) int {
	vf.Assert(r.pos < len(r.drawn), "fewer dice were drawn than the command asks for")
	d := r.drawn[r.pos]
	r.pos++
	vf.Assert(d.Sides == sides, "a die with other sides than written was drawn")
	return d.Value
}

func (r *ref) fail(why string) int {
	if r.err == "" {
		r.err = why
	}
	return 0
}

func half(a, b int) int {
	q := a / b
	m := a % b
	if m == 0 {
		return q
	}
	am, ab := m, b
	if am > 0 {
		am = -am
	}
	if ab > 0 {
		ab = -ab
	}
	// |m|*2 < |b| exactly when -|m| > -|b|+|m|
	if am > ab-am {
		return q
	}
	if (m < 0) == (b < 0) {
		return q + 1
	}
	return q - 1
}

func up(a, b int) int {
	q := a / b
	if a%b != 0 && (a%b < 0) == (b < 0) {
		return q + 1
	}
	return q
}

// arith is the meaning of an arithmetic operator.
func (r *ref) arith(op byte, a, b int) int {
	switch op {
	case '+':
		return a + b
	case '-':
		return a - b
	case '*':
		return a * b
	}
	if b == 0 {
		return r.fail("division by zero")
	}
	switch op {
	case '/':
		return a / b
	case 'R':
		return half(a, b)
	}
	return up(a, b)
}

// value of an integer expression, drawing embedded random numbers left to right.
func (r *ref) value(t *tr) int {
	if r.err != "" {
		return 0
	}
	switch t.op {
	case 'n':
		t.v = t.n
	case '(', 'p':
		t.v = r.value(t.l)
	case 'm':
		t.v = -r.value(t.l)
	case '?':
		a := r.value(t.l)
		b := r.value(t.r)
		if r.err != "" {
			return 0
		}
		if a >= b {
			return r.fail("range not increasing")
		}
		t.v = a + r.die(b-a+1) - 1
	default:
		a := r.value(t.l)
		b := r.value(t.r)
		if r.err != "" {
			return 0
		}
		t.v = r.arith(t.op, a, b)
	}
	return t.v
}

// operands fixes every count and number of sides and every random number of a sum roll.
func (r *ref) operands(t *tr) {
	if t == nil || r.err != "" {
		return
	}
	switch t.op {
	case 'n':
	case 'D':
		t.nv = r.value(t.l)
		t.mv = r.value(t.r)
	case '?':
		v := r.value(t)
		t.op, t.n, t.s = 'n', v, strconv.Itoa(v)
	default:
		r.operands(t.l)
		r.operands(t.r)
	}
}

// rollAll rolls every sum roll left to right.
func (r *ref) rollAll(t *tr) {
	if t == nil || r.err != "" {
		return
	}
	if t.op == 'D' {
		if t.nv < 1 || t.mv < 1 {
			r.fail("count or sides below 1")
			return
		}
		sum := 0
		list := ""
		for i := 0; i < t.nv; i++ {
			v := r.die(t.mv)
			sum += v
			if i > 0 {
				list += ","
			}
			list += strconv.Itoa(v)
		}
		t.v = sum
		t.roll = strconv.Itoa(sum) + "[" + list + "]"
		return
	}
	r.rollAll(t.l)
	r.rollAll(t.r)
}

// total is the value of a sum roll once rolled.
func (r *ref) total(t *tr) int {
	if r.err != "" {
		return 0
	}
	switch t.op {
	case 'n':
		return t.n
	case 'D':
		return t.v
	case '(', 'p':
		return r.total(t.l)
	case 'm':
		return -r.total(t.l)
	}
	a := r.total(t.l)
	b := r.total(t.r)
	if r.err != "" {
		return 0
	}
	return r.arith(t.op, a, b)
}

// show is the infix notation with the fewest parentheses: left tells whether t starts at the left
// end of the text or of a parenthesis.
func (t *tr) show(left bool, rolled bool) string {
	switch t.op {
	case 'n':
		return strconv.Itoa(t.n)
	case '(', 'p':
		return t.l.show(left, rolled)
	case 'D':
		if rolled {
			return t.roll
		}
		return strconv.Itoa(t.nv) + "D" + strconv.Itoa(t.mv)
	case 'm':
		c := t.l.strip()
		if c.op == 'n' || c.op == 'D' {
			return "-" + c.show(left, rolled)
		}
		return "-(" + c.show(true, rolled) + ")"
	}
	l, r := t.l.strip(), t.r.strip()
	var ls, rs string
	switch {
	case l.op == 'm' && left:
		ls = l.show(true, rolled)
	case l.op == 'm':
		ls = "(" + l.show(true, rolled) + ")"
	case prec(l.op) < prec(t.op):
		ls = "(" + l.show(true, rolled) + ")"
	default:
		ls = l.show(left, rolled)
	}
	switch {
	case r.op == 'm':
		rs = "(" + r.show(true, rolled) + ")"
	case prec(r.op) < prec(t.op), prec(r.op) == prec(t.op) && t.op != '+' && t.op != '*':
		rs = "(" + r.show(true, rolled) + ")"
	default:
		rs = r.show(false, rolled)
	}
	switch t.op {
	case 'R', 'U':
		return ls + "/" + rs + string([]byte{t.op})
	}
	return ls + string([]byte{t.op}) + rs
}

func (t *tr) strip() *tr {
	for t.op == '(' || t.op == 'p' {
		t = t.l
	}
	return t
}

// showable tells whether the notation of t is not subject to the recorded finding about a product
// whose right operand is a division.
func (t *tr) showable() bool {
	if t == nil {
		return true
	}
	if t.op == '*' {
		switch t.r.strip().op {
		case '/', 'R', 'U':
			return false
		}
	}
	return t.l.showable() && t.r.showable()
}

var cmpOps = []string{"=", "<>", "<=", "<", ">=", ">"}

func holds(op string, a, b int) bool {
	switch op {
	case "=":
		return a == b
	case "<>":
		return a != b
	case "<=":
		return a <= b
	case "<":
		return a < b
	case ">=":
		return a >= b
	}
	return a > b
}

// wsign is a modifier as it is shown.
func modText(m int) string {
	if m == 0 {
		return ""
	}
	if m > 0 {
		return "+" + strconv.Itoa(m)
	}
	return strconv.Itoa(m)
}
