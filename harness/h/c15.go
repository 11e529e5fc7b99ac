package h

import (
	"strconv"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

func survive(text string, limit int) {
	vf.ObsS("text", text)
	f := &wild{limit: limit}
	o := see(exec(f, text))
	vf.ObsB("ok", o.ok)
	if o.ok {
		vf.Reach("result")
	} else {
		vf.Reach("error")
	}
}

// C15_Bytes: arbitrary bytes.
func C15_Bytes() {
	survive(vf.Str("c", vf.Choose("length", 1+vf.Bound("bytes", 3, 4)), ""), 2)
}

// C15_Alphabet: the characters of the language.
func C15_Alphabet() {
	survive(vf.Str("c", vf.Bound("characters", 6, 7), "12DBRUC(+*/)[.]=> "), 2)
}

// C15_Patterns: all patterns with any source.
func C15_Patterns() {
	survive(anyCommand("pattern", 0, len(patterns))+[]string{"", " ", "x", ")", "]"}[vf.Choose("tail", 5)], vf.Bound("dice", 2, 3))
}

// C15_Mutated: a pattern with one arbitrary byte put in, taken out or replaced.
func C15_Mutated() {
	p := patterns[vf.Choose("pattern", firstBad)]
	if vf.Bound("every operator", 0, 1) == 0 {
		p = strings.Replace(strings.Replace(p, "?", ">=", -1), "~", "+", -1)
	}
	s := pick(p, nil)
	i := vf.Choose("at", len(s))
	alphabet := "1D-(., \t\xff"
	if vf.Bound("every byte value", 0, 1) == 1 {
		alphabet = ""
	}
	b := vf.Str("byte", 1, alphabet)
	switch vf.Choose("mutation", 3) {
	case 0:
		s = s[:i] + b + s[i:]
	case 1:
		s = s[:i] + b + s[i+1:]
	case 2:
		s = s[:i] + s[i+1:]
	}
	survive(s, 2)
}

// wide is a literal of up to 21 digits: a few free digits in front, and at the limits of the integers.
func wide(name string) string {
	switch vf.Choose(name+" form", 6) {
	case 0:
		return vf.Str(name, 2, "0123456789")
	case 1:
		return vf.Str(name, 2, "0123456789") + strings.Repeat("0", 16)
	case 2:
		return vf.Str(name, 1, "123456789") + strings.Repeat("9", vf.Choose(name+" digits", 3)+17)
	case 3:
		return "9223372036854775" + vf.Str(name, 3, "0123456789")
	case 4:
		return "1844674407370955" + vf.Str(name, 4, "0123456789")
	}
	return "2147483" + vf.Str(name, 3, "0123456789")
}

// C15_Huge: numbers of up to 20 digits at every place of a command.
func C15_Huge() {
	x := wide("x")
	y := vf.Str("y", 1, "0123456789")
	if vf.Choose("both wide", 2) == 1 {
		if vf.Bound("two wide numbers of every form", 0, 1) == 1 {
			y = wide("y")
		} else {
			y = "9223372036854775" + vf.Str("y", 3, "0123456789")
		}
	}
	list := []string{
		"C(x*y)", "C(x+y*-1)", "C(-x/yU)", "C(x/yR)", "xDy", "1Dy+x", "1D6>=x", "xBy", "1By>=x", "1Ry[x]", "xRy[2]", "1Uy[x]", "xUy[2]+1", "1U6[6]+x",
		"[x...y]D6", "1D[x...y]", "(x-y)D6", "1D(x*y)", "1D6*x", "1Dx*y", "1B6+xB6>=1", "1R6>=x",
	}
	s := list[vf.Choose("place", len(list))]
	t := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 'x':
			t += x
		case 'y':
			t += y
		default:
			t += s[i : i+1]
		}
	}
	survive(t, 2)
}

// C15_Deep: nesting and repetition; what takes very long is run natively against the clock.
func C15_Deep() {
	vf.MaxSteps(3000000)
	n := vf.Bound("levels", 40, 120)
	open := []string{"(", "-(", "1*(", "1D(", "1/(", "(1+", "1D6+(", "[1...(", "1R6[(", "1B("}
	mid := []string{"1", "1D6", "", "[1...2]"}
	end := []string{")", ")D6", ")U", ")*1", ")...2]", ")]"}
	o, m, e := open[vf.Choose("open", len(open))], mid[vf.Choose("mid", len(mid))], end[vf.Choose("close", len(end))]
	pre := []string{"", "C(", "1D6>="}[vf.Choose("prefix", 3)]
	s := pre + strings.Repeat(o, n) + m + strings.Repeat(e, n)
	if pre == "C(" {
		s += ")"
	}
	vf.ObsS("text", s)
	f := &feed{name: "die", limit: 100}
	o1 := see(exec(f, s))
	vf.ObsB("ok", o1.ok)
}

// C15_Nodes: parsed or not, any tree of the command kinds with any operands.
func C15_Nodes() {
	a, b, c, t := anyInt("a").node(), anyInt("b").node(), anyInt("c").node(), anyInt("t").node()
	vf.Assume(true)
	var n ast.Node
	op := cmpOps[vf.Choose("cmp", 6)]
	switch vf.Choose("kind", 9) {
	case 0:
		n = ast.NewDRollExpr(ast.NewMultiply(ast.NewDRoll(a, b), c))
	case 1:
		n = ast.NewDRollComp(ast.NewCompare(ast.NewSubtract(c, ast.NewDRoll(a, b)), op, t))
	case 2:
		n = ast.NewBRollList(ast.NewBRoll(a, b))
	case 3:
		n = ast.NewBRollComp(ast.NewCompare(ast.NewBRollList(ast.NewBRoll(a, b)), op, t))
	case 4:
		n = ast.NewRRollList(ast.NewRRoll(a, b), t)
	case 5:
		n = ast.NewRRollComp(ast.NewCompare(ast.NewRRollList(ast.NewRRoll(a, b), c), op, t))
	case 6:
		l := ast.NewRRollList(ast.NewURoll(a, b), t)
		n = ast.NewURollExpr(l, ast.NewAdd(l, c))
	case 7:
		n = ast.NewDRollExpr(ast.NewDRoll(ast.NewRandomNumber(a, b), c))
	case 8:
		n = ast.NewCalc(ast.NewDivideWithRoundingUp(ast.NewMultiply(a, b), c))
	}
	f := &wild{limit: 2}
	ev := evaluator.NewEvaluator(roller.New(f), evaluator.NewEnvironment())
	ev.MaxRerolls = 2
	o := see(command.Execute(n, "DiceBot", ev))
	if o.ok {
		vf.Reach("result")
	} else {
		vf.Reach("error")
	}
}

// C15_Framed: arbitrary bytes at the places of a command where something is written.
func C15_Framed() {
	list := []string{"CHOICE[#]", "CHOICE[#,a]", "CHOICE[a,#", "1D6#", "#D6", "1D#", "C(1#)", "1R6[#", "1U6[6]#", "1B6>#", "[1...#]D6", "S#"}
	s := list[vf.Choose("place", len(list))]
	x := vf.Str("x", vf.Choose("length", vf.Bound("bytes", 2, 3))+1, "")
	survive(strings.Replace(s, "#", x, 1), 2)
}

// C15_Many: very many dice, rolls, groups, items, characters.
func C15_Many() {
	k := []int{20, 300, 2000}[vf.Choose("size", vf.Bound("sizes", 2, 3))]
	n := strconv.Itoa(k)
	many := func(x, sep string, n int) string { return x + strings.Repeat(sep+x, n-1) }
	list := []string{
		many("1000U6", "+", 1+k/100) + "[7]", many("1000U6", "+", 1+k/100) + "[7]-3>=2", many("1000R6", "+", 1+k/100) + "[7]", many("1000B6", "+", 1+k/100) + ">1",
		many("1000D6", "+", 1+k/100), many("1U6", "+", k) + "[6]", many("1R6", "+", k) + "[6]", many("1B6", "+", k), many("[1...2]", "*", k) + "+1D6",
		"CHOICE[" + many("a", ",", k) + "]", "CHOICE[" + strings.Repeat("x", 10*k) + "]", "C(" + many("1", "+", k) + ")", "C(1" + strings.Repeat("0", k) + ")",
		"C(1) " + strings.Repeat("y", 10*k), strings.Repeat("0", k) + "1D6", "1D6" + many("+1", "-0", k) + ">=" + n,
	}
	s := list[vf.Choose("command", len(list))]
	vf.ObsI("length", len(s))
	at := []int{0, k - 1, 999, 1000}[vf.Choose("open", 4)]
	f := &mostly{feed{name: "die", limit: 30000}, func(i int) bool { return i == at }}
	o := see(exec(f, s))
	vf.ObsB("ok", o.ok)
	vf.Reach("answer")
}
