package h

import (
	"strconv"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// The syntax tree shown (the command .ast of the shell) is the tree of what was written.

// fill puts the literals in the places of their marks.
func fill(shape string, ints []int) string {
	out := ""
	for i := 0; i < len(shape); i++ {
		if shape[i] == '#' {
			i++
			out += strconv.Itoa(ints[int(shape[i]-'1')])
			continue
		}
		out += string([]byte{shape[i]})
	}
	return out
}

// quoted is an item of a choice in the displayed tree.
func quoted(s string) string {
	out := "\""
	for i := 0; i < len(s); i++ {
		if vf.Or(s[i] == '"', s[i] == '\\') {
			out += "\\"
		}
		out += s[i : i+1]
	}
	return out + "\""
}

// shown25 compares the tree displayed for a text with the one read by the reference reader; texts that are not
// commands are left to C16.
func shown25(s string) {
	vf.ObsS("text", s)
	p, want, ok := command16(s)
	if !ok {
		return
	}
	n, err := parser.Parse("text", []byte(s))
	if err != nil {
		return
	}
	vf.Reach("command")
	if len(p.items) > 0 {
		want = "(Choice"
		for _, i := range p.items {
			want += " " + quoted(i)
		}
		want += ")"
	} else {
		want = fill(want, p.ints)
	}
	node := n.(ast.Node)
	var ints []int
	var items []string
	before := shape(node, &ints, &items)
	got := node.SExp()
	vf.ObsS("tree", got)
	vf.Assert(got == want, "the displayed tree is not the tree of the text")
	var ints2 []int
	var items2 []string
	vf.Assert(shape(node, &ints2, &items2) == before && len(ints2) == len(ints), "displaying a tree changes it")
	for i := range ints {
		vf.Assert(ints2[i] == ints[i], "displaying a tree changes its literals")
	}
	vf.Assert(node.SExp() == want, "a tree displayed again is another one")
}

// C25_Patterns: every pattern of a command.
func C25_Patterns() {
	shown25(anyCommand("pattern", 0, len(patterns)))
}

// C25_Numbers: literals of any width are displayed exactly.
func C25_Numbers() {
	f := []string{"C(#)", "#D6", "1D#", "1D6>=#", "1R6[#]", "[1...#]D6", "[#...5]", "1U6[2]-#", "C(1/#R)", "1B6+#B6", "1D6-#", "1U#[3]", "-#+1D6"}
	x := wide("x")
	if vf.Choose("zeros", 2) == 1 {
		x = "00" + x
	}
	shown25(strings.Replace(f[vf.Choose("place", len(f))], "#", x, 1))
}

// C25_Items: items of a choice, printable characters.
func C25_Items() {
	shown25("choice[" + vf.Str("c", vf.Bound("characters", 4, 6), "a, ]\"\\[#1") + "]")
}

// C25_Chain: every combination of operators, rounding suffixes and kinds of operands in every place of an expression.
func C25_Chain() {
	s := ""
	frame := []string{"C(#)", "1D6+#", "1D6+#>=1", "1D6>=#", "1U6[2]+#", "1U6[2]-#>3", "(#)D6", "[1...#]D6", "1R6[#]", "1B6>#"}
	n := vf.Bound("operators", 2, 3)
	odd := vf.Choose("operand", n+1)
	kind := []string{"-2", "(3-4)", "-(5*6)", "+7"}[vf.Choose("kind", 4)]
	for i := 0; i <= n; i++ {
		div := false
		if i > 0 {
			op := vf.Str("op", 1, "+-*/")
			s += op
			div = op == "/"
		}
		if i == odd {
			s += kind
		} else {
			s += vf.Str("digit", 1, "0123456789")
		}
		if div {
			s += []string{"", "R", "u"}[vf.Choose("suffix", 3)]
		}
	}
	shown25(strings.Replace(frame[vf.Choose("frame", len(frame))], "#", s, 1))
}

// C25_Lists: lists of rolls with every part they may have.
func C25_Lists() {
	x := []string{"B", "R", "U"}[vf.Choose("kind", 3)]
	s := ""
	for i := vf.Choose("rolls", vf.Bound("rolls", 3, 5)); i >= 0; i-- {
		s += []string{vf.Str("n", 1, "123456789") + x + vf.Str("m", 1, "123456789"), "(1+2)" + x + "6", "[1...3]" + x + "[4...6]"}[vf.Choose("roll", 3)]
		if i > 0 {
			s += "+"
		}
	}
	if x != "B" {
		s += []string{"", "[" + vf.Str("t", 1, "23456789") + "]", "[2+3]"}[vf.Choose("threshold", 3)]
	}
	if x == "U" {
		s += []string{"", "+1", "-2", "-1+2", "+1-2*3", "-1-2", "-4/2U"}[vf.Choose("modifier", 7)]
	}
	s += []string{"", cmpOps[vf.Choose("cmp", 6)] + vf.Str("k", 1, "0123456789"), ">=-3*2"}[vf.Choose("target", 3)]
	shown25(s)
}

// C25_Long: long and deep commands.
func C25_Long() {
	d := vf.Str("digit", 1, "0123456789")
	n := 2 + vf.Choose("n", vf.Bound("operands", 30, 80))
	rep := func(s string) string { return strings.Repeat(s, n) }
	shown25([]string{
		"C(" + d + rep("+1") + ")",
		"C(" + rep("1-(") + d + rep(")") + ")",
		rep("1D6+") + d,
		"1B6" + rep("+"+d+"B6"),
		rep("1U6+") + d + "U6[3]" + rep("-2"),
		"C(" + rep("-") + d + ")",
		"1D6>=" + d + rep("/2R"),
	}[vf.Choose("shape", 7)])
}

// C25_Values: a tree built of any 64-bit numbers, and the result of a sum roll of any dice.
func C25_Values() {
	a, b := vf.Int("a", -1<<63, 1<<63-1), vf.Int("b", -1<<63, 1<<63-1)
	x, y := ast.NewInt(a), ast.NewInt(b)
	s, t := strconv.Itoa(a), strconv.Itoa(b)
	var n ast.Node
	op := ""
	switch vf.Choose("node", 12) {
	case 0:
		n, op = ast.NewAdd(x, y), "+"
	case 1:
		n, op = ast.NewSubtract(x, y), "-"
	case 2:
		n, op = ast.NewMultiply(x, y), "*"
	case 3:
		n, op = ast.NewDivideWithRoundingUp(x, y), "/U"
	case 4:
		n, op = ast.NewDivideWithRounding(x, y), "/R"
	case 5:
		n, op = ast.NewDivideWithRoundingDown(x, y), "/"
	case 6:
		op = cmpOps[vf.Choose("cmp", 6)]
		n = ast.NewCompare(x, op, y)
	case 7:
		n, op = ast.NewDRoll(x, y), "DRoll"
	case 8:
		n, op = ast.NewBRoll(x, y), "BRoll"
	case 9:
		n, op = ast.NewRRoll(x, y), "RRoll"
	case 10:
		n, op = ast.NewURoll(x, y), "URoll"
	case 11:
		n, op = ast.NewRandomNumber(x, y), "RandomNumber"
	}
	vf.Reach("node")
	vf.Assert(n.SExp() == "("+op+" "+s+" "+t+")", "an operation is not displayed with its operator and operands")
	vf.Assert(ast.NewUnaryMinus(n).SExp() == "(- ("+op+" "+s+" "+t+"))", "a negation is not displayed as one")
	r := ast.NewRRollList(ast.NewRRoll(x, y), ast.NilInstance())
	vf.Assert(r.SExp() == "(RRollList nil (RRoll "+s+" "+t+"))", "an absent threshold is not displayed as nil")
	d := []dice.Die{{Value: a, Sides: b}, {Value: b, Sides: a}}
	vf.Assert(ast.NewSumRollResult(d).SExp() == "(SumRollResult (Die "+s+" "+t+") (Die "+t+" "+s+"))", "rolled dice are not displayed in their order")
}

// C25_Executed: a command that was displayed does what it does when it was not.
func C25_Executed() {
	c := anyCommand("pattern", 0, firstBad)
	f, r, err := run(c, vf.Bound("dice", 3, 4))
	o := see(r, err)
	n, perr := parser.Parse("text", []byte(c))
	vf.Assert(perr == nil, "a command cannot be parsed")
	node := n.(ast.Node)
	shown := node.SExp()
	g := &replayFeed{dice: f.drawn}
	p := see(command.Execute(node, "DiceBot", newEvaluator(g)))
	vf.Assert(!g.bad && g.pos == len(f.drawn), "a displayed command asks for other dice")
	same(o, p, "a displayed command")
	vf.Reach("executed")
	vf.Assert(len(shown) > 0, "nothing is shown")
}
