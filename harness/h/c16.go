package h

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// peg reads a text by the documented grammar; the value of a rule is the S-expression of what was read.
type peg struct {
	s     string
	i     int
	rand  int  // random elements read
	over  bool // an integer does not fit
	ints  []int
	items []string
}

func (p *peg) eat(c byte) bool {
	if p.i < len(p.s) && p.s[p.i] == c {
		p.i++
		return true
	}
	return false
}

// letter reads a letter in either case; c is upper-case.
func (p *peg) letter(c byte) bool {
	if p.i < len(p.s) && vf.Or(p.s[p.i] == c, p.s[p.i] == c+32) {
		p.i++
		return true
	}
	if c == 'I' && strings.HasPrefix(p.s[p.i:], "\u0130") { // its lower case is i
		p.i += 2
		return true
	}
	return false
}

// back undoes what was read since the state was saved.
func (p *peg) back(q peg) {
	p.i, p.rand, p.ints, p.items = q.i, q.rand, q.ints, q.items
}

// mark stands for the n-th literal of a text.
func mark(n int) string {
	return string([]byte{'#', byte('0' + n)})
}

// integer reads a literal; its shape is a mark, its value is kept aside.
func (p *peg) integer() (string, bool) {
	start := p.i
	for p.i < len(p.s) && vf.And('0' <= p.s[p.i], p.s[p.i] <= '9') {
		p.i++
	}
	if p.i == start {
		return "", false
	}
	for start < p.i-19 && p.s[start] == '0' {
		start++
	}
	d := p.s[start:p.i]
	if len(d) > 19 || len(d) == 19 && d > "9223372036854775807" {
		p.over = true
	}
	v := 0
	for i := 0; i < len(d); i++ {
		v = v*10 + int(d[i]-'0')
	}
	p.ints = append(p.ints, v)
	return mark(len(p.ints)), true
}

// kinds of expressions: only constants, with dice, with random numbers
const (
	onlyInt = iota
	withDice
	withRand
)

func (p *peg) additive(kind int) (string, bool) {
	x, ok := p.product(kind)
	for ok {
		q := *p
		op := ""
		if p.eat('+') {
			op = "+"
		} else if p.eat('-') {
			op = "-"
		} else {
			break
		}
		y, k := p.product(kind)
		if !k {
			p.back(q)
			break
		}
		x = "(" + op + " " + x + " " + y + ")"
	}
	return x, ok
}

func (p *peg) product(kind int) (string, bool) {
	x, ok := p.primary(kind)
	for ok {
		q := *p
		if p.eat('/') {
			if y, k := p.primary(kind); k {
				if p.letter('U') {
					x = "(/U " + x + " " + y + ")"
					continue
				}
				if p.letter('R') {
					x = "(/R " + x + " " + y + ")"
					continue
				}
				x = "(/ " + x + " " + y + ")"
				continue
			}
			p.back(q)
			break
		}
		if !p.eat('*') {
			break
		}
		y, k := p.primary(kind)
		if !k {
			p.back(q)
			break
		}
		x = "(* " + x + " " + y + ")"
	}
	return x, ok
}

func (p *peg) primary(kind int) (string, bool) {
	q := *p
	if kind == withDice {
		if x, ok := p.roll('D'); ok {
			return x, true
		}
		p.back(q)
	}
	if kind != onlyInt {
		if x, ok := p.random(); ok {
			return x, true
		}
		p.back(q)
	}
	if x, ok := p.integer(); ok {
		return x, true
	}
	if p.eat('+') {
		x, ok := p.primary(kind)
		if !ok {
			p.back(q)
		}
		return x, ok
	}
	if p.eat('-') {
		x, ok := p.primary(kind)
		if !ok {
			p.back(q)
		}
		return "(- " + x + ")", ok
	}
	return p.paren(kind)
}

func (p *peg) paren(kind int) (string, bool) {
	q := *p
	if p.eat('(') {
		if x, ok := p.additive(kind); ok && p.eat(')') {
			return x, true
		}
	}
	p.back(q)
	return "", false
}

func (p *peg) random() (string, bool) {
	q := *p
	if p.eat('[') {
		if x, ok := p.limit(); ok && p.eat('.') && p.eat('.') && p.eat('.') {
			if y, ok := p.limit(); ok && p.eat(']') {
				p.rand++
				return "(RandomNumber " + x + " " + y + ")", true
			}
		}
	}
	p.back(q)
	return "", false
}

func (p *peg) limit() (string, bool) {
	if x, ok := p.integer(); ok {
		return x, true
	}
	return p.paren(onlyInt)
}

func (p *peg) operand() (string, bool) {
	if x, ok := p.integer(); ok {
		return x, true
	}
	if x, ok := p.random(); ok {
		return x, true
	}
	return p.paren(withRand)
}

func (p *peg) roll(letter byte) (string, bool) {
	q := *p
	if n, ok := p.operand(); ok && p.letter(letter) {
		if m, ok := p.operand(); ok {
			p.rand++
			return "(" + string([]byte{letter}) + "Roll " + n + " " + m + ")", true
		}
	}
	p.back(q)
	return "", false
}

// rolls is a list of rolls; R and U have a threshold.
func (p *peg) rolls(letter byte) (string, bool) {
	x, ok := p.roll(letter)
	if !ok {
		return "", false
	}
	for {
		q := *p
		if p.eat('+') {
			if y, ok := p.roll(letter); ok {
				x += " " + y
				continue
			}
		}
		p.back(q)
		break
	}
	if letter == 'B' {
		return "(BRollList " + x + ")", true
	}
	th := "nil"
	q := *p
	if p.eat('[') {
		if t, ok := p.additive(onlyInt); ok && p.eat(']') {
			th = t
		} else {
			p.back(q)
		}
	}
	x = "(RRollList " + th + " " + x + ")"
	if letter == 'R' {
		return x, true
	}
	q = *p
	if plus := p.eat('+'); plus || p.eat('-') {
		if first, ok := p.product(onlyInt); ok {
			op, n := "+", 0
			sum := first
			if !plus {
				sum = "(- " + first + ")"
			}
			for {
				q := *p
				o := ""
				if p.eat('+') {
					o = "+"
				} else if p.eat('-') {
					o = "-"
				} else {
					break
				}
				y, k := p.product(onlyInt)
				if !k {
					p.back(q)
					break
				}
				n++
				sum = "(" + o + " " + sum + " " + y + ")"
			}
			if !plus && n == 0 {
				op, sum = "-", first
			}
			return "(URollExpr (" + op + " " + x + " " + sum + "))", true
		}
		p.back(q)
	}
	return "(URollExpr " + x + ")", true
}

func (p *peg) compare() (string, bool) {
	switch {
	case p.eat('='):
		return "=", true
	case p.eat('<'):
		if p.eat('>') {
			return "<>", true
		}
		if p.eat('=') {
			return "<=", true
		}
		return "<", true
	case p.eat('>'):
		if p.eat('=') {
			return ">=", true
		}
		return ">", true
	}
	return "", false
}

// compared is a left side, an operator and a target.
func (p *peg) compared(name string, left func() (string, bool)) (string, bool) {
	q := *p
	if x, ok := left(); ok {
		if op, ok := p.compare(); ok {
			if y, ok := p.additive(onlyInt); ok {
				return "(" + name + " (" + op + " " + x + " " + y + "))", true
			}
		}
	}
	p.back(q)
	return "", false
}

func (p *peg) spaces() {
	for p.i < len(p.s) {
		r, n := utf8.DecodeRuneInString(p.s[p.i:])
		if !unicode.IsSpace(r) {
			return
		}
		p.i += n
	}
}

func (p *peg) choice() (string, bool) {
	for _, c := range "CHOICE" {
		if !p.letter(byte(c)) {
			return "", false
		}
	}
	if !p.eat('[') {
		return "", false
	}
	x := "Choice"
	for {
		q := *p
		p.spaces()
		start := p.i
		for p.i < len(p.s) && p.s[p.i] != ']' && p.s[p.i] != ',' {
			p.i++
		}
		if p.i == start {
			p.back(q)
			if len(p.items) == 0 {
				return "", false
			}
			// after a comma: a trailing comma and spaces
			p.spaces()
			return x, p.eat(']')
		}
		p.items = append(p.items, strings.TrimSpace(p.s[start:p.i]))
		if !p.eat(',') {
			return x, p.eat(']')
		}
	}
}

func (p *peg) calc() (string, bool) {
	if p.letter('C') && p.eat('(') {
		if x, ok := p.additive(onlyInt); ok && p.eat(')') {
			return "(Calc " + x + ")", true
		}
	}
	return "", false
}

// command16 reads a whole text.
func command16(s string) (*peg, string, bool) {
	p := &peg{s: s}
	start := *p
	if x, ok := p.choice(); ok {
		return p, x, true
	}
	p.back(start)
	if x, ok := p.calc(); ok {
		return p, x, !p.over
	}
	p.back(start)
	x, ok := "", false
	for _, c := range []byte("BRUD") {
		c := c
		kind, left := string([]byte{c})+"RollComp", func() (string, bool) { return p.rolls(c) }
		if c == 'D' {
			left = func() (string, bool) { return p.additive(withDice) }
		}
		if x, ok = p.compared(kind, left); ok {
			break
		}
		x, ok = left()
		if c == 'D' {
			x = "(DRollExpr " + x + ")"
		}
		if ok {
			break
		}
		p.back(start)
	}
	return p, x, ok && p.i == len(s) && p.rand > 0 && !p.over
}

// shape writes the structure of a tree, marks standing for the literals, and collects their values.
func shape(n ast.Node, ints *[]int, items *[]string) string {
	switch n := n.(type) {
	case *ast.Int:
		*ints = append(*ints, n.Value)
		return mark(len(*ints))
	case *ast.Choice:
		for _, i := range n.Items {
			*items = append(*items, i.Value)
		}
		return "Choice"
	case *ast.Command:
		return "(" + n.Type().String() + " " + shape(n.Expression, ints, items) + ")"
	case *ast.BRollList:
		x := "(BRollList"
		for _, r := range n.BRolls {
			x += " " + shape(r, ints, items)
		}
		return x + ")"
	case *ast.RRollList:
		x := ""
		for _, r := range n.RRolls {
			x += " " + shape(r, ints, items)
		}
		if n.Threshold.IsNil() {
			return "(RRollList nil" + x + ")"
		}
		return "(RRollList " + shape(n.Threshold, ints, items) + x + ")"
	case *ast.URollExpr:
		x := shape(n.URollList, ints, items)
		if n.Bonus == nil {
			return "(URollExpr " + x + ")"
		}
		return "(URollExpr (" + n.Bonus.Operator() + " " + x + " " + shape(n.Bonus.Right(), ints, items) + "))"
	case ast.PrefixExpression:
		return "(" + n.Operator() + " " + shape(n.Right(), ints, items) + ")"
	case ast.InfixExpression:
		op := n.Operator()
		switch n.Type() {
		case ast.RANDOM_NUMBER_NODE:
			op = "RandomNumber"
		case ast.D_ROLL_NODE, ast.B_ROLL_NODE, ast.R_ROLL_NODE, ast.U_ROLL_NODE:
			op += "Roll"
		}
		x := shape(n.Left(), ints, items)
		return "(" + op + " " + x + " " + shape(n.Right(), ints, items) + ")"
	}
	return "?"
}

func read16(s string) {
	vf.ObsS("text", s)
	p, want, ok := command16(s)
	n, err := parser.Parse("text", []byte(s))
	vf.ObsB("accepted", err == nil)
	if err != nil {
		vf.Reach("refused")
		if ok {
			vf.Assert(!utf8.ValidString(s), "a text of the command language is refused")
		}
		return
	}
	vf.Reach("accepted")
	vf.Assert(ok, "a text that is not of the command language is accepted")
	var ints []int
	var items []string
	vf.Assert(shape(n.(ast.Node), &ints, &items) == want, "a command is read with another structure")
	vf.Assert(len(ints) == len(p.ints) && len(items) == len(p.items), "a command is read with other literals or items")
	same := true
	for i := range ints {
		same = vf.And(same, ints[i] == p.ints[i])
	}
	vf.Assert(same, "an integer literal is not read exactly")
	for i := range items {
		vf.Assert(items[i] == p.items[i], "an item of a choice is not read as written")
	}
}

// chars16 is a text of up to n characters of an alphabet.
func chars16(n int, alphabet string) string {
	return vf.Str("c", 1+vf.Choose("length", n), alphabet)
}

// C16_Text: texts of the characters of the language.
func C16_Text() {
	read16(vf.Str("c", vf.Bound("characters", 5, 6), "12DbRuC(+-*/)[.]=> "))
}

// C16_Calc: calculations.
func C16_Calc() {
	read16("C(" + vf.Str("c", vf.Bound("characters", 5, 7), "1+-*/()ru") + []string{")", "", ")1"}[vf.Choose("end", 3)])
}

// C16_Sum: sum rolls.
func C16_Sum() {
	read16(vf.Str("c", vf.Bound("characters", 5, 7), "2D+-*/()r"))
}

// C16_Lists: the other rolls.
func C16_Lists() {
	x := []byte("BRUdbru")[vf.Choose("kind", 4)]
	k := string([]byte{x})
	read16("1" + k + vf.Str("c", vf.Bound("characters", 5, 6), "12+-[]<>="+k))
}

// C16_Modifier: the end of a compounding roll.
func C16_Modifier() {
	read16("1U6[2]" + vf.Str("c", vf.Bound("characters", 5, 6), "1+-*/(r)>"))
}

// C16_Compare: the end of a comparison.
func C16_Compare() {
	s := []string{"1D6", "1B6", "1R6", "1U6", "[1...2]", "C(1", "1"}[vf.Choose("left", 7)]
	read16(s + vf.Str("c", vf.Bound("characters", 4, 6), "1<>=-(*D)"))
}

// C16_Random: embedded random numbers.
func C16_Random() {
	f := []string{"[#]", "[#]D6", "1B[#]", "([#])", "1D6+[#]>1", "[1...2#", "1R[#...3]"}[vf.Choose("frame", 7)]
	read16(strings.Replace(f, "#", chars16(vf.Bound("characters", 5, 6), "1.(-)[+]"), 1))
}

// C16_Bytes: a command with arbitrary bytes in it.
func C16_Bytes() {
	p := []string{"CHOICE[#]", "CHOICE[#,a]", "CHOICE[a,#", "CHOICE[a#", "CHO#[a]", "#HOICE[a]", "1D6#", "#1D6", "1D#6", "C(1#)", "1R6[#]", "1U6[2]#1", "1B6>#", "[1..#2]", "#"}
	f := p[vf.Choose("place", len(p))]
	read16(strings.Replace(f, "#", vf.Str("c", 1+vf.Choose("length", vf.Bound("bytes", 2, 3)), ""), 1))
}

// C16_Items: items of a choice.
func C16_Items() {
	read16("choice[" + vf.Str("c", vf.Bound("characters", 4, 7), "a, \t]\xe3\x80\"["))
}

// C16_Numbers: literals of any width are read exactly or refused.
func C16_Numbers() {
	f := []string{"C(#)", "#D6", "1D#", "1D6>=#", "1R6[#]", "[1...#]D6", "[#...5]", "1U6[2]-#", "C(1/#R)", "1B6+#B6", "1D6-#"}
	x := wide("x")
	if vf.Choose("zeros", 2) == 1 {
		x = "00" + x
	}
	read16(strings.Replace(f[vf.Choose("place", len(f))], "#", x, 1))
}

// C16_Mutated: every pattern of a command with a character put in, taken out or replaced.
func C16_Mutated() {
	p := patterns[vf.Choose("pattern", len(patterns)-1)]
	if vf.Bound("every operator", 0, 1) == 0 {
		p = strings.Replace(strings.Replace(p, "?", ">=", -1), "~", "-", -1)
	}
	s := pick(p, nil)
	i := vf.Choose("at", len(s))
	b := vf.Str("byte", 1, "0D+-*/([)].,<=ru ")
	switch vf.Choose("mutation", 3) {
	case 0:
		s = s[:i] + b + s[i:]
	case 1:
		s = s[:i] + b + s[i+1:]
	case 2:
		s = s[:i] + s[i+1:]
	}
	read16(s)
}

// C16_Chain: long expressions with every combination of operators, rounding suffixes and kinds of operands.
func C16_Chain() {
	frame := []string{"C(#)", "#", "#>=1", "1D6>=#", "1U6[2]+#", "(#)D6", "[1...#]D6", "1R6[#]", "1B6>#"}
	at := vf.Choose("frame", len(frame))
	operands := []string{"1", "(1+1)", "-1", "1D6", "(1-1D6)"}
	kinds := 3
	if at == 1 || at == 2 {
		kinds = 5
	}
	n := vf.Bound("operators", 3, 4)
	if at > 1 {
		n--
	}
	odd := vf.Choose("operand", n+1)
	kind := vf.Choose("kind", kinds)
	s := ""
	for i := 0; i <= n; i++ {
		suffix := false
		if i > 0 {
			op := vf.Str("op", 1, "+-*/")
			s += op
			suffix = op == "/"
		}
		switch {
		case i == odd:
			s += operands[kind]
		case i == 0 && (at == 1 || at == 2):
			s += "1D6"
		default:
			s += "1"
		}
		if suffix {
			s += []string{"", "R", "u"}[vf.Choose("suffix", 3)]
		}
	}
	read16(strings.Replace(frame[at], "#", s, 1))
}

// C16_Nested: in every operand place of every command, operands wrapped in one another in every way.
func C16_Nested() {
	d := vf.Str("digit", 1, "0123456789")
	s := []string{d, "[" + d + "...2]", "1D" + d, "C(" + d + ")", "1B" + d, "1U6[" + d + "]"}[vf.Choose("inner", vf.Bound("inner operands", 3, 6))]
	wraps := []string{"(#)", "-#", "#+1", "2*#", "[#...9]", "[0...#]", "#D6", "1D#", "#/2R", "+#"}
	for i := vf.Choose("wraps", 1+vf.Bound("wraps", 2, 3)); i > 0; i-- {
		s = strings.Replace(wraps[vf.Choose("wrap", len(wraps))], "#", s, 1)
	}
	frames := []string{"C(#)", "#", "#D6", "1D#", "#B6", "1B#", "2R#[3]", "2R6[#]", "#U6[3]", "2U6[#]", "2U6[3]+#", "2U6[3]-#", "2D6>#", "#>=3", "2B6=#", "1B6+#B6", "2R6<=#", "2U6[3]+1<>#", "1R6+1R#[2]"}
	read16(strings.Replace(frames[vf.Choose("frame", len(frames))], "#", s, 1))
}
