package h

import (
	"math"
	"strconv"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// displayed is the normalised command of a result.
func displayed(shown string) string {
	if len(shown) > 1 && shown[0] == '(' {
		return shown[1 : len(shown)-1]
	}
	return shown
}

// readBack runs cmd and then what was displayed for it, with the dice of the roll itself; embedded
// is the number of random numbers in cmd, which are drawn first. rolls tells whether a roll is left
// once these are replaced by their values.
func readBack(cmd string, limit, embedded int, known bool, id string) {
	f := &feed{name: "die", limit: limit, cut: true}
	readBackFrom(f, f, cmd, embedded, known, id)
}

// readBackFrom is the same with dice from a source that records them in f.
func readBackFrom(f *feed, source feeder.DieFeeder, cmd string, embedded int, known bool, id string) {
	vf.ObsS("cmd", cmd)
	a := see(bcdice.New(source).ExecuteCommand(cmd))
	if !a.ok {
		vf.Reach("refused")
		return
	}
	vf.Assert(len(a.parts) >= 2, "a result without a displayed command")
	text := displayed(a.parts[0])
	vf.ObsS("shown", text)
	vf.Assert(len(f.drawn) >= embedded, "an embedded random number was not drawn")
	g := &replayFeed{dice: f.drawn[embedded:]}
	b := see(bcdice.New(g).ExecuteCommand(text))
	if b.ok {
		vf.ObsS("again", last(b.parts))
	}
	fine := vf.And(b.ok, vf.And(!g.bad, g.pos == len(g.dice)))
	if b.ok {
		fine = vf.And(fine, vf.And(len(a.parts) == len(b.parts), vf.And(vf.StrEq(last(a.parts), last(b.parts)), a.succ == b.succ)))
	}
	vf.AssertKnown(fine, "the displayed command does not mean what was evaluated", known, id)
	vf.Reach("read back")
}

// C17_Calc: every calculation of depth 2.
func C17_Calc() {
	t := genArith(2, 1, true)
	readBack("C("+t.text(1)+")", 1, 0, !t.showable(), "product-of-division")
}

// C17_CalcWide: values up to the limits of the integers.
func C17_CalcWide() {
	x, y := wide("x"), vf.Str("y", 1, "0123456789")
	if vf.Bound("both numbers wide", 0, 1) == 1 {
		y = wide("y")
	}
	o := string([]byte{arithOps[vf.Choose("op", 4)]})
	if vf.Choose("order", 2) == 1 {
		x, y = y, x
	}
	forms := []string{"(x~y)", "-(x~y)", "-(1+(x~y))", "1-(-(x~y))", "-((x)~y)"}
	c := strings.Replace(forms[vf.Choose("form", 5)], "~", o, 1)
	readBack("C("+strings.Replace(strings.Replace(c, "x", x, 1), "y", y, 1)+")", 1, 0, false, "")
}

// treeShape is every way to parenthesise n operands.
func treeShape(n int, leaf func() *tr, ops string) *tr {
	if n == 1 {
		t := leaf()
		if vf.Choose("minus", 2) == 1 {
			return un('m', t)
		}
		return t
	}
	k := 1 + vf.Choose("left operands", n-1)
	l := treeShape(k, leaf, ops)
	r := treeShape(n-k, leaf, ops)
	return bin(ops[vf.Choose("op", len(ops))], l, r)
}

// C17_Nested: every parenthesisation of four operands.
func C17_Nested() {
	i := 0
	t := treeShape(vf.Bound("operands", 3, 4), func() *tr {
		i++
		if i == 2 {
			return num("n", 1)
		}
		return lit([]int{7, 3, 2, 5}[i%4])
	}, arithOps)
	readBack("C("+t.text(1)+")", 1, 0, !t.showable(), "product-of-division")
}

// C17_Sum: every sum roll of depth 2.
func C17_Sum() {
	sub := "+-"
	if vf.Bound("all operators below the root", 0, 1) == 1 {
		sub = arithOps
	}
	t := genD(2, 1, arithOps, sub)
	n := t.rolls()
	vf.Assume(n >= 1 && n <= 2)
	readBack(t.text(1), 3, 0, !t.showable(), "product-of-division")
}

// C17_SumNested: every parenthesisation of several operands, rolls and numbers.
func C17_SumNested() {
	i := 0
	ops := "+-*/"
	if vf.Bound("all roundings", 0, 1) == 1 {
		ops = arithOps
	}
	t := treeShape(vf.Bound("operands", 3, 4), func() *tr {
		i++
		switch vf.Choose("leaf", 2) {
		case 0:
			return bin('D', lit(1), lit(6))
		}
		return lit(i + 2)
	}, ops)
	n := t.rolls()
	vf.Assume(n >= 1 && n <= vf.Bound("rolls", 1, 3))
	readBack(t.text(1), 4, 0, !t.showable(), "product-of-division")
}

// C17_Any: commands of every kind.
func C17_Any() {
	i := vf.Choose("pattern", firstBad)
	p := patterns[i]
	k := strings.Count(p, "...")
	cmd := pick(p, nil)
	readBack(cmd, 4+k, k, false, "")
}

// C17_Random: random numbers, also negative ones, at every place of a sum roll.
func C17_Random() {
	forms := []string{"1D6+R", "1D6-R", "R+1D6", "R*1D6", "1D6*R", "-R*1D6", "-R-1D6", "1D6-R*2", "1D6/RR", "R/1D6U", "R-R+1D6", "1D6-(R-2)", "1D6-(2-R)", "1D6*(R+1)", "1D6>=2-(0-3)", "1D6+R<=1-5", "RD6", "1DR", "1D6--R", "1D6+(-R)*2", "(1D6-R)*2", "(R-1D6)*R"}
	form := forms[vf.Choose("form", len(forms))]
	from, to := "0123456789", "147"
	if strings.Contains(form, "/") {
		from, to = "14", "4"
	}
	lo := "(" + vf.Str("lo", 1, from) + "-" + []string{"0", "6"}[vf.Choose("sub", 2)] + ")"
	r := "[" + lo + "..." + vf.Str("hi", 1, to) + "]"
	k, cmd := 0, ""
	for i := 0; i < len(form); i++ {
		// R is the number except as a rounding suffix
		if form[i] == 'R' && !(i > 0 && form[i-1] == 'R') {
			cmd += r
			k++
		} else {
			cmd += form[i : i+1]
		}
	}
	readBack(cmd, 3+k, k, false, "")
}

// C17_Least: a random number equal to the least integer is shown as a number that cannot be read.
func C17_Least() {
	n := vf.Str("n", 1, "0123456789")
	f := []string{"[(-9223372036854775807-1)...(-922337203685477580~)]+1D6", "1D6-[(-9223372036854775807-1)...(-922337203685477580~)]*2", "1B6>=-922337203685477580~-1", "1U6[3]+(-922337203685477580~-1)"}[vf.Choose("form", 4)]
	cmd := strings.Replace(f, "~", n, 1)
	k := strings.Count(f, "...")
	least := strconv.Itoa(math.MinInt64)
	g := &feed{name: "die", limit: 3, cut: true}
	vf.ObsS("cmd", cmd)
	a := see(bcdice.New(g).ExecuteCommand(cmd))
	if !a.ok {
		return
	}
	text := displayed(a.parts[0])
	vf.ObsS("shown", text)
	h := &replayFeed{dice: g.drawn[k:]}
	b := see(bcdice.New(h).ExecuteCommand(text))
	fine := b.ok
	if fine {
		fine = vf.And(vf.StrEq(last(a.parts), last(b.parts)), a.succ == b.succ)
	}
	vf.AssertKnown(fine, "the displayed command does not mean what was evaluated", strings.Contains(text, least), "least-integer")
}

// C17_Operands: operands that are themselves expressions, also where nothing is rolled.
func C17_Operands() {
	a := "(" + vf.Str("a", 1, "0123456789") + "-" + vf.Str("b", 1, "0123456789") + ")"
	s := "(" + vf.Str("c", 1, "0123456789") + "-" + vf.Str("d", 1, "012") + ")"
	t := []string{"[1]", "[(0-1)]", "[(3-1)*2]", "[2]"}[vf.Choose("threshold", 4)]
	switch vf.Choose("kind", 5) {
	case 0:
		readBack(a+"R"+s+t, 4, 0, false, "")
	case 1:
		readBack(a+"U"+s+t, 4, 0, false, "")
	case 2:
		readBack(a+"U"+s+t+"+"+vf.Str("e", 1, "0123456789")+"*2-9", 4, 0, false, "")
	case 3:
		readBack(a+"B"+s+">="+a+"-5", 4, 0, false, "")
	case 4:
		readBack("1R6"+t+"+"+a+"R"+s+"<=0-"+vf.Str("e", 1, "0123456789"), 4, 0, false, "")
	}
}

// C17_Choice: items of any bytes.
func C17_Choice() {
	a := vf.Str("a", vf.Bound("bytes", 2, 3), "")
	for i := 0; i < len(a); i++ {
		vf.Assume(a[i] != ']')
	}
	readBack("CHOICE["+a+",x]", 1, 0, false, "")
}
