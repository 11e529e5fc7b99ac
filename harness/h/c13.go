package h

import (
	"strings"

	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// C13_Tail: a command that stands alone is not changed by whitespace and any text after it.
func C13_Tail() {
	t := anyCommand("pattern", 0, len(patterns))
	if vf.Bound("secret commands too", 0, 1) == 1 && vf.Choose("secret", 2) == 1 {
		t = "s" + t
	}
	f, r, err := run(t, vf.Bound("dice", 3, 5))
	a := see(r, err)
	vf.Assume(a.ok)
	tail := vf.Str("space", 1, " \t\n\r\f") + vf.Str("tail", vf.Choose("length", 1+vf.Bound("bytes after the space", 1, 2)), "")
	b := again(t+tail, f.drawn)
	same(a, b, "with text after a space")
	vf.Assert(a.secret == b.secret, "text after a space changes the secret flag")
	vf.Reach("same")
}

// C13_Words: the text after the space looks like the rest of a command or like another command.
func C13_Words() {
	t := anyCommand("pattern", 0, firstBad)
	f, r, err := run(t, 2)
	a := see(r, err)
	vf.Assume(a.ok)
	tails := []string{"+1", ">=3", "1D6", "C(1)", "[3]", "CHOICE[a,b]", "]", "+1D6>=7", ")", ",x]", "S", "攻撃", "の ダメージ\n2D6", "\xff\xfe", "/2", "*2U", "＋１"}
	j := vf.Choose("tail", len(tails))
	space := j % 4
	if vf.Bound("every space with every tail", 0, 1) == 1 {
		space = vf.Choose("space", 4)
	}
	b := again(t+[]string{" ", "\t", "  ", "\n"}[space]+tails[j], f.drawn)
	same(a, b, "with text after a space")
	vf.Reach("same")
}

// C13_Whole: a choice whose items contain spaces is one command.
func C13_Whole() {
	n := 1 + vf.Choose("items", 3)
	var items []string
	for i := 0; i < n; i++ {
		items = append(items, vf.Str("a", 1, "ab1D")+vf.Str("space", 1, " \t\n")+vf.Str("b", 1, "6c[("))
	}
	cmd := "CHOICE["
	if vf.Choose("secret", 2) == 1 {
		cmd = "SCHOICE["
	}
	checkChoice(cmd+strings.Join(items, ",")+"]"+[]string{"", " x", " ,b]", "\n1D6"}[vf.Choose("tail", 4)], items)
}

// C13_NotACommand: neither the first word nor the whole is a command.
func C13_NotACommand() {
	first := []string{"CHOICE[a", "CHOICE[", "1D", "D6", "hello", "1D6+", "(1D6", "1D6)", "C(1", "[1...2", "1R6[", "こんにちは", "\xff", "", "2B6+1", "1D6>=1D6", "CHOICE[a,b", "choice[a]x"}
	second := []string{"", "1D6", "]", "+1D6", "6", "C(1)", ")", "b", "D6)", "1"}
	i, j := vf.Choose("first", len(first)), vf.Choose("second", len(second))
	whole := first[i] + vf.Str("space", 1, " \t\n\r\f") + second[j]
	// closed by the second word, the whole is a choice
	vf.Assume(!strings.HasPrefix(first[i], "CHOICE[") || second[j] != "]")
	vf.Assume(first[i] != "choice[a]x")
	f, r, err := run(whole, 2)
	o := see(r, err)
	vf.Assert(!o.ok, "a text that is no command was executed")
	vf.Assert(len(f.drawn) == 0, "a text that is no command rolled dice")
}

// C13_Foreign: what is no whitespace does not end a command, whatever it looks like.
// (A calculation or a choice ends at its closing bracket.)
func C13_Foreign() {
	cmd := []string{"2D6", "1D6>=3", "2B6", "1R6[6]", "1U6[6]", "s1D6", "1D6*2", "1B6>=2"}[vf.Choose("command", 8)]
	var x string
	if vf.Choose("kind", 2) == 0 {
		x = vf.Str("byte", 1, "")
		vf.Assume(vf.Or(x[0] >= 127, vf.And(x[0] < 32, vf.And(x[0] != 9, vf.And(x[0] != 10, vf.And(x[0] != 12, x[0] != 13))))))
	} else {
		x = []string{"\u00a0", "\u3000", "\u2003", "\u0085", "\u1680", "\u2028", "\ufeff", "\u200b", "の"}[vf.Choose("character", 9)]
	}
	f, r, err := run(cmd+x+[]string{"", "x", " ", " 1D6", "2D6"}[vf.Choose("tail", 5)], 2)
	o := see(r, err)
	vf.Assert(!o.ok, "a text that is no command was executed")
	vf.Assert(len(f.drawn) == 0, "a text that is no command rolled dice")
}
