package h

import (
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// checkChoice runs a choice whose items (as they should be answered) are given.
func checkChoice(cmd string, items []string) {
	f, r, err := run(cmd, 2)
	vf.Assert(err == nil, "a choice failed")
	vf.Assert(len(f.drawn) == 1, "a choice does not roll exactly one die")
	vf.Assert(f.drawn[0].Sides == len(items), "the die of a choice has not as many sides as there are items")
	i := vf.Split(f.drawn[0].Value - 1)
	vf.Assert(last(r.MessageParts) == items[i], "the answer is not the item at the rolled position")
	vf.Assert(len(r.MessageParts) == 2, "a choice does not have two message parts")
	vf.Assert(sameDice(r.RolledDice, f.drawn), "the rolled dice are not the dice drawn")
	vf.Reach("chosen")
}

// C08_Items: up to four items of ASCII text.
func C08_Items() {
	k := vf.Bound("items", 3, 4)
	l := vf.Bound("bytes per item", 2, 3)
	n := 1 + vf.Choose("items", k)
	cmd := "CHOICE["
	var items []string
	for i := 0; i < n; i++ {
		s := vf.Str("item", 1+vf.Choose("length", l), "aB1 [(+\t.\"")
		if i > 0 {
			cmd += ","
		}
		cmd += s
		t := strings.TrimSpace(s)
		vf.Assume(t != "")
		items = append(items, t)
	}
	checkChoice(cmd+"]", items)
}

// C08_Bytes: two items of arbitrary bytes except the separators; invalid UTF-8 and blank items are
// left out.
func C08_Bytes() {
	a := vf.Str("a", vf.Bound("bytes", 2, 3), "")
	for i := 0; i < len(a); i++ {
		vf.Assume(vf.And(a[i] != ',', a[i] != ']'))
	}
	vf.Assume(utf8.ValidString(a))
	t := strings.TrimSpace(a)
	vf.Assume(t != "")
	checkChoice("choice["+a+",x]", []string{t, "x"})
}

// C08_Many: many items, of several alphabets and widths.
func C08_Many() {
	n := 1 + vf.Choose("items", vf.Bound("items", 24, 60))
	pool := []string{"a", "い", "b c", "ＦＦ", "5", "é", "d6", "CHOICE[a"}
	var items []string
	for i := 0; i < n; i++ {
		items = append(items, pool[i%len(pool)]+string([]byte{byte('A' + i%26)}))
	}
	blanks := []string{"", " ", "\u3000", " \u00a0"}
	before, end := vf.Choose("before", 4), vf.Choose("end", 3)
	sep := blanks[(before+n)%4] + "," + blanks[before]
	checkChoice([]string{"CHOICE[", "choice[", "ChOiCe["}[(end+n)%3]+strings.Join(items, sep)+[]string{"]", ",]", ", ]"}[end], items)
}

// C08_Long: more items than fit in a byte.
func C08_Long() {
	n := []int{100, 255, 256, 257, 300}[vf.Choose("items", vf.Bound("numbers of items", 5, 5))]
	cmd := "CHOICE["
	var items []string
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i * 7)
		if i > 0 {
			cmd += ","
		}
		cmd += s
		items = append(items, s)
	}
	v := []int{1, 2, 128, 129, 255, 256, 257, 258, n - 1, n}[vf.Choose("position", 10)]
	vf.Assume(v <= n)
	f := &replayFeed{dice: []dice.Die{{Value: v, Sides: n}}}
	r, err := exec(f, cmd+"]")
	vf.Assert(err == nil && f.pos == 1 && !f.bad, "a choice does not roll one die with as many sides as items")
	vf.Assert(last(r.MessageParts) == items[v-1], "the answer is not the item at the rolled position")
	vf.Reach("chosen")
}

// C08_Tree: the evaluation alone, any item texts.
func C08_Tree() {
	n := 1 + vf.Choose("items", 6)
	var items []string
	var c *ast.Choice
	for i := 0; i < n; i++ {
		s := vf.Str("item", 2, "ab")
		items = append(items, s)
		if i == 0 {
			c = ast.NewChoice(ast.NewString(s))
		} else {
			c.Append(ast.NewString(s))
		}
	}
	f := &feed{name: "die", limit: 2}
	r, err := command.Execute(c, "DiceBot", newEvaluator(f))
	vf.Assert(err == nil && len(f.drawn) == 1 && f.drawn[0].Sides == n, "a choice does not roll one die with as many sides as items")
	i := vf.Split(f.drawn[0].Value - 1)
	vf.Assert(last(r.MessageParts) == items[i], "the answer is not the item at the rolled position")
}
