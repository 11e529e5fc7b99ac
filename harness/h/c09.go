package h

import (
	"strconv"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// C09_Record: for every command pattern the record is what the source handed out.
func C09_Record() {
	cmd := anyCommand("pattern", 0, len(patterns))
	if vf.Choose("secret", 2) == 1 {
		cmd = "S" + cmd
	}
	f, r, err := run(cmd, vf.Bound("dice", 4, 6))
	if err != nil {
		return
	}
	vf.Assert(sameDice(r.RolledDice, f.drawn), "the rolled dice are not the dice drawn")
	vf.Reach("result")
}

// C09_Sequence: dice of earlier commands never appear, whether those succeeded or not.
func C09_Sequence() {
	f := &feed{name: "die", limit: vf.Bound("dice", 5, 7), cut: true}
	b := bcdice.New(f)
	list := []string{"1D6", "2B4", "1R6[5]", "1U6[5]+1", "CHOICE[a,b]", "[1...3]D6", "1D6/0", "[2...1]D6", "1D6>=4", "[1...6]/0D6", "C(1+2)", "x", "1D6 a"}
	n := 1 + vf.Choose("earlier", 2)
	var earlier [][]dice.Die
	var kept []*outcome
	for i := 0; i < n; i++ {
		at := len(f.drawn)
		r, err := b.ExecuteCommand(list[vf.Choose("command", len(list))])
		if err == nil {
			vf.Assert(sameDice(r.RolledDice, f.drawn[at:]), "the rolled dice are not the dice drawn for this command")
			o := see(r, err)
			kept = append(kept, &o)
			earlier = append(earlier, r.RolledDice)
		}
	}
	at := len(f.drawn)
	r, err := b.ExecuteCommand(list[vf.Choose("command", len(list))])
	if err != nil {
		return
	}
	vf.Assert(sameDice(r.RolledDice, f.drawn[at:]), "the rolled dice are not the dice drawn for this command")
	for i, d := range earlier {
		vf.Assert(sameDice(d, kept[i].dice), "the record of an earlier command changed")
	}
	vf.Reach("later result")
}

// C09_Many: a record longer than any slice growth step.
func C09_Many() {
	n := numIn("n", 2, 1, vf.Bound("dice in one roll", 30, 70))
	cmd := n.s + []string{"D6", "B6", "R6[7]"}[vf.Choose("kind", 3)]
	f, r, err := run(cmd, 80)
	vf.Assert(err == nil, "a roll failed")
	vf.Assert(len(f.drawn) == n.n, "not the requested number of dice")
	vf.Assert(sameDice(r.RolledDice, f.drawn), "the rolled dice are not the dice drawn")
}

// C09_Environment: the record itself, over operation sequences.
func C09_Environment() {
	e := evaluator.NewEnvironment()
	var want []dice.Die
	die := func() dice.Die {
		return dice.Die{Value: vf.Int("v", -1<<63, 1<<63-1), Sides: vf.Int("s", -1<<63, 1<<63-1)}
	}
	n := vf.Bound("operations", 4, 6)
	for i := 0; i < n; i++ {
		switch vf.Choose("operation", 5) {
		case 0:
			d := die()
			e.PushRolledDie(d)
			want = append(want, d)
		case 1:
			ds := []dice.Die{die(), die()}
			e.AppendRolledDice(ds)
			want = append(want, ds...)
			ds[0] = die()
		case 2:
			e.ClearRolledDice()
			want = nil
		case 3:
			got := e.RolledDice()
			vf.Assert(sameDice(got, want), "the record is not what was put in")
			for j := range got {
				got[j] = die()
			}
			_ = append(got, die())
		case 4:
			e.AppendRolledDice(nil)
		}
	}
	vf.Assert(sameDice(e.RolledDice(), want), "the record is not what was put in")
}

// C09_Refused: dice drawn for embedded random numbers are recorded when the roll itself is refused
// for its threshold.
func C09_Refused() {
	list := []string{"[1...n]R6[k]", "[1...n]R6?k", "[1...n]U6[k]", "[1...n]U6[k]~1?k", "1R[n...m][2-k]", "1U[n...m][2-k]", "[1...2]R[n...m]", "[1...n]Um", "1R6+[1...2]R6[k]", "1R6>=[1...3]"}
	cmd := pick(list[vf.Choose("pattern", len(list))], nil)
	f, r, err := run(cmd, vf.Bound("dice", 4, 6))
	if err != nil {
		return
	}
	vf.Assert(sameDice(r.RolledDice, f.drawn), "the rolled dice are not the dice drawn")
	vf.Reach("result")
}

// C09_Thousand: the largest rolls.
func C09_Thousand() {
	cmd := []string{"1000D1", "1000B1", "999R1[2]", "1000U1[2]", "1000D1+1000D1"}[vf.Choose("command", 5)]
	f, r, err := run(cmd, 3000)
	vf.Assert(err == nil, "a roll failed")
	vf.Assert(len(f.drawn) >= 999, "dice are missing")
	vf.Assert(sameDice(r.RolledDice, f.drawn), "the rolled dice are not the dice drawn")
	vf.Reach("result")
}

// C09_Large: commands with very many dice, rolls or items.
func C09_Large() {
	n := []int{22, 70, 300}[vf.Choose("size", vf.Bound("sizes", 2, 3))]
	many := func(x string) string { return x + strings.Repeat("+"+x, n-1) }
	cmd := ""
	switch vf.Choose("form", 8) {
	case 0:
		cmd = "CHOICE[" + strings.Repeat("a,", n-1) + "b]"
	case 1:
		cmd = many("1D6")
	case 2:
		cmd = many("2B6") + ">=3"
	case 3:
		cmd = many("1R6") + "[99]"
	case 4:
		cmd = many("1U6") + "[99]+1"
	case 5:
		cmd = many("[1...9]") + "+1D6"
	case 6:
		cmd = many("1D[2...9]") + ">=" + strconv.Itoa(n)
	case 7:
		cmd = many("900D6")
		n *= 900
		vf.Assume(n < 30000)
	}
	at := []int{0, n / 2, n - 1}[vf.Choose("open", 3)]
	f := &mostly{feed{name: "die", limit: 2 * n}, func(i int) bool { return i == at }}
	r, err := exec(f, cmd)
	vf.Assert(err == nil, "a roll failed")
	vf.Assert(sameDice(r.RolledDice, f.drawn), "the rolled dice are not the dice drawn")
	vf.Reach("result")
}
