package h

import (
	"errors"

	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// C10_Roller: any count, any sides, any behaviour of the source.
func C10_Roller() {
	k := vf.Bound("dice", 3, 5)
	num := vf.Int("num", -1<<63, 1<<63-1)
	sides := vf.Int("sides", -1<<63, 1<<63-1)
	// counts between the bound and one million are covered by C10_Counts
	vf.Assume(vf.Or(num <= k, num > 1000000))
	f := &wild{limit: k + 1}
	ds, err := roller.New(f).RollDice(num, sides)
	if vf.Or(num < 1, vf.Or(num > k, sides < 1)) {
		vf.Reach("refused")
		vf.Assert(err != nil, "an invalid request was not refused")
		vf.Assert(len(f.asked) == 0, "an invalid request drew dice")
		vf.Assert(len(ds) == 0, "dice were returned with an error")
		return
	}
	for _, a := range f.asked {
		vf.Assert(a == sides, "the source was asked for other sides")
	}
	if f.bad > 0 {
		vf.Reach("bad source")
		vf.Assert(err != nil, "a source failure or an impossible die did not make the roll fail")
		vf.Assert(len(ds) == 0, "dice were returned with an error")
		vf.Assert(len(f.asked) == f.bad, "dice were drawn after the roll had failed")
		return
	}
	vf.Reach("rolled")
	vf.Assert(err == nil, "a valid request failed")
	vf.Assert(len(ds) == num, "not the requested number of dice")
	vf.Assert(len(f.asked) == num, "not the requested number of dice was drawn")
	vf.Assert(sameDice(ds, f.drawn), "the dice returned are not the dice drawn")
	for _, d := range ds {
		vf.Assert(vf.And(d.Sides == sides, vf.And(1 <= d.Value, d.Value <= sides)), "a die is out of range")
	}
}

// C10_Counts: many dice at once are all requested dice or an error without a draw.
func C10_Counts() {
	vf.MaxSteps(100000000)
	n := []int{7, 99, 100, 255, 256, 257, 999, 1000, 1001, 4096, 65536, 1000000}[vf.Choose("count", 12)]
	f := &feed{name: "die", limit: 3000}
	sides := []int{1, 6, 100}[vf.Choose("sides", 3)]
	ds, err := roller.New(f).RollDice(n, sides)
	if err != nil {
		vf.Assert(n > 100, "a modest number of dice was refused")
		vf.Assert(n > 3000 || len(f.drawn) == 0, "a refused request drew dice")
		vf.Assert(len(ds) == 0, "dice were returned with an error")
		vf.Reach("refused")
		return
	}
	vf.Assert(len(ds) == n, "not the requested number of dice")
	vf.Assert(sameDice(ds, f.drawn), "the dice returned are not the dice drawn")
	vf.Reach("rolled")
}

// C10_Commands: every command either used only proper dice or failed, whatever the source does.
func C10_Commands() {
	cmd := anyCommand("pattern", 0, firstBad)
	vf.ObsS("cmd", cmd)
	f := &wild{limit: vf.Bound("dice", 2, 3)}
	o := see(exec(f, cmd))
	if f.bad > 0 {
		vf.Assert(!o.ok, "a command gave a result although a die was missing or impossible")
		vf.Assert(len(f.asked) == f.bad, "dice were drawn after the roll had failed")
		vf.Reach("failed")
		return
	}
	if o.ok {
		vf.Assert(sameDice(o.dice, f.drawn), "the rolled dice are not the dice drawn")
		vf.Reach("rolled")
	}
}

// C10_Huge: an absurdly large count inside a command is refused without a draw.
func C10_Huge() {
	var n string
	switch vf.Choose("form", 4) {
	case 0:
		n = vf.Str("n", 1, "123456789") + vf.Str("n", 6, "0123456789")
	case 1:
		n = vf.Str("n", 1, "123456789") + vf.Str("n", 11, "0123456789")
	case 2:
		n = wide("n")
		vf.Assume(len(n) > 7)
		vf.Assume(n[0] != '0')
		n = []string{"", "00", "1", "42"}[vf.Choose("front", 4)] + n
	case 3:
		n = wide("n")
		vf.Assume(len(n) > 7)
		vf.Assume(n[0] != '0')
		n = "(" + n + "+" + vf.Str("n", 1, "0123456789") + ")"
	}
	cmd := n + []string{"D6", "B6", "R6[7]", "U6[7]", "D6>=1"}[vf.Choose("kind", 5)]
	vf.ObsS("cmd", cmd)
	f := &feed{name: "die", limit: 3}
	o := see(exec(f, cmd))
	vf.Assert(!o.ok, "an absurdly large number of dice was accepted")
	vf.Assert(len(f.drawn) == 0, "an absurdly large number of dice drew a die")
	vf.Reach("refused")
}

// failing hands out proper dice up to one draw, where it does something else.
type failing struct {
	at, how int
	drawn   int
}

func (f *failing) CanSpecifyDie() bool { return false }

func (f *failing) Next(sides int) (dice.Die, error) {
	f.drawn++
	d := dice.Die{Value: sides, Sides: sides}
	if f.drawn-1 == f.at {
		switch f.how {
		case 0:
			return dice.Die{}, errors.New("the source failed")
		case 1:
			d.Sides = sides + 1
		case 2:
			d.Value = sides + 1
		case 3:
			d.Value = 0
		case 4:
			return dice.Die{Value: 1, Sides: 0}, nil
		case 5:
			return d, errors.New("the source failed")
		}
	}
	return d, nil
}

// C10_FailAt: a source that fails at any draw of a larger roll.
func C10_FailAt() {
	vf.MaxSteps(20000000)
	n := []int{4, 13, 37, 150, 1000}[vf.Choose("count", vf.Bound("counts", 3, 5))]
	f := &failing{at: vf.Int("at", 0, n-1), how: vf.Choose("how", 6)}
	ds, err := roller.New(f).RollDice(n, 6)
	vf.ObsI("drawn", f.drawn)
	vf.Assert(err != nil, "a source failure or an impossible die did not make the roll fail")
	vf.Assert(len(ds) == 0, "dice were returned with an error")
	vf.Assert(f.drawn == f.at+1, "dice were drawn after the roll had failed")
	vf.Reach("failed")
}

// C10_FailCommand: the same in commands.
func C10_FailCommand() {
	vf.MaxSteps(20000000)
	n := vf.Bound("dice", 12, 40)
	cmd := itoa(n) + []string{"D6", "B6", "R6[7]", "U6[7]", "D6>=1", "B6>1", "R6>6", "U6[7]=2"}[vf.Choose("kind", 8)]
	vf.ObsS("cmd", cmd)
	f := &failing{at: vf.Int("at", 0, n-1), how: vf.Choose("how", 6)}
	o := see(exec(f, cmd))
	vf.Assert(!o.ok, "a command gave a result although a die was missing or impossible")
	vf.Assert(f.drawn == f.at+1, "dice were drawn after the roll had failed")
	vf.Reach("failed")
}

// C10_Kept: the dice of a roll stay what they are when the roller is used again, and are nobody else's.
func C10_Kept() {
	f := &feed{name: "die"}
	r := roller.New(f)
	n, m := 1+vf.Choose("n", vf.Bound("dice", 4, 6)), 1+vf.Choose("m", vf.Bound("dice", 4, 6))
	a, err := r.RollDice(n, 6)
	vf.Assert(err == nil, "a roll fails")
	before := append([]dice.Die(nil), a...)
	b, err := r.RollDice(m, 10)
	vf.Assert(err == nil, "a roll fails")
	vf.Assert(len(b) == m && len(f.drawn) == n+m, "not the requested number of dice")
	vf.Assert(sameDice(a, before) && sameDice(a, f.drawn[:n]), "a roll changes the dice returned by the one before")
	for i := range a {
		a[i] = dice.Die{Value: 7, Sides: 7}
	}
	vf.Assert(sameDice(b, f.drawn[n:]), "writing to the dice of one roll changes another")
	c, err := r.RollDice(n, 6)
	vf.Assert(err == nil && sameDice(c, f.drawn[n+m:]) && sameDice(b, f.drawn[n:n+m]), "a roll is affected by what was done with the dice of another")
	vf.Reach("kept")
}
