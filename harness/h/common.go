// Package h holds the harnesses: ordinary Go over the exported API of the code under check.
package h

import (
	"errors"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// feed is a dice source whose dice are inputs of the harness: any value from 1 to sides.
type feed struct {
	name  string
	max   int
	drawn []dice.Die
	limit int  // an error after that many dice (0: no limit)
	cut   bool // leave the path out instead of failing at the limit
}

func (f *feed) CanSpecifyDie() bool { return false }

var errNoDice = errors.New("no more dice")

func (f *feed) Next(sides int) (dice.Die, error) {
	if f.limit > 0 && len(f.drawn) >= f.limit {
		vf.Assume(!f.cut)
		return dice.Die{}, errNoDice
	}
	v := vf.IntT(f.name, 1, sides)
	d := dice.Die{Value: v, Sides: sides}
	f.drawn = append(f.drawn, d)
	return d, nil
}

// replayFeed hands out recorded dice, provided the same sides are asked for.
type replayFeed struct {
	dice []dice.Die
	pos  int
	bad  bool
}

func (f *replayFeed) CanSpecifyDie() bool { return false }

func (f *replayFeed) Next(sides int) (dice.Die, error) {
	if f.pos >= len(f.dice) || f.dice[f.pos].Sides != sides {
		f.bad = true
		return dice.Die{}, errors.New("replay: unexpected request")
	}
	d := f.dice[f.pos]
	f.pos++
	return d, nil
}

func exec(f interface {
	Next(int) (dice.Die, error)
	CanSpecifyDie() bool
}, text string) (*command.Result, error) {
	b := bcdice.New(f)
	return b.ExecuteCommand(text)
}

// run executes a command with at most limit dice; what needs more dice is outside the bound.
func run(cmd string, limit int) (*feed, *command.Result, error) {
	f := &feed{name: "die", limit: limit, cut: true}
	vf.ObsS("cmd", cmd)
	r, err := exec(f, cmd)
	if err == nil {
		vf.ObsS("msg", r.Message())
	}
	return f, r, err
}

func sameDice(a, b []dice.Die) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vf.And(ok, vf.And(a[i].Value == b[i].Value, a[i].Sides == b[i].Sides))
	}
	return ok
}

func last(p []string) string {
	if len(p) == 0 {
		return ""
	}
	return p[len(p)-1]
}
