package h

import (
	"sync"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// earlier are commands of every kind, successful or not, that come before.
var earlier = []string{
	"2D6+1", "1D6>=3", "1D6/0", "1B6+1B4", "2B6>3", "1R6[5]", "1R6[7]+1R4[4]", "2R6>=5", "1R6>=1", "1U6[5]+2", "2U6[6]>=3", "1U6[1]",
	"CHOICE[a,b]", "C(1+2)", "C(1/0)", "[2...5]D6", "[5...2]D6", "1D6>=", "S1D6", "1D6 x", "x", "", "((((1",
}

// two executions, one after the other on the given instances, of which the second is compared with
// an execution on a fresh instance.
func after(b1, b2 *bcdice.BCDice, f1, f2 *feed, first, second string, fresh bool) {
	vf.ObsS("first", first)
	vf.ObsS("second", second)
	f0 := &feed{name: "fresh die", limit: f2.limit, cut: true}
	var o0 outcome
	if fresh {
		// a fresh instance comes first of all
		o0 = see(bcdice.New(f0).ExecuteCommand(second))
	}
	r1, err1 := b1.ExecuteCommand(first)
	o1 := see(r1, err1)
	at := len(f2.drawn)
	r2, err2 := b2.ExecuteCommand(second)
	o2 := see(r2, err2)
	g := &replayFeed{dice: f2.drawn[at:]}
	o3 := see(bcdice.New(g).ExecuteCommand(second))
	vf.Assert(!g.bad && g.pos == len(g.dice), "other dice are rolled after another command")
	same(o2, o3, "after another command")
	if o2.ok {
		vf.Assert(sameDice(o2.dice, f2.drawn[at:]), "the dice of another execution in the result")
	}
	vf.Assert(o2.secret == o3.secret, "another secret flag after another command")
	same(see(r1, err1), o1, "a result changed by a later execution")
	vf.Assert(see(r1, err1).secret == o1.secret, "the secret flag of a result changed by a later execution")
	if err1 == nil && err2 == nil {
		// writing to one result reaches no other
		for i := range r1.RolledDice {
			r1.RolledDice[i] = dice.Die{Value: -1, Sides: -1}
		}
		for i := range r1.MessageParts {
			r1.MessageParts[i] = "?"
		}
		r1.SuccessCheckResult = command.SUCCESS_CHECK_FAILURE
		r1.AppendMessagePart("?")
		same(see(r2, err2), o2, "a result changed through another one")
	}
	if fresh {
		g := &replayFeed{dice: f0.drawn}
		b2.SetDieFeeder(g)
		o := see(b2.ExecuteCommand(second))
		vf.Assert(!g.bad && g.pos == len(g.dice), "other dice are rolled after other commands")
		same(o, o0, "after other commands")
		vf.Assert(o.secret == o0.secret, "another secret flag after other commands")
	}
	vf.Reach("compared")
}

// C19_Sequence: any command after another on the same instance.
func C19_Sequence() {
	f := &feed{name: "die", limit: vf.Bound("dice", 6, 8), cut: true}
	b := bcdice.New(f)
	first := earlier[vf.Choose("first", len(earlier))]
	var second string
	if vf.Bound("second command from all patterns", 0, 1) == 1 {
		second = anyCommand("pattern", 0, len(patterns))
	} else {
		second = []string{"1D6+" + vf.Str("k", 1, "0123456789"), "1D6>=" + vf.Str("k", 1, "0123456789"), "[1...3]B6>=2", "1R6[5]", "1R6>=5", "1U6[5]-1", "1U6[5]+[", "CHOICE[a,b]", "S1D2", "C(2*" + vf.Str("k", 1, "0123456789") + ")", "x"}[vf.Choose("second", 11)]
	}
	after(b, b, f, f, first, second, vf.Choose("fresh", 2) == 1)
}

// C19_Repeat: the same command text twice, on the same or another instance.
func C19_Repeat() {
	cmd := anyCommand("pattern", 0, len(patterns))
	f := &feed{name: "die", limit: vf.Bound("dice", 4, 8), cut: true}
	b := bcdice.New(f)
	fresh := vf.Choose("fresh", vf.Bound("a fresh instance first", 1, 2)) == 1
	if vf.Choose("instances", 2) == 1 {
		g := &feed{name: "other die", limit: 4, cut: true}
		after(bcdice.New(g), b, g, f, cmd, cmd, fresh)
		return
	}
	after(b, b, f, f, cmd, cmd, fresh)
}

// C19_Other: a command after another on another instance, both with their own dice.
func C19_Other() {
	f := &feed{name: "die", limit: 4, cut: true}
	g := &feed{name: "other die", limit: 4, cut: true}
	b, c := bcdice.New(f), bcdice.New(g)
	first := earlier[vf.Choose("first", len(earlier))]
	second := earlier[(vf.Choose("second", vf.Bound("second commands", 8, len(earlier)))*3)%len(earlier)]
	after(c, b, g, f, first, second, vf.Choose("fresh", 2) == 1)
}

// C19_Long: many executions, the last result is that of a fresh instance and no result changed.
func C19_Long() {
	f := &feed{name: "die", limit: 60, cut: true}
	b := bcdice.New(f)
	n := vf.Bound("executions", 8, 20)
	var rs []*command.Result
	var os []outcome
	start := vf.Choose("start", 4)
	for i := 0; i < n; i++ {
		cmd := []string{"2D6+1", "1D6/0", "2B6>3", "1R6[7]", "2U6[7]+1", "CHOICE[a,b]", "[2...5]B6", "S1D6"}[(start+i*3)%8]
		at := len(f.drawn)
		r, err := b.ExecuteCommand(cmd)
		o := see(r, err)
		g := &replayFeed{dice: f.drawn[at:]}
		same(see(bcdice.New(g).ExecuteCommand(cmd)), o, "after other commands")
		if err == nil {
			rs = append(rs, r)
			os = append(os, o)
		}
	}
	for i := range rs {
		same(see(rs[i], nil), os[i], "a result changed by a later execution")
	}
}

// C19_Shared: an execution writes nothing that another instance could reach, so that interleavings
// of instances cannot interfere. On the real code instances run side by side under the race detector.
func C19_Shared() {
	var cmd string
	switch vf.Choose("fixed", 3) {
	case 0:
		cmd = earlier[vf.Choose("first", len(earlier))]
	case 1:
		cmd = longText(vf.Choose("kind", 10), []int{30, 100, 300}[vf.Choose("length", 3)])
	default:
		cmd = anyCommand("pattern", 0, len(patterns))
	}
	game := []string{"DiceBot", "x"}[vf.Choose("game", 2)]
	if !vf.Symbolic() {
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 3; j++ {
					b := bcdice.New(&ones{})
					_ = b.SetDiceBotByGameID(game)
					_, _ = b.ExecuteCommand(cmd)
				}
			}()
		}
		wg.Wait()
	}
	f := &feed{name: "die", limit: 4, cut: true}
	vf.Freeze()
	b := bcdice.New(f)
	_ = b.SetDiceBotByGameID(game)
	_, _ = b.ExecuteCommand(cmd)
	w := vf.FrozenWrite()
	vf.ObsS("cmd", cmd)
	vf.Assert(w == "", "executing a command writes state shared between instances "+w)
}

// ones rolls only ones.
type ones struct{ n int }

func (f *ones) CanSpecifyDie() bool { return false }

func (f *ones) Next(sides int) (dice.Die, error) {
	f.n++
	if f.n > 30 {
		return dice.Die{}, errNoDice
	}
	return dice.Die{Value: 1, Sides: sides}, nil
}

// longText is a command of the given kind with about n bytes.
func longText(kind, n int) string {
	rep := func(s, unit, end string) string {
		for len(s)+len(end) < n {
			s += unit
		}
		return s + end
	}
	switch kind {
	case 0:
		return rep("1D6", "+1", "")
	case 1:
		return rep("1D6", "-2*3", ">=4")
	case 2:
		return rep("1B2", "+1B1", ">1")
	case 3:
		return rep("1R6+[1...2]R6", "+1R6", "[7]")
	case 4:
		return rep("[1...2]U6[7]", "+1", "")
	case 5:
		return rep("CHOICE[b,a", "a ", "]")
	case 6:
		return rep("C(1", "+2", ")")
	case 7:
		return rep("S1D6 ", "x", "")
	case 8:
		return rep("1D6", "0", "")
	}
	return rep("x", "y", "")
}

// C19_LongText: long commands, twice; nothing is kept of the first execution.
func C19_LongText() {
	n := []int{60, 250, 20, 120, 300}[vf.Choose("length", vf.Bound("lengths", 2, 5))]
	cmd := longText(vf.Choose("kind", 10), n)
	f := &feed{name: "die", limit: 300, cut: true}
	b := bcdice.New(f)
	if vf.Choose("instances", 2) == 1 {
		g := &feed{name: "other die", limit: 300, cut: true}
		after(bcdice.New(g), b, g, f, cmd, cmd, vf.Choose("fresh", 2) == 1)
		return
	}
	after(b, b, f, f, cmd, cmd, vf.Choose("fresh", 2) == 1)
}

// C19_Count: hundreds of executions of the same commands with the same dice give the same results.
func C19_Count() {
	f := &ones{}
	b := bcdice.New(f)
	cmds := []string{"2D6", "1B6>0", "1R6[2]", "1U6[2]", "[1...6]D6", "C(1/0)"}
	var first []outcome
	for i := 0; i < vf.Bound("executions", 300, 1500); i++ {
		f.n = 0
		o := see(b.ExecuteCommand(cmds[i%len(cmds)]))
		if i < len(cmds) {
			first = append(first, o)
		}
		same(o, first[i%len(cmds)], "after many executions")
	}
	vf.Reach("repeated")
}
