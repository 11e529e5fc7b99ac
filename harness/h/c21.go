package h

import (
	"errors"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/pkg/dicebot"
	"github.com/raa0121/GoBCDice/pkg/dicebot/list"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// gameText is any text up to a length, and texts near the identifier of the default system.
func gameText(max int) string {
	switch vf.Choose("text", 5) {
	case 0:
		return "DiceBot" + vf.Str("id", vf.Choose("n", 3), "")
	case 1:
		return vf.Str("id", 1+vf.Choose("n", 2), "") + "DiceBot"
	case 2:
		// each letter in either case
		s := []byte("DiceBot")
		for i := range s {
			if vf.Bool("case") {
				s[i] ^= 32
			}
		}
		return string(s)
	case 3:
		return "DiceBot"[:vf.Choose("n", 7)]
	}
	return vf.Str("id", vf.Choose("n", max+1), "")
}

// own is a game system with commands of its own.
type own struct {
	id, name, key string
	f             func(string, *evaluator.Evaluator) (*command.Result, error)
	asked         []string
}

func (o *own) GameID() string   { return o.id }
func (o *own) GameName() string { return o.name }
func (o *own) Usage() string    { return "" }
func (o *own) SortKey() string  { return o.key }
func (o *own) ExecuteCommand(c string, ev *evaluator.Evaluator) (*command.Result, error) {
	o.asked = append(o.asked, c)
	if o.f == nil {
		return nil, errors.New("no such command")
	}
	return o.f(c, ev)
}

var _ dicebot.DiceBot = (*own)(nil)

func isBasic(b dicebot.DiceBot) bool {
	return b != nil && vf.And(b.GameID() == "DiceBot", b.GameName() == "ダイスボット (指定無し)")
}

// C21_Default: only the identifier of the default system is found.
func C21_Default() {
	id := gameText(vf.Bound("identifier length", 8, 12))
	vf.ObsS("id", id)
	c, err := list.Find(id)
	if vf.StrEq(id, "DiceBot") {
		vf.Reach("default")
		vf.Assert(err == nil, "the default system is not found")
		vf.Assert(c != nil && isBasic(c()), "another system than the default one")
		return
	}
	vf.Assert(err != nil, "a system of another identifier is found")
}

// C21_Set: selecting a system by identifier, and the label of results before and after.
func C21_Set() {
	id := gameText(vf.Bound("identifier length", 8, 10))
	vf.ObsS("id", id)
	b := bcdice.New(&ones{})
	vf.Assert(isBasic(b.DiceBot), "the system of a new instance")
	var was dicebot.DiceBot = b.DiceBot
	custom := vf.Choose("selected", 2) == 1
	label := "DiceBot"
	if custom {
		label = "Other"
		was = &own{id: label}
		b.DiceBot = was
	}
	err := b.SetDiceBotByGameID(id)
	if vf.StrEq(id, "DiceBot") {
		vf.Reach("default")
		vf.Assert(err == nil, "the default system is refused")
		label = "DiceBot"
		vf.Assert(isBasic(b.DiceBot), "another system than the default one")
	} else {
		vf.Assert(err != nil, "an unknown system is accepted")
		vf.Assert(b.DiceBot == was, "the selected system changed by a refused selection")
	}
	r, err := b.ExecuteCommand("1D6")
	vf.Assert(err == nil && r.GameID == label, "the label of a result")
}

// checkList compares the published lists with each other and with the lookup.
func checkList(want []string) {
	ids := list.AvailableGameIDs(true)
	vf.Assert(len(ids) == len(want), "the number of published identifiers")
	for i := range want {
		vf.Assert(ids[i] == want[i], "the published identifiers")
	}
	others := list.AvailableGameIDs(false)
	vf.Assert(len(others) == len(want)-1, "the number of identifiers without the default one")
	for i := range others {
		vf.Assert(others[i] == want[i+1], "the identifiers without the default one")
	}
	for _, id := range ids {
		c, err := list.Find(id)
		vf.Assert(err == nil && c != nil, "a published system is not found")
		vf.Assert(c().GameID() == id, "another system than the published one")
		b := bcdice.New(&ones{})
		vf.Assert(b.SetDiceBotByGameID(id) == nil, "a published system is refused")
		vf.Assert(b.DiceBot.GameID() == id, "another system than the published one is selected")
		r, err := b.ExecuteCommand("1D6")
		vf.Assert(err == nil && r.GameID == id, "the label of a result of a published system")
	}
	for _, basic := range []bool{true, false} {
		infos := list.AvailableGameInfos(basic).Name
		n := len(want)
		if !basic {
			n--
		}
		vf.Assert(len(infos) == n, "the number of published names")
		seen := map[string]bool{}
		for i, x := range infos {
			c, err := list.Find(x.System)
			vf.Assert(err == nil && c != nil, "a system with a published name is not found")
			b := c()
			vf.Assert(b.GameID() == x.System && b.GameName() == x.Name && b.SortKey() == x.SortKey, "the published name of a system")
			vf.Assert(!seen[x.System], "a system is published twice")
			vf.Assert(basic || x.System != "DiceBot", "the default system in the list without it")
			seen[x.System] = true
			if basic && i == 0 {
				vf.Assert(x.System == "DiceBot", "the default system comes first")
			} else if i > 0 && !(basic && i == 1) {
				vf.Assert(infos[i-1].SortKey <= x.SortKey, "the names are in the order of their keys")
			}
		}
	}
}

// C21_List: the published lists, which are not connected to those given out before.
func C21_List() {
	want := list.AvailableGameIDs(true)
	vf.Assert(len(want) > 0 && want[0] == "DiceBot", "the default system comes first")
	checkList(want)
	a, b := list.AvailableGameIDs(true), list.AvailableGameIDs(false)
	n, m := list.AvailableGameInfos(true).Name, list.AvailableGameInfos(false).Name
	keep := append([]string(nil), a...)
	for i := range a {
		a[i] = "?"
	}
	for i := range b {
		b[i] = "?"
	}
	_, _ = append(a, "?"), append(b, "?")
	for i := range n {
		n[i] = list.SystemInfo{}
	}
	for i := range m {
		m[i] = list.SystemInfo{}
	}
	checkList(keep)
}

// C21_Registered: with further systems in the table.
func C21_Registered() {
	base := list.AvailableGameIDs(true)
	if len(base) != 1 {
		return
	}
	n := 1 + vf.Choose("systems", 3)
	ids := []string{"Ccc", "Aaa", "dicebot"}[:n]
	sorted := append([]string{"DiceBot"}, [][]string{{"Ccc"}, {"Aaa", "Ccc"}, {"Aaa", "Ccc", "dicebot"}}[n-1]...)
	keys := []string{"b", "c", "a"}
	for i := range ids {
		x := own{id: ids[i], name: "name of " + ids[i], key: keys[i]}
		undo := list.VerifRegister(ids[i], func() dicebot.DiceBot { y := x; return &y })
		if undo == nil {
			return // there is no table
		}
		defer undo()
	}
	vf.Reach("registered")
	times := 1
	if !vf.Symbolic() {
		times = 40 // the order of the table differs from call to call
	}
	for i := 0; i < times; i++ {
		checkList(sorted)
	}
	// any text finds at most the system it names
	id := vf.Str("id", 3, "")
	if vf.Choose("text", 3) == 1 {
		id = "DiceBot"
	} else if vf.Choose("text", 2) == 1 {
		id = "dicebot"
	}
	c, err := list.Find(id)
	found := false
	for _, s := range sorted {
		if vf.StrEq(s, id) {
			found = true
			vf.Assert(err == nil && c().GameID() == s, "a registered system is not found")
		}
	}
	if !found {
		vf.Assert(err != nil, "a system is found that is not published")
	}
	// two instances of a system are two systems
	if n == 2 && err == nil && id != "DiceBot" {
		p, q := c().(*own), c().(*own)
		vf.Assert(p != q, "one system shared by two lookups")
	}
}

// C21_Label: results are labelled with the selected system, whatever the command.
func C21_Label() {
	id := vf.Str("id", vf.Choose("n", 4), "")
	var cmd string
	if vf.Bound("commands from all patterns", 0, 1) == 1 {
		cmd = anyCommand("pattern", 0, firstBad)
	} else if vf.Choose("kind", 2) == 1 {
		cmd = earlier[vf.Choose("cmd", len(earlier))]
	} else {
		cmd = []string{"2D6+", "1D6>=", "2B6>=", "1R6>=", "1U6[6]+", "C(3*", "D"}[vf.Choose("cmd", 7)] + vf.Str("k", 1, "0123456789")
		if cmd[0] == 'C' {
			cmd += ")"
		}
	}
	f := &feed{name: "die", limit: 4, cut: true}
	b := bcdice.New(f)
	want := "DiceBot"
	how := vf.Choose("how", 3)
	if how > 0 {
		b.DiceBot = &own{id: id}
		want = id
	}
	if how == 2 {
		g := &feed{name: "die", limit: 4, cut: true}
		b.SetDieFeeder(g)
		vf.Assert(b.DieFeeder() == (interface{})(g), "the selected dice source")
		vf.Assert(b.SetDiceBotByGameID("unknown") != nil, "an unknown system is accepted")
	}
	vf.ObsS("cmd", cmd)
	r, err := b.ExecuteCommand(cmd)
	if err != nil {
		return
	}
	vf.Reach("executed")
	vf.Assert(vf.StrEq(r.GameID, want), "the label of the result")
	r, err = b.ExecuteBasicCommand(cmd)
	if err == nil {
		vf.Assert(vf.StrEq(r.GameID, want), "the label of the result of a basic command")
	}
}

// C21_Own: a command the selected system knows is executed by it, others are executed as basic commands.
func C21_Own() {
	cmd := []string{"2D6>=7", "C(1)", "TEST", "1B6", "CHOICE[a,b]"}[vf.Choose("cmd", 5)]
	secret := vf.Bool("secret")
	text := cmd
	if secret {
		text = []string{"S", "s"}[vf.Choose("marker", 2)] + cmd
	}
	if vf.Choose("rest", 2) == 1 && cmd != "CHOICE[a,b]" {
		text += " attack"
	}
	knows := vf.Bool("known to the system")
	f := &feed{name: "die", limit: 4, cut: true}
	b := bcdice.New(f)
	sys := &own{id: "Own"}
	if knows {
		sys.f = func(c string, ev *evaluator.Evaluator) (*command.Result, error) {
			return &command.Result{GameID: "Own", MessageParts: []string{c, "own"}}, nil
		}
	}
	b.DiceBot = sys
	vf.ObsS("text", text)
	r, err := b.ExecuteCommand(text)
	vf.Assert(len(sys.asked) == 1 && sys.asked[0] == cmd, "the command the system is asked for")
	if knows {
		vf.Assert(err == nil, "a command of the system fails")
		vf.Assert(r.GameID == "Own" && len(r.MessageParts) == 2 && r.MessageParts[0] == cmd && r.MessageParts[1] == "own", "the result of a command of the system")
		vf.Assert(r.IsSecret == secret, "the secret flag of a command of the system")
		vf.Assert(len(f.drawn) == 0, "dice rolled beside a command of the system")
		r, err = b.ExecuteDiceBotCommand(cmd)
		vf.Assert(err == nil && len(r.MessageParts) == 2, "a command of the system, asked for directly")
		return
	}
	if cmd == "TEST" {
		vf.Assert(err != nil, "an unknown command")
		return
	}
	vf.Assert(err == nil && r.GameID == "Own", "a basic command of a system")
	vf.Assert(r.IsSecret == secret, "the secret flag of a basic command")
	o := see(r, nil)
	g := &replayFeed{dice: f.drawn}
	x := see(bcdice.New(g).ExecuteBasicCommand(cmd))
	vf.Assert(len(o.parts) == len(x.parts) && sameDice(o.dice, x.dice) && o.succ == x.succ, "a basic command differs under another system")
	for i := range o.parts {
		vf.Assert(o.parts[i] == x.parts[i], "the message of a basic command differs under another system")
	}
}
