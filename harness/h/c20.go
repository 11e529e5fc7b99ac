package h

import (
	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// anyNum is any number.
func anyNum(name string) int { return vf.Int(name, -1<<63, 1<<63-1) }

// anyDie is a die of any value and any number of sides.
func anyDie(name string) dice.Die {
	return dice.Die{Value: anyNum(name), Sides: anyNum(name)}
}

func someDice(name string, n int) []dice.Die {
	var d []dice.Die
	for i := 0; i < n; i++ {
		d = append(d, anyDie(name))
	}
	return d
}

// checkQueue compares what is seen of a queue with the list of dice it has to hold.
func checkQueue(q *feeder.Queue, want []dice.Die, when string) {
	vf.Assert(q.Remaining() == len(want), "the count of remaining dice "+when)
	vf.Assert(q.IsEmpty() == (len(want) == 0), "empty or not "+when)
	vf.Assert(sameDice(q.Dice(), want), "the listed dice "+when)
	vf.Assert(q.CanSpecifyDie(), "the dice of a queue can be specified")
}

// drain takes everything that is left.
func drain(q *feeder.Queue, want []dice.Die, when string) {
	for i := range want {
		d, err := q.Next(anyNum("sides"))
		vf.Assert(err == nil, "no die from a filled queue "+when)
		vf.Assert(vf.And(d.Value == want[i].Value, d.Sides == want[i].Sides), "dice out of order "+when)
	}
	_, err := q.Next(anyNum("sides"))
	vf.Assert(err != nil, "a die from an empty queue "+when)
	checkQueue(q, nil, "after the last die "+when)
}

// spoil overwrites a slice, and what lies behind its end.
func spoil(d []dice.Die) {
	for i := range d {
		d[i] = dice.Die{Value: -1, Sides: -1}
	}
	d = append(d, dice.Die{Value: -2, Sides: -2})
	d[len(d)-1].Value = -3
}

// newQueue is a queue made in one of the documented ways, with its content.
func newQueue(max int) (*feeder.Queue, []dice.Die) {
	switch vf.Choose("made", 3) {
	case 0:
		return feeder.NewEmptyQueue(), nil
	case 1:
		var none []dice.Die
		return feeder.NewQueue(none), nil
	}
	given := make([]dice.Die, 0, 8)
	given = append(given, someDice("die", 1+vf.Choose("n", max))...)
	want := append([]dice.Die(nil), given...)
	q := feeder.NewQueue(given)
	spoil(given)
	return q, want
}

// step does one operation on the queue and on the list.
func step(q *feeder.Queue, want []dice.Die) []dice.Die {
	switch vf.Choose("op", 7) {
	case 0:
		d := anyDie("die")
		q.Push(d)
		return append(want, d)
	case 1:
		given := make([]dice.Die, 0, 8)
		given = append(given, someDice("die", vf.Choose("n", 3))...)
		want = append(want, given...)
		q.Append(given)
		spoil(given)
		return want
	case 2:
		given := make([]dice.Die, 0, 8)
		given = append(given, someDice("die", vf.Choose("n", 3))...)
		want = append([]dice.Die(nil), given...)
		q.Set(given)
		spoil(given)
		return want
	case 3:
		q.Clear()
		return nil
	case 4:
		shown := q.Dice()
		spoil(shown)
		return want
	case 5:
		// the queue's own listing is given back to it
		q.Set(q.Dice())
		return want
	}
	d, err := q.Next(anyNum("sides"))
	if len(want) == 0 {
		vf.Assert(err != nil, "a die from an empty queue")
		return want
	}
	vf.Assert(err == nil, "no die from a filled queue")
	vf.Assert(vf.And(d.Value == want[0].Value, d.Sides == want[0].Sides), "another die than the first one queued")
	return want[1:]
}

// C20_History: operations in any order.
func C20_History() {
	q, want := newQueue(2)
	checkQueue(q, want, "at first")
	n := vf.Bound("operations", 4, 5)
	for i := 0; i < n; i++ {
		want = step(q, want)
		checkQueue(q, want, "after an operation")
	}
	drain(q, want, "at the end")
}

// C20_Kept: listings and other queues are not changed by what is done to a queue.
func C20_Kept() {
	given := make([]dice.Die, 0, 8)
	given = append(given, someDice("die", 1+vf.Choose("n", 3))...)
	kept := append([]dice.Die(nil), given...)
	var q, p *feeder.Queue
	if vf.Choose("made", 2) == 0 {
		q, p = feeder.NewQueue(given), feeder.NewQueue(given)
	} else {
		q, p = feeder.NewEmptyQueue(), feeder.NewEmptyQueue()
		q.Set(given)
		p.Set(given)
	}
	shown := q.Dice()
	other := feeder.NewQueue(shown)
	want := append([]dice.Die(nil), kept...)
	n := vf.Bound("operations", 2, 3)
	for i := 0; i < n; i++ {
		want = step(q, want)
		vf.Assert(sameDice(given, kept), "the given dice changed")
		vf.Assert(sameDice(shown, kept), "listed dice changed")
		checkQueue(p, kept, "of another queue")
		checkQueue(other, kept, "of a queue made of the listing")
	}
	checkQueue(q, want, "at the end")
	drain(p, kept, "of another queue")
	checkQueue(q, want, "at the very end")
}

// C20_Growing: a long queue, part of which is taken now and then.
func C20_Growing() {
	q := feeder.NewEmptyQueue()
	var want []dice.Die
	n := vf.Bound("rounds", 12, 40)
	put, take := 1+vf.Choose("put", 4), vf.Choose("take", 3)
	for i := 0; i < n; i++ {
		for j := 0; j < put; j++ {
			d := anyDie("die")
			if j == 1 {
				q.Append([]dice.Die{d})
			} else {
				q.Push(d)
			}
			want = append(want, d)
		}
		for j := 0; j < take && len(want) > 0; j++ {
			d, err := q.Next(6)
			vf.Assert(err == nil, "no die from a filled queue")
			vf.Assert(vf.And(d.Value == want[0].Value, d.Sides == want[0].Sides), "another die than the first one queued")
			want = want[1:]
		}
	}
	checkQueue(q, want, "after many operations")
	drain(q, want, "after many operations")
}

// C20_Roll: dice rolled from a queue are its first ones, the others stay; a queue that is too short is an error.
func C20_Roll() {
	n := vf.Choose("queued", 5)
	num := 1 + vf.Choose("num", 4)
	sides := vf.Int("sides", 1, 1<<62)
	var given []dice.Die
	for i := 0; i < n; i++ {
		given = append(given, dice.Die{Value: vf.IntT("value", 1, sides), Sides: sides})
	}
	q := feeder.NewQueue(given)
	r := roller.New(q)
	vf.Assert(r.DieFeeder() == feeder.DieFeeder(q), "the dice source of the roller")
	got, err := r.RollDice(num, sides)
	if num > n {
		vf.Assert(err != nil, "more dice than are queued")
		return
	}
	vf.Assert(err == nil, "queued dice are refused")
	vf.Assert(sameDice(got, given[:num]), "the rolled dice")
	checkQueue(q, given[num:], "after the roll")
	spoil(got)
	checkQueue(q, given[num:], "after writing to the rolled dice")
	if num < n {
		got, err = r.RollDice(n-num, sides)
		vf.Assert(err == nil && sameDice(got, given[num:]), "the second roll")
	}
	checkQueue(q, nil, "after all rolls")
}

// C20_Command: a command draws the queued dice in order and leaves the others.
func C20_Command() {
	cmd := []string{"2D6", "1D6+1D4", "1D6>=3", "2B6", "1B6+2B4", "2R6>=5", "1U6[5]", "CHOICE[a,b]", "[1...4]D6", "C(1)", "x", "1D6/0", "[1...3]B[1...3]"}[vf.Choose("cmd", 13)]
	f := &feed{name: "die", limit: 5, cut: true}
	o := see(exec(f, cmd))
	extra := someDice("extra", vf.Choose("extra", 3))
	all := append(append([]dice.Die(nil), f.drawn...), extra...)
	var q *feeder.Queue
	if vf.Choose("made", 2) == 0 {
		q = feeder.NewQueue(all)
	} else {
		q = feeder.NewEmptyQueue()
		q.Set(all)
	}
	b := bcdice.New(q)
	vf.ObsS("cmd", cmd)
	r, err := b.ExecuteCommand(cmd)
	same(see(r, err), o, "with queued dice")
	checkQueue(q, extra, "after a command")
	if err == nil {
		spoil(r.RolledDice)
		checkQueue(q, extra, "after writing to the dice of a result")
	}
	if len(f.drawn) > 0 {
		short := feeder.NewQueue(f.drawn[:len(f.drawn)-1])
		_, err := bcdice.New(short).ExecuteCommand(cmd)
		vf.Assert(err != nil, "a command got more dice than were queued")
		checkQueue(short, nil, "after a command that needs more")
	}
}

// C20_Thousands: thousands of dice.
func C20_Thousands() {
	n := []int{65, 257, 1025, 5000}[vf.Choose("dice", vf.Bound("numbers of dice", 3, 4))]
	at := []int{0, 63, 64, n - 2, n - 1}[vf.Choose("open", 5)]
	d := make([]dice.Die, n)
	for i := range d {
		d[i] = dice.Die{Value: i, Sides: -i}
	}
	d[at] = anyDie("die")
	want := append([]dice.Die{}, d...)
	var q *feeder.Queue
	switch vf.Choose("made", 4) {
	case 0:
		q = feeder.NewQueue(d)
	case 1:
		q = feeder.NewQueue([]dice.Die{{Value: 1, Sides: 2}})
		q.Set(d)
	case 2:
		q = feeder.NewEmptyQueue()
		q.Append(d)
	case 3:
		q = feeder.NewEmptyQueue()
		for _, x := range d {
			q.Push(x)
		}
	}
	spoil(d)
	checkQueue(q, want, "of a large queue")
	spoil(q.Dice())
	for i := 0; i < n-3; i++ {
		x, err := q.Next(6)
		vf.Assert(err == nil, "no die from a filled queue")
		vf.Assert(vf.And(x.Value == want[i].Value, x.Sides == want[i].Sides), "another die than the first one queued")
	}
	want = want[n-3:]
	x := anyDie("last")
	q.Push(x)
	want = append(want, x)
	checkQueue(q, want, "near the end of a large queue")
	drain(q, want, "of a large queue")
}
