package h

import (
	"strconv"

	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// explode is the meaning of an exploding roll: the groups, in rolling order.
func (r *ref) explode(rs []rollSpec, threshold int) [][]int {
	type pending struct{ n, m int }
	var q []pending
	for _, x := range rs {
		q = append(q, pending{x.n.n, x.m.n})
	}
	var groups [][]int
	for len(q) > 0 {
		p := q[0]
		q = q[1:]
		var g []int
		again := 0
		for i := 0; i < p.n; i++ {
			v := r.die(p.m)
			g = append(g, v)
			if v >= threshold {
				again++
			}
		}
		groups = append(groups, g)
		if again > 0 {
			q = append(q, pending{again, p.m})
		}
	}
	return groups
}

func groupsText(gs [][]int) string {
	s := ""
	for i, g := range gs {
		if i > 0 {
			s += " + "
		}
		s += joinInts(g, ",")
	}
	return s
}

func flat(gs [][]int) []int {
	var vs []int
	for _, g := range gs {
		vs = append(vs, g...)
	}
	return vs
}

func checkExplode(rs []rollSpec, cmd string, threshold int, op string, target int, limit int) {
	f, r, err := run(cmd, limit)
	checkExploded(f, r, err, rs, threshold, op, target)
}

func checkExploded(f *feed, r *command.Result, err error, rs []rollSpec, threshold int, op string, target int) {
	vf.Assert(err == nil, "an exploding roll failed")
	rf := &ref{drawn: f.drawn}
	gs := rf.explode(rs, threshold)
	vf.Assert(rf.pos == len(f.drawn), "more dice were drawn than the explosions call for")
	p := r.MessageParts
	if op == "" {
		vf.Assert(len(p) == 2, "an exploding roll does not have two message parts")
	} else {
		vf.Assert(len(p) == 3, "a compared exploding roll does not have three message parts")
	}
	vf.Assert(p[1] == groupsText(gs), "the groups are not listed in rolling order")
	vf.Assert(sameDice(r.RolledDice, f.drawn), "the rolled dice are not the dice drawn")
	if op != "" {
		vf.Assert(p[2] == "成功数"+strconv.Itoa(count(flat(gs), op, target)), "the number of successes is wrong")
	}
	vf.Reach("exploded")
}

// C05_List: nRm+...[t].
func C05_List() {
	rs, s := genRolls("R", vf.Bound("rolls", 3, 3), 2, 1)
	t := numIn("t", 1, 2, 9)
	checkExplode(rs, s+"["+t.s+"]", t.n, "", 0, vf.Bound("dice", 7, 9))
}

// C05_Comp: with a threshold and a comparison.
func C05_Comp() {
	rs, s := genRolls("R", 2, 2, 1)
	t, u := numIn("t", 1, 2, 9), num("u", 1)
	op := cmpOps[vf.Choose("cmp", 6)]
	checkExplode(rs, s+"["+t.s+"]"+op+u.s, t.n, op, u.n, vf.Bound("dice", 5, 7))
}

// C05_Default: the comparison target serves as the threshold, whatever the operator.
func C05_Default() {
	rs, s := genRolls("R", 2, 2, 1)
	op := cmpOps[vf.Choose("cmp", 6)]
	var u *tr
	switch vf.Choose("target", 3) {
	case 0:
		u = numIn("u", 1, 2, 9)
	case 1:
		u = bin("+-*"[vf.Choose("top", 3)], num("u", 1), num("v", 1))
		rf := &ref{}
		vf.Assume(rf.value(u) >= 2)
	case 2:
		u = numIn("u", 2, 2, 99)
	}
	rf := &ref{}
	tv := rf.value(u)
	checkExplode(rs, s+op+u.text(1), tv, op, tv, vf.Bound("dice", 5, 7))
}

// C05_Threshold: the threshold is an expression, sides and threshold of two digits.
func C05_Threshold() {
	m := num("m", 2)
	vf.Assume(m.n >= 1)
	rs := []rollSpec{{numIn("n", 1, 1, 3), m}}
	t := bin("+-*/"[vf.Choose("top", 4)], num("t", 2), num("u", 1))
	rf := &ref{}
	tv := rf.value(t)
	vf.Assume(rf.err == "")
	vf.Assume(tv >= 2)
	checkExplode(rs, rs[0].n.s+"r"+m.s+"["+t.text(1)+"]", tv, "", 0, vf.Bound("dice", 6, 8))
}

// C05_Pending: several groups are pending when one explodes.
func C05_Pending() {
	rs, s := genRolls("R", vf.Bound("rolls", 5, 6), 1, 1)
	t := numIn("t", 1, 4, 9)
	for _, x := range rs {
		vf.Assume(vf.Or(x.m.n == 6, x.m.n == 8))
	}
	checkExplode(rs, s+"["+t.s+"]", t.n, "", 0, vf.Bound("dice", 8, 10))
}
