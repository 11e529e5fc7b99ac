package h

import (
	"strconv"

	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// chains is the meaning of a compounding roll: one chain per die.
func (r *ref) chains(rs []rollSpec, threshold int) [][]int {
	var cs [][]int
	for _, x := range rs {
		for i := 0; i < x.n.n; i++ {
			var c []int
			for {
				v := r.die(x.m.n)
				c = append(c, v)
				if v < threshold {
					break
				}
			}
			cs = append(cs, c)
		}
	}
	return cs
}

func sumOf(c []int) int {
	s := 0
	for _, v := range c {
		s += v
	}
	return s
}

func chainsText(cs [][]int, mod int) string {
	s := ""
	for i, c := range cs {
		if i > 0 {
			s += ","
		}
		s += strconv.Itoa(sumOf(c))
		if len(c) > 1 {
			s += "[" + joinInts(c, ",") + "]"
		}
	}
	return s + modText(mod)
}

func checkCompound(rs []rollSpec, cmd string, threshold int, mod int, op string, target int, limit int) {
	f, r, err := run(cmd, limit)
	checkChains(f, r, err, rs, threshold, mod, op, target)
}

func checkChains(f *feed, r *command.Result, err error, rs []rollSpec, threshold int, mod int, op string, target int) {
	vf.Assert(err == nil, "a compounding roll failed")
	rf := &ref{drawn: f.drawn}
	cs := rf.chains(rs, threshold)
	vf.Assert(rf.pos == len(f.drawn), "more dice were drawn than the chains call for")
	p := r.MessageParts
	vf.Assert(len(p) == 3, "a compounding roll does not have three message parts")
	vf.Assert(p[1] == chainsText(cs, mod), "the chains are not listed as rolled")
	vf.Assert(sameDice(r.RolledDice, f.drawn), "the rolled dice are not the dice drawn")
	if op == "" {
		max, sum := 0, 0
		for i, c := range cs {
			v := sumOf(c)
			sum += v
			if i == 0 || v > max {
				max = v
			}
		}
		vf.Assert(p[2] == strconv.Itoa(max+mod)+"/"+strconv.Itoa(sum+mod)+" (最大/合計)", "the maximum or the sum is wrong")
		vf.Reach("totals")
		return
	}
	var ts []int
	for _, c := range cs {
		ts = append(ts, sumOf(c)+mod)
	}
	vf.Assert(p[2] == "成功数"+strconv.Itoa(count(ts, op, target)), "the number of successes is wrong")
	vf.Reach("counted")
}

// genMod is a modifier of up to two terms.
func genMod(full bool) (string, int) {
	k := 4
	if full {
		k = 8
	}
	a := num("a", 1)
	switch vf.Choose("modifier", k) {
	case 0:
		return "", 0
	case 1:
		return "+" + a.s, a.n
	case 2:
		return "-" + a.s, -a.n
	case 3:
		b := num("b", 1)
		return "-" + a.s + "-" + b.s, -a.n - b.n
	case 4:
		b := num("b", 1)
		return "+" + a.s + "-" + b.s, a.n - b.n
	case 5:
		b := num("b", 1)
		return "-" + a.s + "*" + b.s + "+1", -a.n*b.n + 1
	case 6:
		b := num("b", 2)
		return "-(" + a.s + "-" + b.s + ")", -(a.n - b.n)
	}
	b := num("b", 1)
	return "+-" + a.s + "+" + b.s, -a.n + b.n
}

// C06_Expr: nUm+...[t]+modifier.
func C06_Expr() {
	rs, s := genRolls("U", 2, 2, 1)
	t := numIn("t", 1, 2, 9)
	m, mv := genMod(false)
	checkCompound(rs, s+"["+t.s+"]"+m, t.n, mv, "", 0, vf.Bound("dice", 5, 7))
}

// C06_Mods: every form of modifier.
func C06_Mods() {
	rs := []rollSpec{{numIn("n", 1, 1, 2), lit(6)}}
	m, mv := genMod(true)
	s := rs[0].n.s + "u6[" + "6]" + m
	if vf.Choose("compare", 2) == 0 {
		checkCompound(rs, s, 6, mv, "", 0, 4)
		return
	}
	op := cmpOps[vf.Choose("cmp", 6)]
	u := num("u", 2)
	checkCompound(rs, s+op+u.s, 6, mv, op, u.n, 4)
}

// C06_Comp: with a comparison.
func C06_Comp() {
	rs, s := genRolls("U", 2, 2, 1)
	t := numIn("t", 1, 2, 9)
	op := cmpOps[vf.Choose("cmp", 6)]
	u := num("u", 2)
	m, mv := "", 0
	if vf.Choose("modifier", 2) == 1 {
		a := num("a", 1)
		m, mv = "+"+a.s, a.n
	}
	checkCompound(rs, s+"["+t.s+"]"+m+op+u.s, t.n, mv, op, u.n, vf.Bound("dice", 5, 6))
}

// C06_Big: sides and threshold of two digits, threshold an expression, more dice.
func C06_Big() {
	m := num("m", 2)
	vf.Assume(m.n >= 1)
	rs := []rollSpec{{numIn("n", 1, 1, 4), m}}
	t := bin("+-"[vf.Choose("top", 2)], num("t", 2), num("u", 1))
	rf := &ref{}
	tv := rf.value(t)
	vf.Assume(tv >= 2)
	checkCompound(rs, rs[0].n.s+"u"+m.s+"["+t.text(1)+"]", tv, 0, "", 0, vf.Bound("dice", 6, 8))
}
