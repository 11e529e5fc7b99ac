package h

import (
	"strconv"
	"strings"

	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/helpers"
	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/dicebot"
	"github.com/raa0121/GoBCDice/pkg/dicebot/list"
	dicebottesting "github.com/raa0121/GoBCDice/pkg/dicebot/testing"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// Long, deep and large commands: few shapes, with some of the numbers and all dice left open.

// chain is operand op operand op ..., read with the usual precedences.
func chain(operand []*tr, op []byte) *tr {
	var sum *tr
	var sumOp byte
	cur := operand[0]
	for i, o := range op {
		if o != '+' && o != '-' {
			cur = bin(o, cur, operand[i+1])
			continue
		}
		if sum == nil {
			sum = cur
		} else {
			sum = bin(sumOp, sum, cur)
		}
		sumOp = o
		cur = operand[i+1]
	}
	if sum == nil {
		return cur
	}
	return bin(sumOp, sum, cur)
}

// longTree is a long or deep expression over the given operands.
func longTree(form int, x []*tr, ops string) *tr {
	var op []byte
	for i := 1; i < len(x); i++ {
		op = append(op, ops[(i*i+i/3)%len(ops)])
	}
	n := len(x)
	switch form {
	case 0: // without parentheses
		return chain(x, op)
	case 1: // leaning to the left
		t := x[0]
		for i := 1; i < n; i++ {
			t = bin(op[i-1], t, x[i])
		}
		return t
	case 2: // leaning to the right
		t := x[n-1]
		for i := n - 2; i >= 0; i-- {
			t = bin(op[i], x[i], t)
		}
		return t
	case 3: // balanced
		for len(x) > 1 {
			var y []*tr
			for i := 0; i+1 < len(x); i += 2 {
				y = append(y, bin(op[(i+len(x))%len(op)], x[i], x[i+1]))
			}
			if len(x)%2 == 1 {
				y = append(y, x[len(x)-1])
			}
			x = y
		}
		return x[0]
	case 4: // signs and parentheses around everything
		t := x[0]
		for i := 1; i < n; i++ {
			switch i % 3 {
			case 0:
				t = un('m', t)
			case 1:
				t = bin(op[i-1], x[i], t)
			default:
				t = un('(', t)
			}
		}
		return t
	}
	// groups of three in parentheses
	var ys []*tr
	var os []byte
	for i := 0; i < n; i += 3 {
		j := i + 3
		if j > n {
			j = n
		}
		ys = append(ys, un('(', chain(x[i:j], op[i:j-1])))
		if j < n {
			os = append(os, op[j-1])
		}
	}
	return chain(ys, os)
}

// C01_Long: long and deep expressions; two operands are open.
func C01_Long() {
	n := []int{9, 33, 100}[vf.Choose("size", vf.Bound("sizes", 2, 3))]
	var x []*tr
	for i := 0; i < n; i++ {
		x = append(x, lit((i*7+3)%11+1))
	}
	x[1] = num("a", 1)
	x[n-2] = num("b", vf.Bound("digits", 1, 2))
	ops := []string{"+-", "+-*/", "-/R+U*", "-"}[vf.Choose("operators", 4)]
	t := longTree(vf.Choose("form", 6), x, ops)
	checkCalc(t, "C("+t.text(1)+")")
}

// C01_Digits: literals of up to 19 digits.
func C01_Digits() {
	k := 1 + vf.Choose("digits", 18)
	s := strings.Repeat("9", k-1) + vf.Str("last digit", 1, "0123456789")
	v, _ := strconv.Atoi(strings.Repeat("9", k-1) + "0")
	x := &tr{op: 'n', n: v + int(s[k-1]-'0'), s: s}
	if vf.Choose("zeros", 2) == 1 {
		x.s = "000" + s
	}
	y := num("b", 1)
	checks := []*tr{x, bin('-', x, y), bin('-', y, x), un('m', x), bin('/', x, y), bin('*', bin('/', x, lit(10)), y)}
	t := checks[vf.Choose("form", len(checks))]
	checkCalc(t, "C("+t.text(1)+")")
}

// longRolls are n operands of a sum roll, most of them rolls.
func longRolls(n int) []*tr {
	var x []*tr
	for i := 0; i < n; i++ {
		switch i % 4 {
		case 1:
			x = append(x, lit(i+2))
		case 2:
			x = append(x, bin('D', lit(2), lit(4+i)))
		default:
			x = append(x, bin('D', lit(1), lit(100-i)))
		}
	}
	return x
}

// C02_Long: sums of many rolls.
func C02_Long() {
	n := []int{7, 14, 30}[vf.Choose("size", vf.Bound("sizes", 2, 3))]
	x := longRolls(n)
	x[1] = num("c", 1)
	t := longTree(vf.Choose("form", 6), x, "+-")
	checkSum(t, t.text(1), 3*n)
}

var largeCounts = []int{10, 16, 64, 99, 100, 101, 128, 255, 256, 257, 500, 999, 1000}

// C02_Large: hundreds of dice in one roll, and dice of very many sides.
func C02_Large() {
	n := largeCounts[vf.Choose("dice", len(largeCounts))]
	m := []int{1, 6, 100, 1000, 65537, 1<<31 - 1, 1 << 31, 1 << 40}[vf.Choose("sides", 8)]
	t := bin('D', lit(n), lit(m))
	limit := n + 2
	switch vf.Choose("more", vf.Bound("continuations", 2, 3)) {
	case 1:
		t = bin('+', bin('-', t, num("c", 1)), bin('D', lit(2), lit(3)))
	case 2:
		t, limit = bin('+', t, bin('D', lit(n), lit(m))), 2*n
	}
	checkSum(t, t.text(1), limit)
}

// C03_Long: the total of many rolls against a long target.
func C03_Long() {
	n := []int{7, 14, 30}[vf.Choose("size", vf.Bound("sizes", 2, 3))]
	t := longTree(vf.Choose("form", 3), longRolls(n), "+-")
	var y []*tr
	for i := 0; i < n; i++ {
		y = append(y, lit(3*i+1))
	}
	y[n/2] = num("t", 2)
	checkComp(t, cmpOps[vf.Choose("cmp", 6)], longTree(vf.Choose("target form", 3), y, "+-"), 3*n)
}

// mostly is a dice source of which only a few dice are open.
type mostly struct {
	feed
	open func(i int) bool
}

// fixedDie is what the other dice show.
func fixedDie(i, sides int) int { return 1 + (i*7)%sides }

func (f *mostly) Next(sides int) (dice.Die, error) {
	if i := len(f.drawn); i < f.limit && !f.open(i) {
		d := dice.Die{Value: fixedDie(i, sides), Sides: sides}
		f.drawn = append(f.drawn, d)
		return d, nil
	}
	return f.feed.Next(sides)
}

// ends are the first and the last of n.
func ends(n int) func(i int) bool { return func(i int) bool { return i == 0 || i == n-1 } }

// C03_Large: hundreds of dice, of which two are open, against a target near the total.
func C03_Large() {
	n := largeCounts[vf.Choose("dice", len(largeCounts))]
	m := []int{2, 6, 1 << 33}[vf.Choose("sides", 3)]
	f := &mostly{feed{name: "die", limit: n}, ends(n)}
	sum := 0
	for i := 1; i < n-1; i++ {
		sum += fixedDie(i, m)
	}
	u := num("u", 1)
	op := cmpOps[vf.Choose("cmp", 6)]
	t, cmd := sum+u.n, strconv.Itoa(n)+"D"+strconv.Itoa(m)+op+strconv.Itoa(sum)+"+"+u.s
	vf.ObsS("cmd", cmd)
	r, err := exec(f, cmd)
	vf.Assert(len(f.drawn) == n, "not exactly the written number of dice was drawn")
	checkVerdict(r, err, op, sum+f.drawn[0].Value+f.drawn[n-1].Value, t)
}

// C04_Long: many rolls in one list.
func C04_Long() {
	n := []int{6, 12, 40}[vf.Choose("size", vf.Bound("sizes", 2, 3))]
	var rs []rollSpec
	s := ""
	for i := 0; i < n; i++ {
		x := rollSpec{lit(1 + i%3), lit(3 + i*i%17)}
		rs = append(rs, x)
		if i > 0 {
			s += "+"
		}
		s += x.n.s + "B" + x.m.s
	}
	checkBasic(rs, s, 3*n, func(i int) bool { return i%5 == 0 })
}

// C04_Large: hundreds of dice in one roll.
func C04_Large() {
	n := largeCounts[vf.Choose("dice", len(largeCounts))]
	rs := []rollSpec{{lit(n), lit([]int{1, 6, 1000, 1 << 33}[vf.Choose("sides", 4)])}}
	s := rs[0].n.s + "B" + rs[0].m.s
	if vf.Choose("more", 2) == 1 {
		rs = append(rs, rollSpec{lit(2), lit(3)})
		s += "+2B3"
	}
	checkBasic(rs, s, n+2, ends(n))
}

func checkBasic(rs []rollSpec, s string, limit int, open func(i int) bool) {
	op, u := "", lit(3)
	if limit < 50 {
		u = num("u", 1)
	}
	if vf.Choose("compared", 2) == 1 {
		op = cmpOps[vf.Choose("cmp", 6)]
		s += op + u.s
	}
	f := &mostly{feed{name: "die", limit: limit}, open}
	vf.ObsS("cmd", s)
	r, err := exec(f, s)
	vf.Assert(err == nil, "a basic roll failed")
	rf := &ref{drawn: f.drawn}
	vs := rf.basicValues(rs)
	vf.Assert(rf.pos == len(f.drawn), "more dice were drawn than written")
	vf.Assert(r.MessageParts[1] == joinInts(vs, ","), "the listed dice are not the dice rolled, in order")
	if op != "" {
		vf.Assert(len(r.MessageParts) == 3, "a compared basic roll does not have three message parts")
		vf.Assert(vf.StrEq(r.MessageParts[2], "成功数"+strconv.Itoa(count(vs, op, u.n))), "the number of successes is not the number of dice that satisfy the comparison")
		return
	}
	vf.Assert(len(r.MessageParts) == 2, "a basic roll does not have two message parts")
	vf.Assert(sameDice(r.RolledDice, f.drawn), "the rolled dice are not the dice drawn")
}

// planned is a dice source whose dice reach the threshold t exactly where planned.
type planned struct {
	feed
	t      int
	hot    func(i int) bool
	opened int
}

func (f *planned) Next(sides int) (dice.Die, error) {
	i := len(f.drawn)
	if i >= f.limit {
		return dice.Die{}, errNoDice
	}
	lo, hi := 1, sides
	if f.hot(i) {
		vf.Assume(sides >= f.t)
		lo = f.t
	} else if hi >= f.t {
		hi = f.t - 1
	}
	if f.opened >= 6 {
		// enough open dice
		lo += i * 7 % (hi - lo + 1)
		hi = lo
	} else if lo < hi && (f.hot(i) || i%4 == 0) {
		f.opened++
	} else {
		hi = lo
	}
	d := dice.Die{Value: vf.IntT(f.name, lo, hi), Sides: sides}
	f.drawn = append(f.drawn, d)
	return d, nil
}

// longPlan is a list of many rolls of the given letter with the places of the dice that explode.
func longPlan(letter string) (rs []rollSpec, s string, t int, hot func(i int) bool, limit int) {
	t = 5
	form := vf.Choose("form", 7)
	add := func(n, m int) {
		rs = append(rs, rollSpec{lit(n), lit(m)})
		if s != "" {
			s += "+"
		}
		s += strconv.Itoa(n) + letter + strconv.Itoa(m)
	}
	switch form {
	case 0: // many rolls, one die explodes
		for i := 0; i < vf.Bound("rolls in a list", 9, 20); i++ {
			add(1+i%3, 5+i)
		}
		at := vf.Choose("at", 12)
		hot = func(i int) bool { return i == at }
		limit = 60
	case 1: // a long run of explosions of one die
		add(1, 6)
		if vf.Choose("more", 2) == 1 {
			add(2, 8)
		}
		k := []int{4, 9, 10, 11, 16, 33, 64, 100, 101, 128, 257}[vf.Choose("run", vf.Bound("runs", 9, 11))]
		if letter == "R" && len(rs) == 2 {
			// the groups of the other roll come in between
			hot = func(i int) bool { return i == 0 || i >= 3 && i < 2+k }
		} else {
			hot = func(i int) bool { return i < k }
		}
		limit = k + 10
	case 2: // many dice in one roll, two explode
		n := []int{10, 25, 100, 256}[vf.Choose("dice", vf.Bound("numbers of dice", 3, 4))]
		add(n, 6)
		at := vf.Choose("at", 8)
		hot = func(i int) bool { return i == at || i == n-1-at }
		limit = n + 10
	case 3: // all dice explode, round after round
		n := 2 + vf.Choose("dice", 5)
		add(n, 6)
		k := 2 + vf.Choose("rounds", 4)
		if letter == "U" {
			hot = func(i int) bool { return i%(k+1) != k }
		} else {
			hot = func(i int) bool { return i < n*k }
		}
		limit = n*(k+1) + 5
	case 4: // the dice that explode become fewer
		add(8, 6)
		add(1, 4)
		hot = func(i int) bool { return i%2 == 0 && i < 8 || i >= 9 && i < 12 || i == 14 }
		limit = 40
	case 5: // more dice in the list than one roll may have
		add(1000, 6)
		add(300, 9)
		at := []int{2, 999, 1000, 1299}[vf.Choose("at", 4)]
		hot = func(i int) bool { return i == at || i == 1300 }
		limit = 1310
	case 6: // very many rolls
		n := []int{70, 150, 300}[vf.Choose("rolls", vf.Bound("sizes of the list", 2, 3))]
		for i := 0; i < n; i++ {
			add(1, 6)
		}
		at := []int{0, 63, n - 1}[vf.Choose("at", 3)]
		hot = func(i int) bool { return i == at || i == n }
		limit = n + 10
	}
	return
}

// C05_Long: long lists, many dice, long runs of explosions.
func C05_Long() {
	rs, s, t, hot, limit := longPlan("R")
	f := &planned{feed: feed{name: "die", limit: limit}, t: t, hot: hot}
	op, u := "", lit(5)
	if limit < 300 {
		u = num("u", 1)
	}
	s += "[5]"
	if vf.Choose("compared", 2) == 1 {
		op = []string{">=", "=", "<>", "<", "<=", ">"}[vf.Choose("cmp", vf.Bound("comparisons", 2, 6))]
		s += op + u.s
	}
	vf.ObsS("cmd", s)
	r, err := exec(f, s)
	checkExploded(&f.feed, r, err, rs, t, op, u.n)
}

// C06_Long: the same with compounding rolls.
func C06_Long() {
	rs, s, t, hot, limit := longPlan("U")
	f := &planned{feed: feed{name: "die", limit: limit}, t: t, hot: hot}
	op, u := "", lit(5)
	if limit < 300 {
		u = num("u", 1)
	}
	s += "[5]"
	mod := 12
	if limit < 70 || vf.Bound("every modifier with the largest", 0, 1) == 1 {
		mod = []int{0, 12, -7}[vf.Choose("modifier", 3)]
	}
	s += modText(mod)
	if vf.Choose("compared", 2) == 1 {
		op = []string{">=", "=", "<>", "<", "<=", ">"}[vf.Choose("cmp", vf.Bound("comparisons", 2, 6))]
		s += op + u.s
	}
	vf.ObsS("cmd", s)
	r, err := exec(f, s)
	checkChains(&f.feed, r, err, rs, t, mod, op, u.n)
}

// C17_Long: the notation of long and deep expressions.
func C17_Long() {
	n := []int{6, 12, 30}[vf.Choose("size", vf.Bound("sizes", 2, 3))]
	ops := []string{"+-", "+-*", "-/+", "/-R+U"}[vf.Choose("operators", 4)]
	form := vf.Choose("form", 6)
	if vf.Choose("rolls", 2) == 1 {
		x := longRolls(n)
		x[1] = num("c", 1)
		t := longTree(form, x, ops)
		k := vf.Choose("open", 3)
		f := &mostly{feed{name: "die", limit: 3 * n, cut: true}, func(i int) bool { return i == k }}
		readBackFrom(&f.feed, f, t.text(1), 0, !t.showable(), "product-of-division")
		return
	}
	var x []*tr
	for i := 0; i < n; i++ {
		x = append(x, lit((i*7+3)%11+1))
	}
	x[1] = num("a", 1)
	t := longTree(form, x, ops)
	readBack("C("+t.text(1)+")", 1, 0, !t.showable(), "product-of-division")
}

// C18_Many: many random numbers in one command, from left to right.
func C18_Many() {
	n := []int{3, 5, 9, 20}[vf.Choose("numbers", vf.Bound("numbers of random numbers", 3, 4))]
	k := vf.Choose("kind", 4)
	kind := string([]byte{"DBRU"[k]})
	suffix := []string{"", ">=2", "[99]", "[99]+2"}[k]
	var x []*tr
	s := ""
	for i := 0; i < n; i++ {
		t := bin('?', lit(i+1), lit(2*i+2))
		x = append(x, t)
		if i > 0 {
			s += "+"
		}
		s += "1" + kind + t.operand()
	}
	at := vf.Choose("open", 3)
	f := &mostly{feed{name: "die", limit: 2 * n}, func(i int) bool { return i == at || i == n-1 || i == n+at }}
	sameFrom(&f.feed, f, s+suffix, false, func(r *ref) string {
		l := ""
		for i, t := range x {
			if i > 0 {
				l += "+"
			}
			l += "1" + kind + litText(r.value(t))
		}
		return l + suffix
	})
}

// C18_Deep: an operand that is a long expression of numbers and random numbers.
func C18_Deep() {
	n := vf.Bound("terms", 6, 12)
	var x []*tr
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			x = append(x, bin('?', lit(i), lit(i+2)))
		} else {
			x = append(x, lit(i+1))
		}
	}
	t := longTree(vf.Choose("form", 6), x, []string{"+", "+-"}[vf.Choose("operators", 2)])
	kind := string([]byte{"DBRU"[vf.Choose("kind", 4)]})
	suffix := map[string]string{"D": "-1", "B": "", "R": "[99]", "U": "[99]"}[kind]
	form := vf.Choose("place", 2)
	sameAsLiteral([]string{"1" + kind + t.operand(), t.operand() + kind + "1"}[form]+suffix, 60, func(r *ref) string {
		v := litText(r.value(t))
		return []string{"1" + kind + v, v + kind + "1"}[form] + suffix
	})
}

// C12_Long, C13_Long, C14_Long: the same over long texts.
func C12_Long() {
	cmd := longText(vf.Choose("kind", 10), []int{40, 200}[vf.Choose("length", 2)])
	f := &feed{name: "die", limit: 200, cut: true}
	a := see(bcdice.New(f).ExecuteCommand(cmd))
	g := &replayFeed{dice: f.drawn}
	b := see(bcdice.New(g).ExecuteCommand([]string{"S", "s"}[vf.Choose("marker", 2)] + cmd))
	vf.ObsS("cmd", cmd)
	if strings.HasPrefix(cmd, "S") {
		return
	}
	vf.Assert(!g.bad && g.pos == len(g.dice), "other dice are rolled with the secret marker")
	same(a, b, "with the secret marker")
	vf.Assert(!a.secret && b.secret == b.ok, "the secret flag does not tell whether there was a marker")
}

// C13_Long: long commands and long texts behind them.
func C13_Long() {
	cmd := longText(vf.Choose("kind", 8), []int{40, 150}[vf.Choose("length", 2)])
	vf.Assume(!strings.ContainsAny(cmd, " "))
	f := &feed{name: "die", limit: 200, cut: true}
	a := see(bcdice.New(f).ExecuteCommand(cmd))
	g := &replayFeed{dice: f.drawn}
	tail := []string{"x", "2D6", "あいう", "a b  c", "1D6\t-"}[vf.Choose("tail", 5)]
	tail = strings.Repeat(tail, []int{1, 30}[vf.Choose("repeated", 2)])
	b := see(bcdice.New(g).ExecuteCommand(cmd + []string{" ", "  ", "\t", "\n"}[vf.Choose("space", 4)] + tail))
	vf.ObsS("cmd", cmd)
	vf.Assert(a.ok == b.ok, "a text behind a command changes it")
	if !a.ok {
		return
	}
	vf.Assert(!g.bad && g.pos == len(g.dice), "other dice are rolled with a text behind the command")
	same(a, b, "with a text behind the command")
	vf.Assert(a.succ != command.SUCCESS_CHECK_SUCCESS || b.succ == a.succ, "with a text behind the command")
}

// C14_Long: long commands in the other case.
func C14_Long() {
	cmd := longText([]int{0, 1, 2, 3, 4, 6, 7, 8}[vf.Choose("kind", 8)], []int{40, 150}[vf.Choose("length", 2)])
	f := &feed{name: "die", limit: 200, cut: true}
	a := see(bcdice.New(f).ExecuteCommand(cmd))
	g := &replayFeed{dice: f.drawn}
	b := see(bcdice.New(g).ExecuteCommand(strings.ToLower(cmd)))
	vf.ObsS("cmd", cmd)
	vf.Assert(a.ok == b.ok, "another case makes a command an error, or the other way round")
	if !a.ok {
		return
	}
	vf.Assert(!g.bad && g.pos == len(g.dice), "other dice are rolled in another case")
	same(a, b, "in another case")
	vf.Assert(a.secret == b.secret, "another secret flag in another case")
}

// C20_Large: hundreds of dice, given at once or one after the other, taken in parts.
func C20_Large() {
	n := []int{17, 65, 130, 300, 1030}[vf.Choose("dice", vf.Bound("numbers of dice", 4, 5))]
	want := someDice("die", n)
	var q *feeder.Queue
	switch vf.Choose("made", 4) {
	case 0:
		q = feeder.NewQueue(append([]dice.Die(nil), want...))
	case 1:
		q = feeder.NewEmptyQueue()
		q.Append(append([]dice.Die(nil), want...))
	case 2:
		q = feeder.NewQueue(want[:1])
		for _, d := range want[1:] {
			q.Push(d)
		}
	case 3:
		q = feeder.NewQueue(someDice("other", 3))
		q.Set(append([]dice.Die(nil), want...))
	}
	checkQueue(q, want, "of a large queue")
	shown := q.Dice()
	for i := 0; i < n; i++ {
		d, err := q.Next(6)
		vf.Assert(err == nil, "no die from a filled queue")
		vf.Assert(vf.And(d.Value == want[i].Value, d.Sides == want[i].Sides), "another die than the first one queued")
		if i%16 == 15 || i > n-3 {
			checkQueue(q, want[i+1:], "of a large queue")
		}
		if i == n/2 {
			x := anyDie("late die")
			q.Push(x)
			want = append(want, x)
		}
	}
	checkQueue(q, want[n:], "of a large queue")
	vf.Assert(sameDice(shown, want[:n]), "listed dice changed")
	drain(q, want[n:], "of a large queue")
}

// C22_Long: a session of many lines.
func C22_Long() {
	s := &state{welcome: shell(), queue: true}
	n := []int{12, 30, 120}[vf.Choose("lines", vf.Bound("sizes", 2, 3))]
	shift := vf.Choose("shift", 7)
	lines, want := []string{".set-die-feeder queue"}, s.welcome+okText
	add := func(l, w string) { lines, want = append(lines, l), want+w }
	for i := 0; i < n; i++ {
		switch (i*5 + shift) % 7 {
		case 0:
			t := ""
			s.dice = nil
			for j := 0; j < 1+(i+shift)%25; j++ {
				d := dice.Die{Value: 1 + (i*j)%6, Sides: 6}
				if j == 1 {
					d.Value = vf.IntT("value", 1, 6)
				}
				if j > 0 {
					t += []string{",", ", "}[j%2]
				}
				t += itoa(d.Value) + "/6"
				s.dice = append(s.dice, d)
			}
			add(".set-dice-queue "+t, okText)
		case 1:
			add("2D6+1", s.eval("2D6+1"))
		case 2:
			add(".roll 2 6", s.roll(2, 6))
		case 3:
			add(".eval S1B6+1B6", s.eval("S1B6+1B6"))
		case 4:
			add("1D6/0", s.eval("1D6/0"))
		case 5:
			add(".set-game DiceBot", okText)
		case 6:
			c := "C(" + itoa(i) + "+1)"
			add(c, s.eval(c))
		}
	}
	if vf.Choose("quit", 2) == 1 {
		lines = append(lines, ".q", "C(1)")
	}
	vf.ObsS("lines", strings.Join(lines, "|"))
	vf.Assert(vf.StrEq(shell(lines...), want), "the output of the shell")
}

// C22_LongLine: long lines.
func C22_LongLine() {
	s := &state{welcome: shell(), queue: true, dice: []dice.Die{{Value: 1, Sides: 6}, {Value: 2, Sides: 6}}}
	c := longText(vf.Choose("kind", 10), []int{70, 300, 1500}[vf.Choose("length", vf.Bound("lengths", 2, 3))])
	l := []string{"", ".eval "}[vf.Choose("how", 2)] + c
	vf.ObsS("line", l)
	want := s.welcome + okText + okText + s.eval(c) + s.eval("C(2)")
	vf.Assert(vf.StrEq(shell(".set-die-feeder queue", ".set-dice-queue 1/6, 2/6", l, "C(2)"), want), "the output of the shell")
}

// C23_Long: blocks with many dice and long or many lines, and files of many blocks.
func C23_Long() {
	var b block
	b.text = "input:\n"
	what := vf.Choose("long", 3)
	some := func(i int, name string, ns ...int) int {
		if what != i {
			return ns[0]
		}
		return ns[vf.Choose(name, vf.Bound(name, len(ns)-1, len(ns)))]
	}
	k := some(0, "input lines", 2, 1, 12, 40)
	for i := 0; i < k; i++ {
		l := longText(i%8, []int{3, 40, 200}[i%3])
		if i == k-1 {
			l += vf.Str("input", 1, lineBytes)
		}
		b.input = append(b.input, l)
		b.text += l + "\n"
	}
	b.text += "output:\n"
	k = some(1, "output lines", 3, 1, 12, 40)
	for i := 0; i < k; i++ {
		if i > 0 {
			b.output += "\n"
		}
		b.output += []string{"出力 ", "x", ""}[(i+k)%3] + itoa(i) + longText(9, []int{3, 300}[i%2])
	}
	b.text += b.output + "\nrand:"
	k = some(2, "dice", 3, 0, 11, 64, 300)
	for i := 0; i < k; i++ {
		d := dice.Die{Value: 1 + i*7%100, Sides: 100 + i}
		if i == k-2 {
			d.Value = vf.IntT("value", 1, 9)
		}
		if i > 0 {
			b.text += []string{",", ", "}[i%2]
		}
		b.text += itoa(d.Value) + "/" + itoa(d.Sides)
		b.dice = append(b.dice, d)
	}
	c, err := dicebottesting.Parse(b.text, "DiceBot", 3)
	vf.Assert(err == nil, "a block is refused")
	checkBlock(c, b, "DiceBot", 3)
}

// C23_ManyBlocks: files of many blocks.
func C23_ManyBlocks() {
	n := []int{9, 10, 11, 25, 101}[vf.Choose("blocks", vf.Bound("numbers of blocks", 4, 5))]
	var all []block
	t := ""
	for i := 0; i < n; i++ {
		b := block{input: []string{"C(" + itoa(i) + ")"}, output: "o" + itoa(i)}
		b.text = "input:\n" + b.input[0] + "\noutput:\n" + b.output + "\nrand:"
		for j := 0; j < i%4; j++ {
			d := dice.Die{Value: vf.Int("value", 1, 9), Sides: 9}
			if j > 0 {
				b.text += ","
			}
			b.text += itoa(d.Value) + "/9"
			b.dice = append(b.dice, d)
		}
		if i > 0 {
			t += between
		}
		t += b.text
		all = append(all, b)
	}
	withFiles([]string{t, t + "\n"}, func(names []string) {
		cs, err := dicebottesting.ParseFile(names[0], "DiceBot")
		vf.Assert(err == nil && len(cs) == n, "the number of blocks of a file")
		for i, b := range all {
			checkBlock(cs[i], b, "DiceBot", i+1)
		}
		cs, err = dicebottesting.ParseFiles(names, "x")
		vf.Assert(err == nil && len(cs) == 2*n, "the number of blocks of all files")
		for i := range cs {
			checkBlock(cs[i], all[i%n], "x", i+1)
		}
	})
}

// C24_Large: large collections and many fields.
func C24_Large() {
	n := []int{0, 9, 10, 11, 64, 100, 257, 1001}[vf.Choose("items", 8)]
	var items []helpers.ResponseMap
	for i := 0; i < n; i++ {
		items = append(items, helpers.ResponseMap{"v": i})
	}
	code := anyStatus()
	c := newAnswered()
	c.sent(helpers.JSONResponseArray(c, code, items))
	m := c.object(code, "items", "count")
	k, ok := m["count"].(int)
	vf.Assert(ok && k == n, "the count of a collection")
	g, ok := m["items"].([]helpers.ResponseMap)
	vf.Assert(ok && len(g) == n, "the items of a collection")
	for i := range g {
		vf.Assert(len(g[i]) == 1 && g[i]["v"] == i, "an item of a collection")
	}
}

// C21_Many: a longer table of systems.
func C21_Many() {
	if len(list.AvailableGameIDs(true)) != 1 {
		return
	}
	n := []int{5, 12, 13, 33}[vf.Choose("systems", vf.Bound("numbers of systems", 3, 4))]
	want := []string{"DiceBot"}
	for i := 0; i < n; i++ {
		j := i * 7 % n
		if n%7 == 0 {
			j = i
		}
		id := "G" + string([]byte{byte('a' + j/10), byte('0' + j%10)})
		x := own{id: id, name: "name of " + id, key: itoa((j*5 + 3) % 17)}
		undo := list.VerifRegister(id, func() dicebot.DiceBot { y := x; return &y })
		if undo == nil {
			return
		}
		defer undo()
	}
	for i := 0; i < n; i++ {
		want = append(want, "G"+string([]byte{byte('a' + i/10), byte('0' + i%10)}))
	}
	checkList(want)
	for _, id := range want {
		c, err := list.Find(id)
		vf.Assert(err == nil && c().GameID() == id, "a registered system is not found")
	}
	id := "G" + vf.Str("id", 2, "abc0123")
	_, err := list.Find(id)
	found := false
	for _, w := range want {
		found = vf.Or(found, vf.StrEq(w, id))
	}
	vf.Assert((err == nil) == found, "a system is found exactly when it is published")
	vf.Reach("many systems")
}
