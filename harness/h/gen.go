package h

import (
	"errors"
	"strconv"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// Command patterns: n is a digit 1 or 2, m a digit 1..9, k any digit, t a digit 2..9, ? a comparison
// operator, ~ a sign; upper-case letters are the keywords of the language, the rest is literal.
var patterns = []string{
	// calculations
	"C(k~k*m)", "C(k/m)", "C(k/mR)", "C(-k/mU)", "C((k~k)*k)",
	// sum rolls
	"nDm", "nDm~k", "-nDm~k", "nDm*k~1Dm", "nDm/m", "nDm/mR", "k~nDm/mU", "(k~k)Dm", "nD(k+k)", "-(1Dm~k)/m", "(k/mR)Dm", "nD(k/mU)",
	// compared sum rolls
	"nDm?k", "nDm~1Dm?k~k", "nDm/mR?k", "1Dm~k?k*k",
	// embedded random numbers
	"[n...m]Dm", "nD[1...m]", "1Dm~[n...m]", "[n...m]~1D[1...m]?k", "[(k~k)...m]D6", "1D[(k/mR)...m]",
	// basic rolls
	"nBm", "nBm+1Bm", "nBm?k", "1Bm+nBm?k~k", "[1...n]Bm", "nB[1...m]?k", "(k~k)Bm", "1B6?k/mR",
	// exploding rolls
	"1Rm[t]", "1Rm?k", "1Rm+1Rm[t]", "1Rm[t]?k", "[1...n]R6[t]", "1R[n...m]>=t", "1R6[t/nU]",
	// compounding rolls
	"1Um[t]", "1Um[t]~k", "1Um+1Um[t]", "1Um[t]?k", "1Um[t]~k?k", "[1...n]U6[t]", "1U[n...m][t]~k", "1U6[t]~k/mR",
	// choices
	"CHOICE[a,b,c]", "CHOICE[a b, c]", "CHOICE[1D6,K]",
	// nearly commands
	"nDm?1Dm", "C(1Dm)", "nDm[t]", "nD", "D6", "nBm~k", "nUm~k", "1Dm/k", "[m...n]D6", "CHOICE[]", "C(k/k)", "nDmR", "",
}

const (
	firstSum, firstChoice, firstBad = 5, 50, 53
)

// pick instantiates one pattern; letters are passed through f.
func pick(p string, f func(byte) string) string {
	s := ""
	for i := 0; i < len(p); i++ {
		c := p[i]
		switch {
		case c == 'n':
			s += vf.Str("n", 1, "12")
		case c == 'm':
			s += vf.Str("m", 1, "123456789")
		case c == 'k':
			s += vf.Str("k", 1, "0123456789")
		case c == 't':
			s += vf.Str("t", 1, "23456789")
		case c == '?':
			s += cmpOps[vf.Choose("cmp", 6)]
		case c == '~':
			s += []string{"+", "-"}[vf.Choose("sign", 2)]
		case 'A' <= c && c <= 'Z' && f != nil:
			s += f(c)
		default:
			s += string([]byte{c})
		}
	}
	return s
}

// anyCommand is an instance of any of the patterns from lo on, below hi.
func anyCommand(name string, lo, hi int) string {
	return pick(patterns[lo+vf.Choose(name, hi-lo)], nil)
}

// outcome is everything a caller can see of one execution.
type outcome struct {
	ok     bool
	err    string
	game   string
	parts  []string
	dice   []dice.Die
	succ   command.SuccessCheckResultType
	secret bool
}

func see(r *command.Result, err error) outcome {
	if err != nil {
		vf.Assert(r == nil, "both a result and an error")
		return outcome{err: err.Error()}
	}
	vf.Assert(r != nil, "neither a result nor an error")
	return outcome{ok: true, game: r.GameID, parts: append([]string(nil), r.MessageParts...), dice: append([]dice.Die(nil), r.RolledDice...), succ: r.SuccessCheckResult, secret: r.IsSecret}
}

// same asserts that two executions gave the same; the secret flag is compared by the caller.
func same(a, b outcome, what string) {
	vf.Assert(a.ok == b.ok, what+": one is an error and the other is not")
	vf.Assert(a.err == b.err, what+": different errors")
	vf.Assert(a.game == b.game, what+": different game systems")
	vf.Assert(len(a.parts) == len(b.parts), what+": different messages")
	for i := range a.parts {
		vf.Assert(a.parts[i] == b.parts[i], what+": different messages")
	}
	vf.Assert(sameDice(a.dice, b.dice), what+": different dice")
	vf.Assert(a.succ == b.succ, what+": different success flags")
}

// again executes text with the dice another execution drew and reports whether it asked for exactly
// these.
func again(text string, drawn []dice.Die) outcome {
	f := &replayFeed{dice: drawn}
	o := see(bcdice.New(f).ExecuteCommand(text))
	vf.Assert(!f.bad && f.pos == len(drawn), "the other text asks for other dice")
	return o
}

// wild is a dice source that may do anything: fail, or hand out any die.
type wild struct {
	drawn []dice.Die
	asked []int
	limit int
	bad   int // index of the first draw that is no proper die, from 1
}

func (f *wild) CanSpecifyDie() bool { return false }

func (f *wild) Next(sides int) (dice.Die, error) {
	vf.Assume(len(f.asked) < f.limit)
	f.asked = append(f.asked, sides)
	switch vf.Choose("source", 3) {
	case 1:
		if f.bad == 0 {
			f.bad = len(f.asked)
		}
		return dice.Die{}, errors.New("the source failed")
	case 2:
		d := dice.Die{Value: vf.Int("value", -1<<63, 1<<63-1), Sides: vf.Int("sides", -1<<63, 1<<63-1)}
		if vf.And(d.Sides == sides, vf.And(1 <= d.Value, d.Value <= sides)) {
			vf.Assume(false) // the same as a proper die
		}
		if f.bad == 0 {
			f.bad = len(f.asked)
		}
		f.drawn = append(f.drawn, d)
		return d, nil
	}
	d := dice.Die{Value: vf.IntT("die", 1, sides), Sides: sides}
	f.drawn = append(f.drawn, d)
	return d, nil
}

func itoa(n int) string { return strconv.Itoa(n) }
