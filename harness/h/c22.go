package h

import (
	"io"
	"os"
	"strings"
	"time"

	"github.com/chzyer/readline"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceREPL/repl"
	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
	"github.com/raa0121/GoBCDice/pkg/core/util"
	"github.com/raa0121/GoBCDice/pkg/dicebot/list"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// What is typed. In the engine the line editor is replaced by the functions below; natively the
// real one reads from a pipe. interrupt stands for an interrupted line.
const interrupt = "\x03"

var typed struct {
	lines []string
	pos   int
	ended bool
}

func rlNewEx(cfg *readline.Config) (*readline.Instance, error) { return &readline.Instance{}, nil }

func rlClose(i *readline.Instance) error { return nil }

func rlReadline(i *readline.Instance) (string, error) {
	vf.Assert(!typed.ended, "the shell reads on after the end of input")
	if typed.pos >= len(typed.lines) {
		typed.ended = true
		return "", io.EOF
	}
	l := typed.lines[typed.pos]
	typed.pos++
	if l == interrupt {
		return "", readline.ErrInterrupt
	}
	return l, nil
}

// gathered collects what is written.
type gathered struct{ s string }

func (g *gathered) Write(p []byte) (int, error) {
	g.s += string(p)
	return len(p), nil
}

// discard is where the line editor shows its prompt.
type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }
func (discard) Close() error                { return nil }

// shell runs the shell on the lines and returns what it puts out.
func shell(lines ...string) string {
	gen = rawGen{bySeed: true, limit: 1 << 20}
	out := &gathered{}
	if vf.Symbolic() {
		was := typed
		typed.lines, typed.pos, typed.ended = lines, 0, false
		repl.New(strings.NewReader(""), out).Start()
		typed = was
		return out.s
	}
	dir, err := os.MkdirTemp("", "vfshell")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir("/")
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	text := ""
	for _, l := range lines {
		text += l
		if l != interrupt {
			text += "\n"
		}
	}
	go func() {
		io.WriteString(w, text)
		w.Close()
	}()
	readline.Stdin, readline.Stdout, readline.Stderr = r, discard{}, discard{}
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		repl.New(r, out).Start()
	}()
	select {
	case x := <-done:
		if x != nil {
			panic(x)
		}
	case <-time.After(10 * time.Second):
		vf.Assert(false, "the shell reads on after the end of input")
	}
	r.Close()
	return out.s
}

const okText = repl.ESC_CYAN + "OK" + repl.ESC_RESET + "\n"

func errText(err error) string { return repl.ESC_RED + err.Error() + repl.ESC_RESET + "\n" }

// state is what the documentation says the shell keeps between lines.
type state struct {
	welcome string
	queue   bool
	dice    []dice.Die
	over    bool
	brief   bool // fewer variants of each line
}

func (s *state) feeder() feeder.DieFeeder {
	if s.queue {
		return feeder.NewQueue(s.dice)
	}
	return &ones{} // only one-sided dice are rolled at random
}

// eval is the expected output of a command.
func (s *state) eval(text string) string {
	r, err := bcdice.New(s.feeder()).ExecuteCommand(text)
	if err != nil {
		return errText(err)
	}
	h := repl.RESULT_HEADER
	if r.IsSecret {
		h += repl.SECRET_HEADER
	}
	return h + r.Message() + "\n"
}

func (s *state) roll(num, sides int) string {
	d, err := roller.New(s.feeder()).RollDice(num, sides)
	if err != nil {
		return errText(err)
	}
	t := ""
	for i, x := range d {
		if i > 0 {
			t += ", "
		}
		t += itoa(x.Value) + "/" + itoa(x.Sides)
	}
	return repl.RESULT_HEADER + t + "\n"
}

// alone is the output of one line in a fresh shell with a dice source of the kind used.
func (s *state) alone(line string) string {
	if s.queue {
		return shell(".set-die-feeder queue", line)[len(s.welcome)+len(okText):]
	}
	return shell(line)[len(s.welcome):]
}

// other is the output of a line that is refused, explains itself or lists something.
func (s *state) other(line, contains string) string {
	t := s.alone(line)
	vf.Assert(t != "" && t[len(t)-1] == '\n', "no output for "+line)
	vf.Assert(t != okText && !strings.Contains(t, repl.RESULT_HEADER), "a line that cannot be executed is executed: "+line)
	vf.Assert(strings.Contains(t, contains), "the output of "+line)
	return t
}

func (s *state) ast(text string) string {
	cmd, secret := util.CheckIfInputMayBeASecretRoll(text)
	n, err := parser.ParseCommand("REPL", []byte(cmd))
	if err != nil {
		return errText(err)
	}
	h := repl.RESULT_HEADER
	if secret {
		h += repl.SECRET_HEADER
	}
	return h + n.(ast.Node).SExp() + "\n"
}

var kinds = []string{
	"eval", "plain", "blank", "roll", "roll refused", "usage", "queue", "mt", "feeder refused", "set dice", "set dice refused",
	"game", "game refused", "games", "help", "unknown", "quit", "interrupt", "secret", "long",
}

// next types a line and returns it with the output expected.
func (s *state) next(kind string) (line, want string) {
	switch kind {
	case "eval":
		c := s.command()
		return ".eval " + c, s.eval(c)
	case "plain":
		c := s.command()
		return c, s.eval(c)
	case "long":
		c := "C(1+2)"
		return "   .eval   " + c + "  ", s.eval(c)
	case "secret":
		c := []string{"S1D", "sC(1)", "SS1D", "S"}[vf.Choose("secret", 4)]
		if c[len(c)-1] == 'D' {
			if s.queue {
				c += "6"
			} else {
				c += "1"
			}
		}
		if vf.Choose("with eval", 2) == 1 {
			return ".eval " + c, s.eval(c)
		}
		return c, s.eval(c)
	case "blank":
		return []string{"", "  ", ".eval", ".eval  "}[vf.Choose("blank", 4)], s.other(".eval", ".eval")
	case "roll":
		if s.queue {
			return ".roll 2 6", s.roll(2, 6)
		}
		return ".roll 3  1", s.roll(3, 1)
	case "roll refused":
		switch vf.Choose("roll", 4) {
		case 0:
			return ".roll 0 1", s.roll(0, 1)
		case 1:
			return ".roll 1 0", s.roll(1, 0)
		case 2:
			return ".roll 1001 1", s.roll(1001, 1)
		}
		return ".roll 18446744073709551617 1", s.other(".roll 18446744073709551617 1", repl.ESC_RED)
	case "usage":
		l := []string{".roll", ".roll 1", ".roll 1 1 1", ".roll a 1", ".roll -1 1", ".ast"}[vf.Choose("usage", 6)]
		return l, s.other(l, l[:4])
	case "queue":
		s.queue, s.dice = true, nil
		return []string{".set-die-feeder queue", ".set-die-feeder QUEUE", ".set-die-feeder  Queue "}[vf.Choose("feeder", 3)], okText
	case "mt":
		s.queue, s.dice = false, nil
		return []string{".set-die-feeder mt", ".set-die-feeder MT"}[vf.Choose("feeder", 2)], okText
	case "feeder refused":
		l := []string{".set-die-feeder", ".set-die-feeder x", ".set-die-feeder mtx", ".set-die-feeder mt queue"}[vf.Choose("feeder", 4)]
		return l, s.other(l, ".set-die-feeder")
	case "set dice":
		var ds []dice.Die
		t := ""
		for i, n := 0, vf.Choose("dice", 4); i < n; i++ {
			if i > 0 {
				if s.brief {
					t += ", "
				} else {
					t += []string{",", ", "}[vf.Choose("comma", 2)]
				}
			}
			d := dice.Die{Value: vf.Int("value", 1, 6), Sides: 6}
			ds = append(ds, d)
			t += itoa(d.Value) + "/6"
		}
		l := ".set-dice-queue " + t
		if !s.queue {
			return l, s.other(".set-dice-queue 1/6", repl.ESC_RED)
		}
		s.dice = ds
		return l, okText
	case "set dice refused":
		if !s.queue {
			return ".set-dice-queue x", s.other(".set-dice-queue x", repl.ESC_RED)
		}
		l := []string{".set-dice-queue x", ".set-dice-queue 1/6 2", ".set-dice-queue 1/", ".set-dice-queue 1/6,,1/6"}[vf.Choose("dice", 4)]
		return l, s.other(l, repl.ESC_RED)
	case "game":
		if vf.Choose("game", 2) == 1 {
			return ".set-game", "DiceBot\n"
		}
		return ".set-game DiceBot", okText
	case "game refused":
		l := []string{".set-game dicebot", ".set-game x", ".set-game DiceBot x"}[vf.Choose("game", 3)]
		return l, s.other(l, repl.ESC_RED)
	case "games":
		return ".list-games", strings.Join(list.AvailableGameIDs(true), "\n") + "\n"
	case "help":
		t := s.other(".help", ".help")
		for _, c := range []string{"ast", "eval", "roll", "set-game", "list-games", "set-die-feeder", "set-dice-queue", "help", "quit"} {
			vf.Assert(strings.Contains(t, "."+c), "a command missing in the help: "+c)
		}
		return []string{".help", ".help x"}[vf.Choose("help", 2)], t
	case "unknown":
		l := []string{".x", ".", ".Q", ".q x", "q", "quit", ".1D6", ".evil 1D6", ".Eval C(1)"}[vf.Choose("unknown", 9)]
		return l, s.eval(l)
	case "quit":
		s.over = true
		return []string{".q", ".quit", " .q ", ".quit now"}[vf.Choose("quit", 4)], ""
	case "interrupt":
		return interrupt, ""
	}
	panic(kind)
}

// command is a command; at random only one-sided dice are rolled.
func (s *state) command() string {
	if !s.queue {
		return []string{"C(1)", "2D1+1", "1D1>=2", "x", "2B1", "1D1/0", "CHOICE[a]"}[vf.Choose("command", 7)]
	}
	if s.brief {
		return []string{"2D6", "1D6>=" + vf.Str("k", 1, "123456789"), "1D6/0"}[vf.Choose("command", 3)]
	}
	return []string{"2D6", "1D6>=" + vf.Str("k", 1, "123456789"), "1B6+1B6", "1R6>=5", "CHOICE[a,b,c,d,e,f]", "1D6/0", "[1...6]D6", "1D6 attack"}[vf.Choose("command", 8)]
}

// checkShell types the lines, each of the kinds named.
func checkShell(brief bool, kinds ...[]string) {
	s := &state{welcome: shell(), brief: brief}
	want := s.welcome
	var lines []string
	for _, k := range kinds {
		line, w := s.next(k[vf.Choose("kind", len(k))])
		lines = append(lines, line)
		want += w
		if s.over {
			// what comes after is not executed
			lines = append(lines, "C(1)", ".help", ".list-games")
			break
		}
	}
	vf.ObsS("lines", strings.Join(lines, "|"))
	got := shell(lines...)
	vf.Assert(vf.StrEq(got, want), "the output of the shell")
	vf.Reach("run")
}

var changing = []string{"queue", "mt", "feeder refused", "set dice", "set dice refused", "roll refused", "usage", "game", "game refused", "unknown", "quit", "interrupt", "blank", "eval"}
var showing = []string{"eval", "plain", "roll", "secret"}

// C22_Line: each line, in a shell with each dice source.
func C22_Line() {
	checkShell(false, []string{"queue", "mt"}, kinds)
}

// C22_First: each line as the first one.
func C22_First() {
	checkShell(false, kinds)
}

// C22_Queue: with queued dice any two lines, then one that shows its effect.
func C22_Queue() {
	if vf.Bound("lines between", 1, 2) == 2 {
		checkShell(true, []string{"queue"}, []string{"set dice"}, changing, changing, showing)
	} else {
		checkShell(true, []string{"queue"}, []string{"set dice"}, changing, showing)
	}
}

// C22_Random: any line, then another under the random source, then one that shows the effect.
func C22_Random() {
	checkShell(vf.Bound("all variants", 0, 1) == 0, []string{"queue", "mt", "feeder refused", "game", "set dice"}, []string{"queue", "mt", "feeder refused", "set dice", "interrupt"}, []string{"eval", "roll"})
}

// C22_Repeated: what is evaluated with queued dice is evaluated the same again.
func C22_Repeated() {
	s := &state{welcome: shell(), queue: true}
	n := vf.Choose("dice", 4)
	t := ""
	for i := 0; i < n; i++ {
		d := dice.Die{Value: vf.Int("value", 0, 9), Sides: vf.Int("sides", 4, 7)}
		s.dice = append(s.dice, d)
		if i > 0 {
			t += ", "
		}
		t += itoa(d.Value) + "/" + itoa(d.Sides)
	}
	lines := []string{".set-die-feeder queue", ".set-dice-queue " + t}
	want := s.welcome + okText + okText
	for i := 0; i < 3; i++ {
		switch vf.Choose("line", 5) {
		case 0:
			lines, want = append(lines, "2D6+1"), want+s.eval("2D6+1")
		case 1:
			lines, want = append(lines, ".roll 2 4"), want+s.roll(2, 4)
		case 2:
			lines, want = append(lines, "1D6/0"), want+s.eval("1D6/0")
		case 3:
			lines, want = append(lines, ".eval S1B5"), want+s.eval("S1B5")
		case 4:
			lines, want = append(lines, ".roll 99 1"), want+s.roll(99, 1)
		}
	}
	got := shell(lines...)
	vf.ObsS("lines", strings.Join(lines, "|"))
	vf.Assert(vf.StrEq(got, want), "the output of the shell")
}

// C22_Roll: any numbers.
func C22_Roll() {
	s := &state{welcome: shell(), queue: true}
	num, sides := vf.Int("num", 0, 3), vf.Int("sides", 0, 1<<62)
	var t []string
	for i := 0; i < 2; i++ {
		d := dice.Die{Value: vf.Int("value", 1, 6), Sides: 6}
		s.dice = append(s.dice, d)
		t = append(t, itoa(d.Value)+"/6")
	}
	l := ".roll " + itoa(num) + " " + itoa(sides)
	lines := []string{".set-die-feeder queue", ".set-dice-queue " + strings.Join(t, ","), l}
	vf.ObsS("line", l)
	want := s.welcome + okText + okText + s.roll(num, sides)
	vf.Assert(vf.StrEq(shell(lines...), want), "the output of the shell")
}

// C22_Name: any name after the dot.
func C22_Name() {
	s := &state{welcome: shell()}
	n := 1 + vf.Choose("length", 4)
	name := vf.Str("name", n, "abehlopqrstuvi-")
	line := "." + name
	args := vf.Choose("arguments", 3)
	vf.ObsS("line", line)
	want := ""
	switch {
	case vf.StrEq(name, "q"), vf.StrEq(name, "quit"):
		if vf.StrEq(name, "q") && args > 0 {
			return
		}
		s.over = true
	case vf.StrEq(name, "help"):
		want = s.alone(".help")
	case vf.StrEq(name, "eval"), vf.StrEq(name, "ast"), vf.StrEq(name, "roll"):
		if args > 0 {
			return
		}
		want = s.alone(line)
		vf.Assert(strings.Contains(want, line), "the usage of a command")
	default:
		vf.Reach("unknown")
	}
	line += []string{"", " x", " C(1)"}[args]
	if want == "" && !s.over {
		want = s.eval(line)
		vf.Assert(want[:1] == "\033" && !strings.Contains(want, repl.RESULT_HEADER), "a line with a dot is a command")
	}
	got := shell(line, "C(7)")
	if !s.over {
		want += s.eval("C(7)")
	}
	vf.Assert(vf.StrEq(got, s.welcome+want), "the output of the shell")
}

// C22_Plain: commands of every kind with queued dice, and their syntax trees.
func C22_Plain() {
	s := &state{welcome: shell(), queue: true}
	cmd := one("command", []string{
		"2D6+1", "1D6>=3", "3D6<=12", "2B6", "2B6>3", "1R6>=5", "1U6[5]", "CHOICE[a, b]", "C(1+2)", "S2D6", "SS2D6", "SSC(1)", "[1...3]D6", "2D6 attack", "C(1", "D",
		"S C(1)", "sCHOICE[a,b]", "S1D6/0", "1D6+1D4", "1D6+x", "C(2) .q", "1D6;.q", "c(1)", "-1D6", "(1D6", "2D(2*3)", "C(.5)",
	})
	for i := 0; i < 2; i++ {
		s.dice = append(s.dice, dice.Die{Value: vf.Int("value", 1, 6), Sides: 6})
	}
	t := itoa(s.dice[0].Value) + "/6," + itoa(s.dice[1].Value) + "/6"
	lines := []string{".set-die-feeder queue", ".set-dice-queue " + t}
	want := s.welcome + okText + okText
	switch vf.Choose("how", 3) {
	case 0:
		lines, want = append(lines, cmd), want+s.eval(cmd)
	case 1:
		lines, want = append(lines, " .eval  "+cmd+" "), want+s.eval(cmd)
	case 2:
		lines, want = append(lines, ".ast "+cmd), want+s.ast(cmd)
	}
	vf.ObsS("lines", strings.Join(lines, "|"))
	vf.Assert(vf.StrEq(shell(lines...), want), "the output of the shell")
}

func one(name string, from []string) string { return from[vf.Choose(name, len(from))] }

// C22_Bytes: any short line of printable characters.
func C22_Bytes() {
	s := &state{welcome: shell(), queue: true, dice: []dice.Die{{Value: 1, Sides: 2}}}
	first := []string{".set-die-feeder queue", ".set-dice-queue 1/2"}
	n := 1 + vf.Choose("length", vf.Bound("length", 2, 3))
	line := vf.Str("line", n, printable)
	vf.Assume(line[0] != ' ' && line[n-1] != ' ')
	vf.ObsS("line", line)
	if vf.StrEq(line, ".q") {
		vf.Assert(shell(first[0], first[1], line, "C(1)") == s.welcome+okText+okText, "the shell ends on .q")
		return
	}
	want := s.welcome + okText + okText + s.eval(line) + s.eval("C(1)")
	vf.Assert(vf.StrEq(shell(first[0], first[1], line, "C(1)"), want), "the output of the shell")
}

var printable = func() string {
	t := ""
	for c := byte(' '); c < 127; c++ {
		t += string(rune(c))
	}
	return t
}()
