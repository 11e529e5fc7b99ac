package h

import (
	"io"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	dicebottesting "github.com/raa0121/GoBCDice/pkg/dicebot/testing"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// In the engine the methods of testing.T are replaced by the functions below, which note failures;
// natively the real ones are used.
var judged struct {
	failed   bool
	cleanups []func()
}

type testEnded struct{}

func tFail() { judged.failed = true }

func tFailNow() {
	judged.failed = true
	panic(testEnded{})
}

func tErrorf(c *struct{}, format string, args ...interface{}) { tFail() }
func tError(c *struct{}, args ...interface{})                 { tFail() }
func tFatalf(c *struct{}, format string, args ...interface{}) { tFailNow() }
func tFatal(c *struct{}, args ...interface{})                 { tFailNow() }
func tHelper(c *struct{})                                     {}

func tFailOnly(c *struct{})                             { tFail() }
func tFailNowOnly(c *struct{})                          { tFailNow() }
func tLog(c *struct{}, args ...interface{})             {}
func tLogf(c *struct{}, f string, args ...interface{})  {}
func tSkip(c *struct{}, args ...interface{})            { panic(testEnded{}) }
func tSkipf(c *struct{}, f string, args ...interface{}) { panic(testEnded{}) }
func tSkipNow(c *struct{})                              { panic(testEnded{}) }
func tFailed(c *struct{}) bool                          { return judged.failed }
func tName(c *struct{}) string                          { return "data" }
func tCleanup(c *struct{}, f func())                    { judged.cleanups = append(judged.cleanups, f) }

func tRun(t *testing.T, name string, f func(t *testing.T)) bool {
	return underTest(f)
}

// underTest runs one test to its end, and says whether it passed.
func underTest(f func(t *testing.T)) (ok bool) {
	before, cleanups := judged.failed, judged.cleanups
	judged.failed, judged.cleanups = false, nil
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(testEnded); !is {
				panic(x)
			}
		}
		for i := len(judged.cleanups) - 1; i >= 0; i-- {
			judged.cleanups[i]()
		}
		ok = !judged.failed
		judged.failed, judged.cleanups = judged.failed || before, cleanups
	}()
	f(&testing.T{})
	return
}

// noDeps is what a test program gets from go test; nothing of it is used.
type noDeps struct{}

type corpusEntry = struct {
	Parent     string
	Path       string
	Data       []byte
	Values     []interface{}
	Generation int
	IsSeed     bool
}

func (noDeps) ImportPath() string                          { return "data" }
func (noDeps) ModulePath() string                          { return "data" }
func (noDeps) MatchString(pat, str string) (bool, error)   { return true, nil }
func (noDeps) SetPanicOnExit0(bool)                        {}
func (noDeps) StartCPUProfile(io.Writer) error             { return nil }
func (noDeps) StopCPUProfile()                             {}
func (noDeps) StartTestLog(io.Writer)                      {}
func (noDeps) StopTestLog() error                          { return nil }
func (noDeps) WriteProfileTo(string, io.Writer, int) error { return nil }
func (noDeps) CoordinateFuzzing(time.Duration, int64, time.Duration, int64, int, []corpusEntry, []reflect.Type, string, string) error {
	return nil
}
func (noDeps) RunFuzzWorker(func(corpusEntry) error) error              { return nil }
func (noDeps) ReadCorpus(string, []reflect.Type) ([]corpusEntry, error) { return nil, nil }
func (noDeps) CheckCorpus([]interface{}, []reflect.Type) error          { return nil }
func (noDeps) ResetCoverage()                                           {}
func (noDeps) SnapshotCoverage()                                        {}
func (noDeps) InitRuntimeCoverage() (mode string, tearDown func(string, string) (string, error), snapcov func() float64) {
	return
}

// Natively all tests are subtests of one that never ends.
var toTest chan func(t *testing.T)
var tested chan bool

// passes tells whether the test runner finds the given data files in order.
func passes(names []string) bool {
	run := func(t *testing.T) { dicebottesting.Run("DiceBot", t, names...) }
	if vf.Symbolic() {
		judged.failed = false
		return underTest(run)
	}
	if toTest == nil {
		toTest, tested = make(chan func(t *testing.T)), make(chan bool)
		all := func(t *testing.T) {
			for f := range toTest {
				tested <- t.Run("data", f)
			}
		}
		go testing.MainStart(noDeps{}, []testing.InternalTest{{Name: "all", F: all}}, nil, nil, nil).Run()
	}
	toTest <- run
	return <-tested
}

const secretMark = "###secret dice###"

// testCase is the text of a test case.
func testCase(input, output string, ds []dice.Die) string {
	t := "input:\n" + input + "\noutput:\n" + output + "\nrand:"
	for i, d := range ds {
		if i > 0 {
			t += ","
		}
		t += itoa(d.Value) + "/" + itoa(d.Sides)
	}
	return t
}

// caseHolds tells whether a test case with the given first line, output and dice holds.
func caseHolds(line, output string, ds []dice.Die) bool {
	q := feeder.NewQueue(ds)
	r, err := bcdice.New(q).ExecuteCommand(line)
	if err != nil {
		return output == ""
	}
	m := r.Message()
	if r.IsSecret {
		m += secretMark
	}
	return output != "" && m == output && q.Remaining() == 0
}

var caseLines = []string{"1D6", "2D6>=7", "2B6>=4", "S1D6", "sC(1+2)", "C(7/2)", "1R6[5]", "1U6[5]+1", "CHOICE[a,b]", "1D", "C(1/0)", "[1...3]D6", "1D6 x", "Sx", "1U6[1]"}

// caseDice are dice as a data file gives them.
func caseDice(n int) (ds []dice.Die) {
	for i := 0; i < n; i++ {
		ds = append(ds, dice.Die{Value: vf.Int("value", 1, 6), Sides: 6})
		if n == 1 || i == 1 {
			ds[i].Sides = []int{6, 2, 3}[vf.Choose("sides", 3)]
		}

	}
	return
}

// C26_One: one test case, with any dice, and an output that is right or differs in some way.
func C26_One() {
	line := caseLines[vf.Choose("line", len(caseLines))]
	ds := caseDice(vf.Choose("dice", 1+vf.Bound("dice", 2, 3)))
	r, err := bcdice.New(feeder.NewQueue(ds)).ExecuteCommand(line)
	right := "DiceBot : 1"
	if err == nil {
		right = r.Message()
		if r.IsSecret {
			right += secretMark
		}
	}
	output := right
	switch vf.Choose("output", 8) {
	case 1:
		output = ""
	case 2:
		output += "x"
	case 3:
		output = output[:len(output)-1]
	case 4:
		if strings.HasSuffix(output, secretMark) {
			output = output[:len(output)-len(secretMark)]
		} else {
			output += secretMark
		}
	case 5:
		output = strings.ToLower(output)
	case 6:
		output = output[:3] + "\n" + output[3:]
	case 7:
		output += " "
	}
	input := line + []string{"", "\n1D6", "\n", "\nC(1)"}[len(output)%4]
	want := caseHolds(line, output, ds)
	withFiles([]string{testCase(input, output, ds) + "\n"}, func(names []string) {
		got := passes(names)
		vf.ObsB("passes", got)
		vf.Assert(got == want, "the verdict on a test case")
	})
	if want {
		vf.Reach("passes")
	} else {
		vf.Reach("fails")
	}
}

// C26_Several: some cases in one or two files; all of them have to hold, each with its own dice.
func C26_Several() {
	type kase struct {
		line, output string
		dice         []dice.Die
	}
	six := func(vs ...int) (ds []dice.Die) {
		for _, v := range vs {
			ds = append(ds, dice.Die{Value: v, Sides: 6})
		}
		return
	}
	v := vf.Int("value", 1, 6)
	list := []kase{
		{"1D6", "DiceBot : (1D6) ＞ " + itoa(v) + "[" + itoa(v) + "] ＞ " + itoa(v), six(v)},
		{"1D6", "DiceBot : (1D6) ＞ 3[3] ＞ 3", six(v)},
		{"1D6", "", nil},
		{"2D6", "", six(v)},
		{"C(1)", "DiceBot : C(1) ＞ 計算結果 ＞ 1", nil},
		{"C(1)", "DiceBot : C(1) ＞ 計算結果 ＞ 1", six(1)},
		{"C(1)", "", nil},
		{"SC(1)", "DiceBot : C(1) ＞ 計算結果 ＞ 1" + secretMark, nil},
		{"x", "DiceBot : x", nil},
		{"x", "", six(v)},
		{"1D4", "", six(v, 2)},
		{"1D6", "DiceBot : (1D6) ＞ 2[2] ＞ 2", nil},
	}
	n := 2 + vf.Choose("cases", vf.Bound("more cases", 1, 2))
	want := true
	split := vf.Choose("cases in the first file", n)
	texts := []string{""}
	for i := 0; i < n; i++ {
		c := list[vf.Choose("case", len(list))]
		want = vf.And(want, caseHolds(c.line, c.output, c.dice))
		at := len(texts) - 1
		if texts[at] != "" {
			texts[at] += between
		}
		texts[at] += testCase(c.line, c.output, c.dice)
		if i == split && i < n-1 {
			texts[at] += "\n"
			texts = append(texts, "")
		}
	}
	texts[len(texts)-1] += "\n"
	withFiles(texts, func(names []string) {
		got := passes(names)
		vf.ObsB("passes", got)
		vf.Assert(got == want, "the verdict on several test cases")
	})
}

// C26_Unreadable: data that cannot be read does not pass.
func C26_Unreadable() {
	good := testCase("C(1)", "DiceBot : C(1) ＞ 計算結果 ＞ 1", nil)
	bad := []string{"", "input:\nC(1)\noutput:\nx", good + "x", good + "1-6", "x" + good, good + "1/6,", good + between, good + between + good + "1/"}
	texts := []string{good + "\n"}
	i := vf.Choose("bad text", len(bad)+2)
	if i < len(bad) {
		texts = append(texts, bad[i])
		if vf.Choose("first", 2) == 1 {
			texts[0], texts[1] = texts[1], texts[0]
		}
	}
	withFiles(texts, func(names []string) {
		if i == len(bad) {
			names = append(names, names[0]+".missing")
		}
		got := passes(names)
		vf.ObsB("passes", got)
		vf.Assert(got == (i > len(bad)), "the verdict on data files")
	})
}
