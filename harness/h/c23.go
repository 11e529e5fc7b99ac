package h

import (
	"io/ioutil"
	"os"
	"path/filepath"

	"github.com/raa0121/GoBCDice/pkg/core/dice"
	dicebottesting "github.com/raa0121/GoBCDice/pkg/dicebot/testing"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// isDigits and isBlank are about bytes of dice texts.
func isDigit(c byte) bool { return vf.And(c >= '0', c <= '9') }
func isBlank(c byte) bool {
	return vf.Or(c == ' ', vf.Or(c == '\t', vf.Or(c == '\n', vf.Or(c == '\f', c == '\r'))))
}

// readDice reads a text of dice by hand: blanks, digits, slash, digits, blanks, between commas.
// fits tells that all numbers fit; one that does not stands as the largest number.
func readDice(t string) (ds []dice.Die, ok, fits bool) {
	fits = true
	if t == "" {
		return nil, true, true
	}
	i := 0
	number := func() (int, bool) {
		n, start := 0, i
		for i < len(t) && isDigit(t[i]) {
			d := int(t[i] - '0')
			if n > (1<<63-1-d)/10 {
				fits, n = false, 1<<63-1
			} else {
				n = n*10 + d
			}
			i++
		}
		return n, i > start
	}
	blanks := func() {
		for i < len(t) && isBlank(t[i]) {
			i++
		}
	}
	for {
		blanks()
		v, ok1 := number()
		if !ok1 || i >= len(t) || t[i] != '/' {
			return nil, false, fits
		}
		i++
		s, ok2 := number()
		if !ok2 {
			return nil, false, fits
		}
		blanks()
		ds = append(ds, dice.Die{Value: v, Sides: s})
		if i == len(t) {
			return ds, true, fits
		}
		if t[i] != ',' {
			return nil, false, fits
		}
		i++
	}
}

// C23_RoundTrip: dice written by either formatter are read back, whatever they are.
func C23_RoundTrip() {
	n := vf.Choose("dice", vf.Bound("dice", 4, 5))
	large := vf.Choose("large", n+1) // one die of any numbers, the others of small ones
	var ds []dice.Die
	for i := 0; i < n; i++ {
		max := 99
		if i == large {
			max = 1<<63 - 1
		}
		ds = append(ds, dice.Die{Value: vf.Int("value", 0, max), Sides: vf.Int("sides", 0, max)})
	}
	keep := append([]dice.Die(nil), ds...)
	var t, want string
	sep := ", "
	if vf.Choose("formatter", 2) == 0 {
		t = dice.FormatDice(ds)
	} else {
		sep = ","
		t = dice.FormatDiceWithoutSpaces(ds)
	}
	for i, d := range ds {
		if i > 0 {
			want += sep
		}
		want += itoa(d.Value) + "/" + itoa(d.Sides)
	}
	vf.ObsS("text", t)
	vf.Assert(vf.StrEq(t, want), "the formatted dice")
	vf.Assert(sameDice(ds, keep), "formatting changes the dice")
	got, err := dicebottesting.ParseDice(t)
	vf.Assert(err == nil, "formatted dice are refused")
	vf.Assert(sameDice(got, ds), "other dice are read than were written")
}

// C23_Negative: dice that have no text of their own are written with a sign and refused.
func C23_Negative() {
	d := dice.Die{Value: signedInt("value").n, Sides: signedInt("sides").n}
	t := dice.FormatDice([]dice.Die{d})
	vf.Assert(vf.StrEq(t, itoa(d.Value)+"/"+itoa(d.Sides)), "the formatted die")
	vf.Assert(vf.StrEq(d.String(), "<Die "+t+">"), "the text of a die")
	vf.Assert(vf.StrEq(d.SExp(), "(Die "+itoa(d.Value)+" "+itoa(d.Sides)+")"), "the expression of a die")
	if d.Value < 0 || d.Sides < 0 {
		_, err := dicebottesting.ParseDice(t)
		vf.Assert(err != nil, "a negative number is read")
	}
}

func checkReadDice(t string) {
	vf.ObsS("text", t)
	want, ok, fits := readDice(t)
	got, err := dicebottesting.ParseDice(t)
	if !ok {
		vf.Assert(err != nil, "malformed dice are accepted")
		return
	}
	if !fits {
		vf.Reach("too large")
		vf.AssertKnown(err != nil, "a number that does not fit is read as another one", err == nil && sameDice(got, want), "dice-numbers-do-not-fit")
		return
	}
	vf.Reach("dice")
	vf.Assert(err == nil, "well-formed dice are refused")
	vf.Assert(sameDice(got, want), "other dice are read than are written")
}

// C23_Text: any short text.
func C23_Text() {
	if vf.Choose("shape", 2) == 0 {
		checkReadDice(vf.Str("text", vf.Choose("length", vf.Bound("length", 8, 10)), "15/, \n-"))
		return
	}
	checkReadDice("1/6" + vf.Str("text", vf.Choose("length", 4), "") + "2/6")
}

// C23_Bytes: any bytes around and in dice.
func C23_Bytes() {
	a := vf.Str("a", vf.Choose("len a", 3), "")
	switch vf.Choose("where", 4) {
	case 0:
		checkReadDice(a + "1/6")
	case 1:
		checkReadDice("1/6" + a)
	case 2:
		checkReadDice("1" + a + "/6")
	case 3:
		checkReadDice("1/" + a + "6")
	}
}

// C23_Large: numbers of many digits.
func C23_Large() {
	t := one("head", []string{"9223372036854775", "0009223372036854775", "922337203685477580", "999999999999999999", "000000000000000000000000", "1844674407370955161"}) +
		vf.Str("d", 1+vf.Choose("digits", 3), "0123456789")
	if vf.Choose("where", 2) == 0 {
		checkReadDice(t + "/6")
	} else {
		checkReadDice("1/" + t)
	}
}

// block is a test-case block and what is written in it.
type block struct {
	text   string
	input  []string
	output string
	dice   []dice.Die
}

const lineBytes = "a1 :/,="

// anyBlock writes a block: input lines, output lines and dice.
func anyBlock(max int) block {
	var b block
	b.text = "input:\n"
	for i, n := 0, 1+vf.Choose("input lines", 2); i < n; i++ {
		l := vf.Str("input", vf.Choose("input length", max), lineBytes)
		if n == 1 && l == "" {
			l = "x" // a block has some input
		}
		b.input = append(b.input, l)
		b.text += l + "\n"
	}
	b.text += "output:"
	if vf.Choose("output on the next line", 2) == 1 {
		b.text += "\n"
	}
	for i, n := 0, vf.Choose("output lines", 3); i < n; i++ {
		l := vf.Str("output", vf.Choose("output length", max), lineBytes)
		if i == 0 && l == "" {
			l = "y" // leading empty lines are left out
		}
		if i > 0 {
			b.output += "\n"
		}
		b.output += l
	}
	b.text += b.output + "\nrand:"
	for i, n := 0, vf.Choose("dice", 3); i < n; i++ {
		d := dice.Die{Value: vf.Int("value", 1, 99), Sides: vf.Int("sides", 1, 99)}
		if i > 0 {
			b.text += ","
		}
		b.text += itoa(d.Value) + "/" + itoa(d.Sides)
		b.dice = append(b.dice, d)
	}
	return b
}

func checkBlock(c *dicebottesting.DiceBotTestCase, b block, game string, index int) {
	vf.Assert(vf.StrEq(c.GameID, game), "the game system of a block")
	vf.Assert(c.Index == index, "the number of a block")
	vf.Assert(len(c.Input) == len(b.input), "the number of input lines")
	for i := range b.input {
		vf.Assert(vf.StrEq(c.Input[i], b.input[i]), "an input line")
	}
	vf.Assert(vf.StrEq(c.Output, b.output), "the output of a block")
	vf.Assert(sameDice(c.Dice, b.dice), "the dice of a block")
}

// C23_Block: any block.
func C23_Block() {
	b := anyBlock(vf.Bound("line length", 2, 4) + 1)
	game := vf.Str("game", 2, "")
	index := vf.Int("index", -1<<63, 1<<63-1)
	vf.ObsS("text", b.text)
	c, err := dicebottesting.Parse(b.text, game, index)
	vf.Assert(err == nil, "a block is refused")
	checkBlock(c, b, game, index)
}

// C23_Malformed: a block that lacks a part, has the parts in another order or malformed dice is refused.
func C23_Malformed() {
	l, o := vf.Str("input", 1+vf.Choose("length", 2), lineBytes), vf.Str("output", vf.Choose("length", 3), lineBytes)
	var t string
	switch vf.Choose("shape", 10) {
	case 0:
		t = "input:\n" + l + "\noutput:\n" + o
	case 1:
		t = "input:\n" + l + "\nrand:1/6"
	case 2:
		t = "output:\n" + o + "\nrand:1/6"
	case 3:
		t = "input:\noutput:\n" + o + "\nrand:1/6"
	case 4:
		t = "output:\n" + o + "\ninput:\n" + l + "\nrand:1/6"
	case 5:
		t = l + "input:\n" + l + "\noutput:\n" + o + "\nrand:1/6"
	case 6:
		t = "input:\n" + l + "\nrand:1/6\noutput:\n" + o
	case 7:
		t = "input:\n" + l + "\noutput:\n" + o + "\nrand:1/6,"
	case 8:
		t = "input:\n" + l + "\noutput:\n" + o + "\nrand:1/6\n" + l
		blank := true
		for i := range l {
			if l[i] != ' ' && l[i] != ',' {
				blank = false
			}
		}
		vf.Assume(!blank)
		_, ok, _ := readDice("1/6\n" + l)
		vf.Assume(!ok)
	case 9:
		t = "input:\n" + l + "\noutput:\n" + o + "\nrand:" + vf.Str("dice", 1, lineBytes)
	}
	vf.ObsS("text", t)
	_, err := dicebottesting.Parse(t, "DiceBot", 1)
	vf.Assert(err != nil, "a malformed block is accepted")
}

// The data files. In the engine reading a file is replaced by readDataFile; natively they are files.
var dataFiles map[string]string

func readDataFile(name string) ([]byte, error) {
	t, ok := dataFiles[name]
	if !ok {
		return nil, os.ErrNotExist
	}
	return []byte(t), nil
}

// withFiles calls f with the names of files of the given content.
func withFiles(texts []string, f func(names []string)) {
	dir := "/nowhere"
	if !vf.Symbolic() {
		d, err := ioutil.TempDir("", "vfdata")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		dir = d
	}
	dataFiles = map[string]string{}
	var names []string
	for i, t := range texts {
		n := filepath.Join(dir, "f"+itoa(i)+".txt")
		names = append(names, n)
		if vf.Symbolic() {
			dataFiles[n] = t
		} else if err := ioutil.WriteFile(n, []byte(t), 0o600); err != nil {
			panic(err)
		}
	}
	f(names)
}

const between = "\n============================\n"

// C23_Files: files of blocks, read one by one or together.
func C23_Files() {
	nf := 1 + vf.Choose("files", vf.Bound("files", 2, 3))
	var texts []string
	var all [][]block
	total := 0
	for i := 0; i < nf; i++ {
		nb := 1 + vf.Choose("blocks", 2)
		t := ""
		var bs []block
		for j := 0; j < nb; j++ {
			b := block{input: []string{vf.Str("input", 1, lineBytes)}, output: vf.Str("output", 1, lineBytes)}
			d := dice.Die{Value: vf.Int("value", 1, 9), Sides: vf.Int("sides", 1, 9)}
			b.dice = []dice.Die{d}
			b.text = "input:\n" + b.input[0] + "\noutput:\n" + b.output + "\nrand:" + itoa(d.Value) + "/" + itoa(d.Sides)
			if j > 0 {
				t += between
			}
			t += b.text
			bs = append(bs, b)
			total++
		}
		if i == 0 {
			t += []string{"", "\n", "\n\n"}[vf.Choose("newlines at the end", 3)]
		} else {
			t += "\n"
		}
		texts = append(texts, t)
		all = append(all, bs)
	}
	game := vf.Str("game", 1, "")
	withFiles(texts, func(names []string) {
		cs, err := dicebottesting.ParseFiles(names, game)
		vf.Assert(err == nil, "data files are refused")
		vf.Assert(len(cs) == total, "the number of blocks of all files")
		k := 0
		for _, bs := range all {
			for _, b := range bs {
				checkBlock(cs[k], b, game, k+1)
				k++
			}
		}
		for i, n := range names {
			cs, err := dicebottesting.ParseFile(n, game)
			vf.Assert(err == nil, "a data file is refused")
			vf.Assert(len(cs) == len(all[i]), "the number of blocks of a file")
			for j, b := range all[i] {
				checkBlock(cs[j], b, game, j+1)
			}
		}
	})
}

// C23_ManyFiles: the test cases of any number of files are numbered on.
func C23_ManyFiles() {
	n := 1 + vf.Choose("files", vf.Bound("files", 4, 5))
	var texts []string
	var all []block
	for i := 0; i < n; i++ {
		t := ""
		for j, k := 0, vf.Choose("blocks", 3); j <= k; j++ {
			v := len(all)%9 + 1
			b := block{input: []string{"C(" + itoa(len(all)) + ")"}, output: "o" + itoa(len(all)), dice: []dice.Die{{Value: v, Sides: 9}}}
			if j > 0 {
				t += between
			}
			t += "input:\n" + b.input[0] + "\noutput:\n" + b.output + "\nrand:" + itoa(v) + "/9"
			all = append(all, b)
		}
		texts = append(texts, t+"\n")
	}
	withFiles(texts, func(names []string) {
		cs, err := dicebottesting.ParseFiles(names, "DiceBot")
		vf.Assert(err == nil, "data files are refused")
		vf.Assert(len(cs) == len(all), "the number of blocks of all files")
		for k, b := range all {
			checkBlock(cs[k], b, "DiceBot", k+1)
		}
	})
}

// C23_BadFile: a file that is missing or has a malformed block is an error.
func C23_BadFile() {
	good := "input:\nx\noutput:\ny\nrand:1/6"
	bad := []string{"", "x", "input:\nx\noutput:\ny\nrand:1", "input:\nx\noutput:\ny", "\n" + good}[vf.Choose("bad", 5)]
	var t string
	switch vf.Choose("where", 3) {
	case 0:
		t = bad
	case 1:
		t = bad + between + good
	case 2:
		t = good + between + bad
	}
	withFiles([]string{good, t}, func(names []string) {
		_, err := dicebottesting.ParseFile(names[1], "DiceBot")
		vf.Assert(err != nil, "a malformed block in a file is accepted")
		_, err = dicebottesting.ParseFiles(names, "DiceBot")
		vf.Assert(err != nil, "a malformed block in the last file is accepted")
		_, err = dicebottesting.ParseFiles([]string{names[1], names[0]}, "DiceBot")
		vf.Assert(err != nil, "a malformed block in the first file is accepted")
		_, err = dicebottesting.ParseFile(names[0]+"x", "DiceBot")
		vf.Assert(err != nil, "a missing file is accepted")
		_, err = dicebottesting.ParseFiles([]string{names[0], names[0] + "x"}, "DiceBot")
		vf.Assert(err != nil, "a missing file is accepted")
	})
}

// C23_Join: names get the directory of the data.
func C23_Join() {
	n := vf.Choose("names", 4)
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, []string{"a.txt", "b.txt", "c.txt"}[vf.Choose("name", 3)])
	}
	got := dicebottesting.JoinWithTestData(names)
	vf.Assert(len(got) == n, "the number of paths")
	for i := range got {
		vf.Assert(got[i] == "testdata/"+names[i], "a path")
	}
}

// plainQuote stands for quoting in the text of errors, which no assertion looks at.
func plainQuote(buf []byte, s string, quote byte, ascii, graphic bool) []byte {
	buf = append(buf, quote)
	buf = append(buf, s...)
	return append(buf, quote)
}

// anyLine is a line of arbitrary bytes around a fixed one.
func anyLine(name string) string {
	l := vf.Str(name, vf.Choose("bytes before", 2), "")
	l += []string{"x", "1D6 ", "\t"}[vf.Choose("fixed", 3)]
	l += vf.Str(name, vf.Choose("bytes after", 2), "")
	for i := 0; i < len(l); i++ {
		vf.Assume(l[i] != '\n')
	}
	return l
}

// C23_Verbatim: lines of a block are what is written, whatever bytes they consist of.
func C23_Verbatim() {
	var b block
	if vf.Choose("where", 2) == 0 {
		l := anyLine("input")
		b = block{"input:\n" + l + "\n\noutput:x\nrand:", []string{l, ""}, "x", nil}
	} else {
		l := anyLine("output")
		b = block{"input:\na\noutput:" + []string{"", "\n"}[vf.Choose("next line", 2)] + l + "\n \nrand:", []string{"a"}, l + "\n ", nil}
	}
	vf.ObsS("text", b.text)
	c, err := dicebottesting.Parse(b.text, "G", 1)
	vf.Assert(err == nil, "a block is refused")
	checkBlock(c, b, "G", 1)
}
