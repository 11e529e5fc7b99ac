package h

import (
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// flip is the letter in either case.
func flip(c byte) string { return vf.Str("case", 1, string([]byte{c, c + 32})) }

// C14_Commands: any letters of a command in any case.
func C14_Commands() {
	p := vf.Choose("pattern", len(patterns))
	pat := patterns[p]
	if vf.Choose("secret", 2) == 1 {
		pat = "S" + pat
	}
	up, low := "", ""
	inItems := false
	var ups []byte
	// the same parameters in both texts
	for i := 0; i < len(pat); i++ {
		c := pat[i]
		var u string
		switch {
		case inItems || c == 'a' || c == 'b' || c == 'c' || c == ' ' || c == ',':
			u = string([]byte{c})
			low += u
		case 'A' <= c && c <= 'Z':
			u = string([]byte{c})
			low += flip(c)
		default:
			u = pick(string([]byte{c}), nil)
			low += u
		}
		up += u
		ups = append(ups, c)
		if c == '[' && len(ups) >= 7 && string(ups[len(ups)-7:]) == "CHOICE[" {
			inItems = true
		}
	}
	f, r, err := run(up, vf.Bound("dice", 3, 5))
	a := see(r, err)
	vf.ObsS("other", low)
	b := again(low, f.drawn)
	vf.Assert(a.ok == b.ok, "a change of case makes a command valid or invalid")
	if !a.ok {
		return
	}
	same(a, b, "in other case")
	vf.Assert(a.secret == b.secret, "a change of case changes the secret flag")
	vf.Reach("same")
}

// C14_Alphabet: every text over the characters of the language.
func C14_Alphabet() {
	n := vf.Bound("characters", 5, 6)
	up, low := "", ""
	for i := 0; i < n; i++ {
		c := vf.Str("c", 1, "12DBRUCS([/])+=,")
		up += c
		d := c[0]
		low += string([]byte{byte(vf.Ite(vf.And('A' <= d, d <= 'Z'), int(d)+32, int(d)))})
	}
	f, r, err := run(up, 2)
	a := see(r, err)
	b := again(low, f.drawn)
	vf.Assert(a.ok == b.ok, "a change of case makes a command valid or invalid")
	if a.ok {
		same(a, b, "in lower case")
		vf.Assert(a.secret == b.secret, "a change of case changes the secret flag")
		vf.Reach("same")
	}
}

// C14_Items: the items of a choice keep their case.
func C14_Items() {
	x := vf.Str("x", 2, "aAbBzZ")
	y := vf.Str("y", 1, "aAbBzZ")
	k := ""
	for _, c := range []byte("CHOICE") {
		k += flip(c)
	}
	checkChoice(k+"["+x+","+y+"]", []string{x, y})
}
