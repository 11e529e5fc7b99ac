package h

import "github.com/raa0121/GoBCDice/zz_verif/vf"

func checkSecret(t string, limit int) {
	marker := vf.Str("marker", 1, "Ss")
	f, r, err := run(t, limit)
	a := see(r, err)
	b := again(marker+t, f.drawn)
	same(a, b, "with the secret marker")
	vf.Assert(!a.secret, "a command without the marker is secret")
	if a.ok {
		vf.Assert(b.secret, "a command with the marker is not secret")
		vf.Reach("result")
	} else {
		vf.Reach("error")
	}
}

// C12_Commands: every pattern, optionally followed by further text.
func C12_Commands() {
	t := anyCommand("pattern", 0, len(patterns))
	switch vf.Choose("tail", 3) {
	case 1:
		t += " S"
	case 2:
		t += " " + vf.Str("x", 1, "")
	}
	checkSecret(t, vf.Bound("dice", 3, 5))
}

// C12_Bytes: arbitrary short texts.
func C12_Bytes() {
	n := vf.Choose("length", 1+vf.Bound("bytes", 3, 4))
	t := vf.Str("c", n, "")
	if n > 0 {
		vf.Assume(vf.And(t[0] != 'S', t[0] != 's'))
	}
	checkSecret(t, 2)
}

// C12_Alphabet: longer texts over the characters of the language.
func C12_Alphabet() {
	n := vf.Bound("characters", 5, 6)
	t := vf.Str("c", n, "12DdBC(+)[]/=>, ")
	checkSecret(t, 2)
}

// C12_Twice: only one marker is taken off, and no command begins with what would be a second one.
func C12_Twice() {
	m := vf.Str("marker", 1, "Ss") + vf.Str("second", 1, "Ss")
	t := ""
	if vf.Choose("kind", 2) == 0 {
		t = anyCommand("pattern", 0, len(patterns))
	} else {
		t = vf.Str("c", vf.Choose("length", 1+vf.Bound("bytes", 3, 4)), "")
	}
	f, r, err := run(m+t, 2)
	o := see(r, err)
	vf.Assert(!o.ok, "a second secret marker is taken off")
	vf.Assert(len(f.drawn) == 0, "a text that is no command draws dice")
	vf.Reach("error")
}
