// Package vf is the interface between harnesses and the checker. The engine replaces every function
// here by its symbolic meaning; the bodies below are what the native replay of a solver model uses.
package vf

import (
	"fmt"
	"reflect"
	"strconv"
)

// Env is the state of one native run.
type Env struct {
	Vec    map[string]int64
	Count  map[string]int
	Obs    []string
	Fail   string
	Known  []string
	Assume bool
	Miss   int
	Tier   string
}

var cur *Env

type Stop struct{}

// Begin starts a native run.
func Begin(e *Env) {
	e.Count = map[string]int{}
	cur = e
}

func next(name string) string {
	n := cur.Count[name]
	cur.Count[name] = n + 1
	if n > 0 {
		return name + "#" + strconv.Itoa(n)
	}
	return name
}

func get(name string, def int64) int64 {
	if v, ok := cur.Vec[next(name)]; ok {
		return v
	}
	cur.Miss++
	return def
}

// Int is an arbitrary integer in lo..hi (concrete bounds).
func Int(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	if lo > hi {
		Assume(false)
	}
	return int(get(name, int64(lo)))
}

// IntT is an arbitrary integer in lo..hi (bounds may be symbolic).
func IntT(name string, lo, hi int) int {
	v := int(get(name, int64(lo)))
	Assume(lo <= v && v <= hi)
	return v
}

// Byte is an arbitrary byte in lo..hi.
func Byte(name string, lo, hi int) byte {
	return byte(get(name, int64(lo)))
}

// Bool is an arbitrary truth value.
func Bool(name string) bool { return get(name, 0) != 0 }

// Choose is an arbitrary index below n, split into cases.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(get(name, 0))
}

// Split turns a symbolic integer into a case split over its values.
func Split(v int) int { return v }

// Str is an arbitrary string of n bytes over the alphabet (all bytes when it is empty).
func Str(name string, n int, alphabet string) string {
	b := make([]byte, n)
	def := int64(0)
	if alphabet != "" {
		def = int64(alphabet[0])
	}
	for i := range b {
		b[i] = byte(get(name, def))
	}
	return string(b)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		cur.Assume = true
		panic(Stop{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		if cur.Fail == "" {
			cur.Fail = msg
		}
		panic(Stop{})
	}
}

// AssertKnown is Assert, except that where known holds a failure is the recorded finding id.
func AssertKnown(c bool, msg string, known bool, id string) {
	if !c && known {
		cur.Known = append(cur.Known, id)
		return
	}
	Assert(c, msg)
}

// ObsS, ObsI and ObsB record values that must be the same in the encoding and in the real run.
func ObsS(label, v string)       { cur.Obs = append(cur.Obs, label+"="+strconv.QuoteToASCII(v)) }
func ObsI(label string, v int)   { cur.Obs = append(cur.Obs, label+"="+strconv.Itoa(v)) }
func ObsB(label string, v bool)  { cur.Obs = append(cur.Obs, label+"="+fmt.Sprint(v)) }

// Bound is a stated bound, by tier.
func Bound(name string, quick, thorough int) int {
	if cur.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Reach marks a place that must be reached (vacuity guard).
func Reach(label string) {}

// Symbolic tells whether the code runs in the engine.
func Symbolic() bool { return false }

// And, Or, Ite and StrEq do not branch.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func StrEq(a, b string) bool { return a == b }

// Same is structural equality.
func Same(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// Freeze makes writes to anything reachable from the module's package variables recorded.
func Freeze() {}

// FrozenWrite describes the first such write, or is empty.
func FrozenWrite() string { return "" }

// Stdout returns what was printed so far.
func Stdout() string { return "" }

// MaxSteps and MaxSplit adjust exploration limits.
func MaxSteps(n int) {}
func MaxSplit(n int) {}

// Debug prints in the engine's debug mode.
func Debug(s string) {}
