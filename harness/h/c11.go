package h

import (
	"reflect"
	"unsafe"

	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
	"github.com/seehuhn/mt19937"
)

// The raw outputs of the generator. In the engine the generator's methods are replaced by the
// functions below; natively the state of the real generator is set so that it puts out these words.
type rawWord struct {
	m    *mt19937.MT19937
	seed int64
	pos  int
	word uint64
}

type rawGen struct {
	seeded []rawWord // per instance: its seed and position
	known  []rawWord // words by seed and position
	words  []uint64  // prescribed words, when not by seed
	used   int
	bySeed bool
	limit  int // of words in that case
}

var gen rawGen

func (g *rawGen) inst(m *mt19937.MT19937) *rawWord {
	for i := range g.seeded {
		if g.seeded[i].m == m {
			return &g.seeded[i]
		}
	}
	g.seeded = append(g.seeded, rawWord{m: m, seed: 5489})
	return &g.seeded[len(g.seeded)-1]
}

func mtSeed(m *mt19937.MT19937, seed int64) {
	i := gen.inst(m)
	i.seed, i.pos = seed, 0
}

func mtUint64(m *mt19937.MT19937) uint64 {
	if !gen.bySeed {
		vf.Assume(gen.used < len(gen.words))
		gen.used++
		return gen.words[gen.used-1]
	}
	i := gen.inst(m)
	i.pos++
	for _, k := range gen.known {
		if k.seed == i.seed && k.pos == i.pos {
			return k.word
		}
	}
	vf.Assume(len(gen.known) < gen.limit)
	w := uint64(vf.Int("raw", -1<<63, 1<<63-1))
	gen.known = append(gen.known, rawWord{seed: i.seed, pos: i.pos, word: w})
	return w
}

func mtInt63(m *mt19937.MT19937) int64 { return int64(mtUint64(m) & 0x7fffffffffffffff) }

// find looks for the generator inside v.
func find(v reflect.Value, depth int) *mt19937.MT19937 {
	if depth > 8 || !v.IsValid() {
		return nil
	}
	if v.Type() == reflect.TypeOf((*mt19937.MT19937)(nil)) {
		return (*mt19937.MT19937)(unsafe.Pointer(v.Pointer()))
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			return find(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if m := find(v.Field(i), depth+1); m != nil {
				return m
			}
		}
	}
	return nil
}

func untemper(y uint64) uint64 {
	fix := func(y uint64, f func(uint64) uint64) uint64 {
		x := y
		for i := 0; i < 64; i++ {
			x = y ^ f(x)
		}
		return x
	}
	y = fix(y, func(x uint64) uint64 { return x >> 43 })
	y = fix(y, func(x uint64) uint64 { return x << 37 & 0xFFF7EEE000000000 })
	y = fix(y, func(x uint64) uint64 { return x << 17 & 0x71D67FFFEDA60000 })
	return fix(y, func(x uint64) uint64 { return x >> 29 & 0x5555555555555555 })
}

// source is a fresh source whose next raw outputs are these words.
func source(words ...uint64) *feeder.MT19937 {
	f := feeder.NewMT19937(1)
	if vf.Symbolic() {
		gen = rawGen{words: words}
		return f
	}
	m := find(reflect.ValueOf(f), 0)
	if m == nil {
		vf.Assume(false)
	}
	v := reflect.ValueOf(m).Elem()
	for i := 0; i < v.NumField(); i++ {
		p := unsafe.Pointer(v.Field(i).UnsafeAddr())
		switch v.Field(i).Kind() {
		case reflect.Slice:
			s := *(*[]uint64)(p)
			for j := range s {
				s[j] = untemper(words[j%len(words)])
			}
		case reflect.Int:
			*(*int)(p) = 0
		}
	}
	return f
}

func rawInt(name string) uint64 { return uint64(vf.Int(name, -1<<63, 1<<63-1)) }

var manySides = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 20, 30, 64, 66, 100, 1000, 1024, 65537, 1000000, 1<<30 + 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 3000000000, 1<<40 + 7, 1 << 62, 1<<62 + 1, 1<<63 - 1}

// C11_Range: any raw outputs, the listed side counts: the die has these sides and one of its faces.
func C11_Range() {
	sides := manySides[vf.Choose("sides", len(manySides))]
	f := source(rawInt("raw0"), rawInt("raw1"), rawInt("raw2"))
	d, err := f.Next(sides)
	vf.ObsI("value", d.Value)
	vf.Assert(err == nil, "the random source failed")
	vf.Assert(d.Sides == sides, "the die has other sides than asked for")
	vf.Assert(vf.And(1 <= d.Value, d.Value <= sides), "the die shows no face of it")
	vf.Reach("die")
}

// C11_AnySides: the same with any number of sides.
func C11_AnySides() {
	sides := 0
	if vf.Choose("many", 2) == 0 {
		sides = vf.Int("sides", 1, 1<<31-1)
	} else {
		sides = vf.Int("sides", 1<<31, 1<<63-1)
	}
	f := source(rawInt("raw0"), rawInt("raw1"))
	d, err := f.Next(sides)
	vf.Assert(err == nil, "the random source failed")
	vf.Assert(d.Sides == sides, "the die has other sides than asked for")
	vf.Assert(vf.And(1 <= d.Value, d.Value <= sides), "the die shows no face of it")
	vf.Reach("die")
}

// C11_Balance: the raw outputs fall into blocks of as many consecutive values as there are sides;
// in every whole block each face appears exactly once, and a raw output beyond the last whole block
// gives no face but is skipped. So no face is favoured and every face is attainable.
func C11_Balance() {
	sides := manySides[vf.Choose("sides", len(manySides))]
	bits := uint(63) // of the raw output that count
	if sides < 1<<31 {
		bits = 31
	}
	limit := uint64(1) << bits
	blocks := limit / uint64(sides)
	word := func(r int) uint64 {
		if bits == 63 {
			return uint64(r)
		}
		return uint64(r)<<32 + uint64(vf.Int("low", 0, 1<<32-1))
	}
	if vf.Choose("part", 2) == 1 {
		if blocks*uint64(sides) == limit {
			return
		}
		// beyond the whole blocks: the next raw output decides alone
		r := word(vf.Int("rest", int(blocks*uint64(sides)), int(limit-1)))
		next := rawInt("next")
		a, err := source(r, next).Next(sides)
		vf.Assert(err == nil, "the random source failed")
		b, err := source(next).Next(sides)
		vf.Assert(err == nil, "the random source failed")
		vf.Assert(a == b, "a face is favoured: a raw output beyond the last whole block decides")
		vf.Reach("skipped")
		return
	}
	q, face := vf.Int("block", 0, int(blocks-1)), vf.IntT("face", 1, sides)
	d, err := source(word(q*sides + face - 1)).Next(sides)
	vf.Assert(err == nil, "the random source failed")
	vf.Assert(d.Value == face && d.Sides == sides, "a face is favoured or missing: a whole block of raw outputs does not show every face")
	vf.Reach("balanced")
}

// C11_Seed: equal seeds give equal dice for equal requests, however the requests of the two sources
// interleave, and the seed is reported.
func C11_Seed() {
	n := vf.Bound("draws", 3, 4)
	gen = rawGen{bySeed: true, limit: n + 1}
	seed := int64(vf.Int("seed", -1<<63, 1<<63-1))
	a := feeder.NewMT19937(seed)
	var sides, got []int
	if vf.Choose("interleaved", 2) == 1 {
		b := feeder.NewMT19937(seed)
		for i := 0; i < n; i++ {
			s := []int{2, 6, 100}[vf.Choose("sides", 3)]
			d, err := a.Next(s)
			e, err2 := b.Next(s)
			vf.Assert(err == nil && err2 == nil, "the random source failed")
			vf.Assert(d == e, "two sources with the same seed give different dice")
		}
		vf.Assert(a.Seed() == seed && b.Seed() == seed, "the seed reported is not the seed given")
		return
	}
	for i := 0; i < n; i++ {
		s := []int{2, 6, 100}[vf.Choose("sides", 3)]
		d, err := a.Next(s)
		vf.Assert(err == nil, "the random source failed")
		sides, got = append(sides, s), append(got, d.Value)
	}
	b := feeder.NewMT19937(seed)
	for i := 0; i < n; i++ {
		d, err := b.Next(sides[i])
		vf.Assert(err == nil, "the random source failed")
		vf.Assert(d.Value == got[i] && d.Sides == sides[i], "two sources with the same seed give different dice")
	}
	vf.Assert(a.Seed() == seed && b.Seed() == seed, "the seed reported is not the seed given")
	vf.Assert(!a.CanSpecifyDie(), "a random source claims that its dice can be set")
	vf.Reach("same")
}
