package main

import (
	"fmt"
	"math"
)

func (tt *TT) evFP(t *Term, m *Model) uint64 {
	f := func(x *Term) float64 { return math.Float64frombits(tt.ev(x, m)) }
	switch t.op {
	case OFAdd:
		return math.Float64bits(f(t.a) + f(t.b))
	case OFSub:
		return math.Float64bits(f(t.a) - f(t.b))
	case OFMul:
		return math.Float64bits(f(t.a) * f(t.b))
	case OFDiv:
		return math.Float64bits(f(t.a) / f(t.b))
	case OFLt:
		return b2u(f(t.a) < f(t.b))
	case OFLe:
		return b2u(f(t.a) <= f(t.b))
	case OFEq:
		return b2u(f(t.a) == f(t.b))
	case OFNeg:
		return math.Float64bits(-f(t.a))
	case OFAbs:
		return math.Float64bits(math.Abs(f(t.a)))
	case OFRound:
		x := f(t.a)
		switch t.k {
		case 0:
			x = math.Round(x)
		case 1:
			x = math.Ceil(x)
		case 2:
			x = math.Floor(x)
		case 3:
			x = math.Trunc(x)
		case 4:
			x = math.RoundToEven(x)
		}
		return math.Float64bits(x)
	case OFFromS:
		return math.Float64bits(float64(sx(tt.ev(t.a, m), t.a.w)))
	case OFFromU:
		return math.Float64bits(float64(tt.ev(t.a, m)))
	case OFToS:
		return uint64(int64(f(t.a))) & mask(t.w)
	}
	return 0
}

// isFP: the term is a float (carried as its bits); as an SMT term it is named f<id>, of sort Float64.
func isFP(t *Term) bool {
	switch t.op {
	case OFAdd, OFSub, OFMul, OFDiv, OFNeg, OFAbs, OFRound, OFFromS, OFFromU:
		return true
	case OIte:
		return t.w == 64 && t.fp && (isFP(t.b) || isFP(t.c))
	}
	return false
}

// smtFP prints an operation on floats; fl names a float, name the bits of a term.
func (t *Term) smtFP(name, fl func(*Term) string) string {
	switch t.op {
	case OFAdd, OFSub, OFMul, OFDiv:
		o := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		return fmt.Sprintf("(%s RNE %s %s)", o, fl(t.a), fl(t.b))
	case OFLt:
		return fmt.Sprintf("(fp.lt %s %s)", fl(t.a), fl(t.b))
	case OFLe:
		return fmt.Sprintf("(fp.leq %s %s)", fl(t.a), fl(t.b))
	case OFEq:
		return fmt.Sprintf("(fp.eq %s %s)", fl(t.a), fl(t.b))
	case OFNeg:
		return fmt.Sprintf("(fp.neg %s)", fl(t.a))
	case OFAbs:
		return fmt.Sprintf("(fp.abs %s)", fl(t.a))
	case OFRound:
		rm := []string{"RNA", "RTP", "RTN", "RTZ", "RNE"}[t.k]
		return fmt.Sprintf("(fp.roundToIntegral %s %s)", rm, fl(t.a))
	case OFFromS:
		return fmt.Sprintf("((_ to_fp 11 53) RNE %s)", name(t.a))
	case OFFromU:
		return fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", name(t.a))
	case OFToS:
		// outside the range of int64 the hardware answers with the least integer
		x := fl(t.a)
		in := fmt.Sprintf("(and (fp.lt %s ((_ to_fp 11 53) #x43e0000000000000)) (fp.geq %s ((_ to_fp 11 53) #xc3e0000000000000)))", x, x)
		return fmt.Sprintf("((_ extract %d 0) (ite %s ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000))", t.w-1, in, x)
	case OIte:
		return fmt.Sprintf("(ite %s %s %s)", name(t.a), fl(t.b), fl(t.c))
	}
	panic("smtFP")
}
