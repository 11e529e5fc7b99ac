package main

import (
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func decodeRuneBytes(b []byte) (rune, int) { return utf8.DecodeRune(b) }

func (k *compiler) convert(x ssa.Value, to types.Type, dst int) instrFn {
	a := k.opnd(x)
	from := x.Type()
	fk, fi := intKind(from)
	tk, ti := intKind(to)
	ff, fIsF := isFloatT(from)
	tf, tIsF := isFloatT(to)
	_ = ff
	switch {
	case fi && ti:
		return func(fr *Frame) {
			v := a.get(fr)
			if t, ok := v.P.(*Term); ok {
				fr.regs[dst] = unlift(convInt(fr.in.tt, t, fk, tk), tk.signed)
				return
			}
			fr.regs[dst] = V{I: tk.norm(v.I)}
		}
	case fi && tIsF:
		return func(fr *Frame) {
			v := a.get(fr)
			if t, ok := v.P.(*Term); ok {
				op := OFFromS
				if !fk.signed {
					op = OFFromU
				}
				fr.regs[dst] = V{P: fr.in.tt.FP(op, 64, t, nil, 0)}
				return
			}
			var f float64
			if fk.signed {
				f = float64(v.I)
			} else {
				f = float64(uint64(v.I))
			}
			if tf == 32 {
				f = float64(float32(f))
			}
			fr.regs[dst] = flV(f)
		}
	case fIsF && ti:
		return func(fr *Frame) {
			v := a.get(fr)
			if t, ok := v.P.(*Term); ok {
				if !tk.signed {
					panic(pathCut{"symbolic float to unsigned", "unsupported"})
				}
				fr.regs[dst] = unlift(fr.in.tt.Trunc(fr.in.tt.FP(OFToS, 64, t, nil, 0), tk.w), true)
				return
			}
			f := fl(v)
			if tk.signed {
				fr.regs[dst] = V{I: tk.norm(int64(f))}
			} else {
				fr.regs[dst] = V{I: tk.norm(int64(uint64(f)))}
			}
		}
	case fIsF && tIsF:
		return func(fr *Frame) {
			v := a.get(fr)
			if tf == 32 && v.P == nil {
				v = flV(float64(float32(fl(v))))
			}
			fr.regs[dst] = v
		}
	case isStringT(to):
		if fi {
			return func(fr *Frame) { fr.regs[dst] = fr.in.encodeRune(a.get(fr), fk) }
		}
		if isStringT(from) {
			return func(fr *Frame) { fr.regs[dst] = a.get(fr) }
		}
		if s, ok := from.Underlying().(*types.Slice); ok {
			ek, _ := intKind(s.Elem())
			if ek.w == 8 {
				return func(fr *Frame) {
					sl, _ := a.get(fr).P.(*Sl)
					if sl == nil {
						fr.regs[dst] = V{}
						return
					}
					fr.regs[dst] = bytesToStr(sl.a)
				}
			}
			return func(fr *Frame) {
				sl, _ := a.get(fr).P.(*Sl)
				r := V{}
				if sl != nil {
					for _, e := range sl.a {
						r = concatV(r, fr.in.encodeRune(e, ikind{32, true}))
					}
				}
				fr.regs[dst] = r
			}
		}
	case isStringT(from):
		s := to.Underlying().(*types.Slice)
		ek, _ := intKind(s.Elem())
		if ek.w == 8 {
			return func(fr *Frame) {
				b := fr.in.bytesOf(a.get(fr))
				c := make([]V, len(b), max(len(b), int(growCap(0, len(b), 1, true))))
				copy(c, b)
				fr.regs[dst] = V{P: &Sl{c}}
			}
		}
		return func(fr *Frame) {
			b := fr.in.bytesOf(a.get(fr))
			var rs []V
			for p := 0; p < len(b); {
				r, n := fr.in.decodeRune(b[p:])
				rs = append(rs, r)
				p += n
			}
			c := make([]V, len(rs), max(len(rs), int(growCap(0, len(rs), 4, true))))
			copy(c, rs)
			fr.regs[dst] = V{P: &Sl{c}}
		}
	}
	return func(fr *Frame) { fr.regs[dst] = a.get(fr) }
}

func convInt(tt *TT, t *Term, fk, tk ikind) *Term {
	switch {
	case tk.w < fk.w:
		return tt.Trunc(t, tk.w)
	case tk.w > fk.w:
		if fk.signed {
			return tt.Sext(t, tk.w)
		}
		return tt.Zext(t, tk.w)
	}
	return t
}
