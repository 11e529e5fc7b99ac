package main

import (
	"fmt"
	"go/types"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	run func(in *In)
}

type callFn func(fr *Frame) V

// prepCall evaluates the callee and the arguments now and returns the call to perform later.
func (k *compiler) prepCall(c *ssa.CallCommon) func(fr *Frame) deferred {
	var args []opnd
	for _, a := range c.Args {
		args = append(args, k.opnd(a))
	}
	get := func(fr *Frame) []V {
		vs := make([]V, len(args))
		for i := range args {
			vs[i] = args[i].get(fr)
		}
		return vs
	}
	if c.IsInvoke() {
		recv := k.opnd(c.Value)
		m := c.Method
		P := k.P
		return func(fr *Frame) deferred {
			ifc, _ := recv.get(fr).P.(*Iface)
			if ifc == nil {
				fr.in.nilDeref()
			}
			fn := P.method(ifc.t, m)
			vs := append([]V{ifc.v}, get(fr)...)
			return deferred{func(in *In) { in.call(fn, vs, nil) }}
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		bf := k.builtin(b, c)
		return func(fr *Frame) deferred {
			vs := get(fr)
			return deferred{func(in *In) { bf(in, vs) }}
		}
	}
	fv := k.opnd(c.Value)
	return func(fr *Frame) deferred {
		cl, _ := fv.get(fr).P.(*Closure)
		vs := get(fr)
		return deferred{func(in *In) {
			if cl == nil {
				in.nilDeref()
			}
			in.callClosure(cl, vs)
		}}
	}
}

func (k *compiler) call(c *ssa.CallCommon) callFn {
	var args []opnd
	for _, a := range c.Args {
		args = append(args, k.opnd(a))
	}
	n := len(args)
	if c.IsInvoke() {
		recv := k.opnd(c.Value)
		m := c.Method
		P := k.P
		return func(fr *Frame) V {
			ifc, _ := recv.get(fr).P.(*Iface)
			if ifc == nil {
				fr.in.nilDeref()
			}
			fn := P.method(ifc.t, m)
			ap := fr.in.ap
			vs := fr.in.args(n + 1)
			vs[0] = copyV(ifc.v)
			for i := range args {
				vs[i+1] = args[i].get(fr)
			}
			r := fr.in.call(fn, vs, nil)
			fr.in.ap = ap
			return r
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		bf := k.builtin(b, c)
		return func(fr *Frame) V {
			ap := fr.in.ap
			vs := fr.in.args(n)
			for i := range args {
				vs[i] = args[i].get(fr)
			}
			r := bf(fr.in, vs)
			fr.in.ap = ap
			return r
		}
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		fn := k.P.cfn(f)
		return func(fr *Frame) V {
			ap := fr.in.ap
			vs := fr.in.args(n)
			for i := range args {
				vs[i] = args[i].get(fr)
			}
			r := fr.in.call(fn, vs, nil)
			fr.in.ap = ap
			return r
		}
	}
	fv := k.opnd(c.Value)
	return func(fr *Frame) V {
		cl, _ := fv.get(fr).P.(*Closure)
		if cl == nil {
			fr.in.nilDeref()
		}
		ap := fr.in.ap
		vs := fr.in.args(n)
		for i := range args {
			vs[i] = args[i].get(fr)
		}
		r := fr.in.callClosure(cl, vs)
		fr.in.ap = ap
		return r
	}
}

func (in *In) callClosure(cl *Closure, vs []V) V {
	if cl.native != nil {
		return cl.native(in, vs)
	}
	return in.call(cl.fn, vs, cl.env)
}

type builtinFn func(in *In, a []V) V

func (k *compiler) builtin(b *ssa.Builtin, c *ssa.CallCommon) builtinFn {
	switch b.Name() {
	case "len", "cap":
		t := c.Args[0].Type()
		if isStringT(t) {
			return func(in *In, a []V) V { return V{I: int64(in.strLen(a[0]))} }
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
			n := t.Underlying().(*types.Array).Len()
			return func(in *In, a []V) V { return V{I: n} }
		}
		isCap := b.Name() == "cap"
		return func(in *In, a []V) V {
			switch x := a[0].P.(type) {
			case nil:
				return V{}
			case *Sl:
				if isCap {
					return V{I: int64(cap(x.a))}
				}
				return V{I: int64(len(x.a))}
			case *Map:
				return V{I: int64(x.n)}
			case *Agg:
				return V{I: int64(len(x.f))}
			}
			panic(pathCut{fmt.Sprintf("len of %T", a[0].P), "unsupported"})
		}
	case "append":
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		sz := k.P.sizeof(el)
		hasPtr := true
		if _, ok := el.Underlying().(*types.Basic); ok && !isStringT(el) {
			hasPtr = false
		}
		strArg := len(c.Args) > 1 && isStringT(c.Args[1].Type())
		z := zeroFn(el)
		return func(in *In, a []V) V {
			if len(a) < 2 {
				return a[0]
			}
			var add []V
			if strArg {
				add = in.bytesOf(a[1])
			} else if s, ok := a[1].P.(*Sl); ok {
				add = s.a
			}
			var base []V
			bs, _ := a[0].P.(*Sl)
			if bs != nil {
				base = bs.a
			}
			if len(add) == 0 {
				if bs == nil {
					return V{}
				}
				return a[0]
			}
			return V{P: &Sl{in.appendV(base, add, sz, hasPtr, z)}}
		}
	case "copy":
		strArg := isStringT(c.Args[1].Type())
		return func(in *In, a []V) V {
			d, _ := a[0].P.(*Sl)
			var src []V
			if strArg {
				src = in.bytesOf(a[1])
			} else if s, ok := a[1].P.(*Sl); ok {
				src = s.a
			}
			if d == nil {
				return V{}
			}
			n := min(len(d.a), len(src))
			if n == 0 {
				return V{}
			}
			tmp := make([]V, n)
			for i := range tmp {
				tmp[i] = copyV(src[i])
			}
			for i := range tmp {
				in.store(&d.a[i], tmp[i])
			}
			return V{I: int64(n)}
		}
	case "delete":
		kt := c.Args[0].Type().Underlying().(*types.Map).Key()
		return func(in *In, a []V) V {
			if m, ok := a[0].P.(*Map); ok {
				in.mapDelete(m, kt, a[1])
			}
			return V{}
		}
	case "clear":
		el := zeroFn(types.Typ[types.Int])
		if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			el = zeroFn(s.Elem())
		}
		return func(in *In, a []V) V {
			switch x := a[0].P.(type) {
			case *Sl:
				for i := range x.a {
					in.store(&x.a[i], el())
				}
			case *Map:
				in.mapClear(x)
			}
			return V{}
		}
	case "min", "max":
		isMax := b.Name() == "max"
		t := c.Args[0].Type()
		return func(in *In, a []V) V {
			r := a[0]
			for _, x := range a[1:] {
				if ik, ok := intKind(t); ok {
					if r.P == nil && x.P == nil {
						less := x.I < r.I
						if !ik.signed {
							less = uint64(x.I) < uint64(r.I)
						}
						if less != isMax && x.I != r.I {
							r = x
						}
						continue
					}
					p, q := lift(in.tt, r, ik.w), lift(in.tt, x, ik.w)
					lt := in.tt.Slt(q, p)
					if !ik.signed {
						lt = in.tt.Ult(q, p)
					}
					if isMax {
						r = unlift(in.tt.Ite(lt, p, q), ik.signed)
					} else {
						r = unlift(in.tt.Ite(lt, q, p), ik.signed)
					}
					continue
				}
				if isStringT(t) {
					less := in.truth(in.strLess(x, r))
					if less != isMax {
						r = x
					}
					continue
				}
				if (fl(x) < fl(r)) != isMax {
					r = x
				}
			}
			return r
		}
	case "panic":
		return func(in *In, a []V) V { panic(targetPanic{a[0]}) }
	case "recover":
		return func(in *In, a []V) V { return in.doRecover() }
	case "print", "println":
		return func(in *In, a []V) V { return V{} }
	case "ssa:wrapnilchk":
		return func(in *In, a []V) V {
			if a[0].P == nil {
				in.nilDeref()
			}
			return a[0]
		}
	case "ssa:deferstack":
		return func(in *In, a []V) V { return V{} }
	case "String": // unsafe.String
		return func(in *In, a []V) V {
			n := int(a[1].I)
			if n == 0 {
				return V{}
			}
			p := a[0].P.(*V)
			return bytesToStr(unsafe.Slice(p, n))
		}
	case "StringData":
		return func(in *In, a []V) V {
			b := in.bytesOf(a[0])
			if len(b) == 0 {
				return V{}
			}
			c := make([]V, len(b))
			copy(c, b)
			return V{P: &c[0]}
		}
	case "Slice":
		return func(in *In, a []V) V {
			if a[0].P == nil {
				return V{}
			}
			return V{P: &Sl{unsafe.Slice(a[0].P.(*V), int(a[1].I))}}
		}
	case "SliceData":
		return func(in *In, a []V) V {
			s, _ := a[0].P.(*Sl)
			if s == nil || cap(s.a) == 0 {
				return V{}
			}
			return V{P: &s.a[:1][0]}
		}
	case "complex":
		return func(in *In, a []V) V { return V{P: complex(fl(a[0]), fl(a[1]))} }
	case "real":
		return func(in *In, a []V) V { return flV(real(a[0].P.(complex128))) }
	case "imag":
		return func(in *In, a []V) V { return flV(imag(a[0].P.(complex128))) }
	}
	nm := b.Name()
	return func(in *In, a []V) V { panic(pathCut{"builtin " + nm, "unsupported"}) }
}

// appendV models append with the runtime's growth policy.
func (in *In) appendV(base, add []V, sz int64, hasPtr bool, z func() V) []V {
	n := len(base) + len(add)
	if n <= cap(base) {
		r := base[:n]
		for i := range add {
			in.store(&r[len(base)+i], copyV(add[i]))
		}
		return r
	}
	if n > maxSliceLen {
		panic(pathCut{"huge append", "suspect"})
	}
	c := growCap(cap(base), n, sz, !hasPtr)
	r := make([]V, n, c)
	for i := range base {
		r[i] = copyV(base[i])
	}
	for i := range add {
		r[len(base)+i] = copyV(add[i])
	}
	full := r[:c]
	z0 := z()
	if z0.P != nil {
		for i := n; i < c; i++ {
			full[i] = z()
		}
	}
	return r
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen int, sz int64, noscan bool) int {
	newcap := newLen
	if dbl := oldCap + oldCap; newLen <= dbl {
		if oldCap < 256 {
			newcap = dbl
		} else {
			newcap = oldCap
			for uint(newcap) < uint(newLen) {
				newcap += (newcap + 3*256) >> 2
			}
		}
	}
	if sz == 0 {
		return newLen
	}
	mem := int64(newcap) * sz
	req := mem
	if req <= 32768-8 {
		if !noscan && req > 512 {
			req += 8 // malloc header
			r := roundClass(req)
			return int((r - 8) / sz)
		}
		return int(roundClass(req) / sz)
	}
	// page rounding
	r := (req + 8191) &^ 8191
	return int(r / sz)
}

func roundClass(n int64) int64 {
	for _, c := range sizeClasses {
		if c >= n {
			return c
		}
	}
	return n
}
