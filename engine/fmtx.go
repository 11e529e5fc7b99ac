package main

import (
	"fmt"
	"go/types"
	"strconv"
)

// formatting over rope strings

type fmtState struct {
	in      *In
	out     V
	wrapped []V
}

func (f *fmtState) lit(s string) { f.out = concatV(f.out, strV(s)) }

// sprintf models fmt.Sprintf. The format must be concrete.
func (in *In) sprintf(format V, args []V) (V, []V) {
	fs, ok := concStr(format)
	if !ok {
		panic(pathCut{"symbolic format string", "unsupported"})
	}
	f := &fmtState{in: in}
	n := 0
	reordered := false
	i := 0
	for i < len(fs) {
		j := i
		for j < len(fs) && fs[j] != '%' {
			j++
		}
		if j > i {
			f.lit(fs[i:j])
		}
		if j >= len(fs) {
			break
		}
		i = j + 1
		st := j
		var flags string
		for i < len(fs) && (fs[i] == '+' || fs[i] == '-' || fs[i] == '#' || fs[i] == ' ' || fs[i] == '0') {
			flags += string(fs[i])
			i++
		}
		argIdx := func() {
			if i < len(fs) && fs[i] == '[' {
				k := i + 1
				for k < len(fs) && fs[k] != ']' {
					k++
				}
				if x, err := strconv.Atoi(fs[i+1 : min(k, len(fs))]); err == nil {
					n = x - 1
					reordered = true
				}
				i = min(k+1, len(fs))
			}
		}
		argIdx()
		spec := ""
		num := func() {
			if i < len(fs) && fs[i] == '*' {
				if n < len(args) {
					if ifc, _ := args[n].P.(*Iface); ifc != nil {
						spec += strconv.FormatInt(in.concInt(ifc.v, ikind{64, true}), 10)
					}
				}
				n++
				i++
				return
			}
			for i < len(fs) && isDigit(fs[i]) {
				spec += string(fs[i])
				i++
			}
		}
		num()
		if i < len(fs) && fs[i] == '.' {
			spec += "."
			i++
			argIdx()
			num()
		}
		argIdx()
		if i >= len(fs) {
			f.lit("%!(NOVERB)")
			break
		}
		verb, sz := decodeRuneBytes([]byte(fs[i:min(len(fs), i+4)]))
		i += sz
		_ = st
		if verb == '%' {
			f.lit("%")
			continue
		}
		if n >= len(args) || n < 0 {
			f.lit("%!" + string(verb) + "(MISSING)")
			if n >= len(args) {
				continue
			}
		}
		a := args[n]
		n++
		if verb == 'w' {
			f.wrapped = append(f.wrapped, a)
			verb = 'v'
		}
		f.verb(a, verb, flags, spec)
	}
	if !reordered && n < len(args) {
		f.lit("%!(EXTRA ")
		for k := n; k < len(args); k++ {
			if k > n {
				f.lit(", ")
			}
			if ifc, _ := args[k].P.(*Iface); ifc == nil {
				f.lit("<nil>")
			} else {
				f.lit(typeText(ifc.t) + "=")
				f.verb(args[k], 'v', "", "")
			}
		}
		f.lit(")")
	}
	return f.out, f.wrapped
}

func typeText(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (f *fmtState) verb(a V, verb rune, flags, spec string) {
	in := f.in
	ifc, _ := a.P.(*Iface)
	if ifc == nil {
		switch verb {
		case 'T', 'v':
			f.lit("<nil>")
		default:
			f.lit("%!" + string(verb) + "(<nil>)")
		}
		return
	}
	if verb == 'T' {
		f.lit(typeText(ifc.t))
		return
	}
	if verb == 'p' {
		f.lit("0xc000010000")
		return
	}
	f.value(ifc.t, ifc.v, verb, flags, spec, 0)
	_ = in
}

func hasByte(s string, b byte) bool {
	for i := range len(s) {
		if s[i] == b {
			return true
		}
	}
	return false
}

func (f *fmtState) value(t types.Type, v V, verb rune, flags, spec string, depth int) {
	in := f.in
	if depth > 20 {
		panic(pathCut{"formatting too deep", "unsupported"})
	}
	// methods first
	if !(verb == 'v' && hasByte(flags, '#')) {
		switch verb {
		case 'v', 's', 'x', 'X', 'q':
			for _, name := range []string{"Error", "String"} {
				m := in.P.methodNamed(t, name)
				if m == nil {
					continue
				}
				sg := m.fn.Signature
				if sg.Params().Len() != 0 || sg.Results().Len() != 1 || !isStringT(sg.Results().At(0).Type()) {
					continue
				}
				if _, isPtr := t.Underlying().(*types.Pointer); isPtr && v.P == nil {
					// a nil receiver: fmt prints <nil> when the method panics
					s, ok := in.tryCall(m, []V{v})
					if !ok {
						f.lit("<nil>")
						return
					}
					f.str(s, verb, flags, spec)
					return
				}
				f.str(in.call(m, []V{copyV(v)}, nil), verb, flags, spec)
				return
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if verb == 't' || verb == 'v' {
				s := "false"
				if in.truth(v) {
					s = "true"
				}
				f.str(strV(s), 's', flags, spec)
				return
			}
			f.lit("%!" + string(verb) + "(bool=" + strconv.FormatBool(in.truth(v)) + ")")
			return
		case u.Info()&types.IsString != 0:
			f.str(v, verb, flags, spec)
			return
		case u.Info()&types.IsInteger != 0:
			ik, _ := intKind(t)
			if u.Kind() == types.Uintptr || u.Kind() == types.UnsafePointer {
				ik = ikind{64, false}
			}
			f.integer(v, ik, verb, flags, spec)
			return
		case u.Info()&types.IsFloat != 0:
			if v.P != nil {
				v = V{I: int64(in.fix(v.P.(*Term), "formatting a float"))}
			}
			f.lit(fmt.Sprintf("%"+flags+spec+string(verb), fl(v)))
			return
		case u.Kind() == types.UnsafePointer:
			f.lit("0xc000010000")
			return
		}
	case *types.Slice, *types.Array:
		var el types.Type
		var a []V
		if s, ok := u.(*types.Slice); ok {
			el = s.Elem()
			if x, ok := v.P.(*Sl); ok {
				a = x.a
			}
			if ik, ok := intKind(el); ok && ik.w == 8 && (verb == 's' || verb == 'q' || verb == 'x') {
				f.str(bytesToStr(a), verb, flags, spec)
				return
			}
		} else {
			el = u.(*types.Array).Elem()
			a = v.P.(*Agg).f
		}
		if verb == 'v' && hasByte(flags, '#') {
			break
		}
		f.lit("[")
		for i, e := range a {
			if i > 0 {
				f.lit(" ")
			}
			f.elem(el, e, verb, flags, spec, depth)
		}
		f.lit("]")
		return
	case *types.Struct:
		if verb == 'v' && hasByte(flags, '#') {
			break
		}
		f.lit("{")
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				f.lit(" ")
			}
			if hasByte(flags, '+') {
				f.lit(u.Field(i).Name() + ":")
			}
			f.elem(u.Field(i).Type(), v.P.(*Agg).f[i], verb, flags, spec, depth)
		}
		f.lit("}")
		return
	case *types.Map:
		if v.P == nil {
			f.lit("map[]")
			return
		}
	case *types.Pointer:
		if v.P == nil {
			f.lit("<nil>")
			return
		}
		if p, ok := v.P.(*V); ok && depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array:
				f.lit("&")
				f.value(in.P.canon(u.Elem()), *p, verb, flags, spec, depth+1)
				return
			}
		}
		f.lit("0xc000010000")
		return
	case *types.Interface:
		f.verb(v, verb, flags, spec)
		return
	case *types.Signature, *types.Chan:
		if v.P == nil {
			f.lit("<nil>")
			return
		}
		f.lit("0xc000010000")
		return
	}
	panic(pathCut{"formatting " + t.String() + " with %" + flags + string(verb), "unsupported"})
}

func (f *fmtState) elem(t types.Type, v V, verb rune, flags, spec string, depth int) {
	if types.IsInterface(t) {
		ifc, _ := v.P.(*Iface)
		if ifc == nil {
			f.lit("<nil>")
			return
		}
		f.value(ifc.t, ifc.v, verb, flags, spec, depth+1)
		return
	}
	f.value(f.in.P.canon(t), v, verb, flags, spec, depth+1)
}

func (f *fmtState) str(v V, verb rune, flags, spec string) {
	in := f.in
	if s, ok := concStr(v); ok {
		f.lit(fmt.Sprintf("%"+flags+spec+string(verb), s))
		return
	}
	switch verb {
	case 's', 'v':
		if spec == "" && !hasByte(flags, '#') {
			f.out = concatV(f.out, v)
			return
		}
	case 'q':
		if spec == "" && flags == "" {
			q := in.P.fnByName("strconv", "Quote")
			f.out = concatV(f.out, in.call(q, []V{v}, nil))
			return
		}
	}
	// concretise
	b := in.bytesOf(v)
	s := make([]byte, len(b))
	for i := range b {
		if t, ok := b[i].P.(*Term); ok {
			s[i] = byte(in.fix(t, "formatting a string with %"+flags+spec+string(verb)))
		} else {
			s[i] = byte(b[i].I)
		}
	}
	f.lit(fmt.Sprintf("%"+flags+spec+string(verb), string(s)))
}

func (f *fmtState) integer(v V, ik ikind, verb rune, flags, spec string) {
	in := f.in
	if t, ok := v.P.(*Term); ok {
		if (verb == 'd' || verb == 'v') && spec == "" && (flags == "" || flags == "+" || flags == "-") && (ik.signed || ik.w < 64) {
			if flags == "+" {
				if !in.branch(in.tt.Slt(t, in.tt.Const(0, t.w))) {
					f.lit("+")
				}
			}
			f.out = concatV(f.out, decRope(in, t, ik))
			return
		}
		if verb == 'c' && spec == "" && flags == "" {
			f.out = concatV(f.out, in.encodeRune(v, ik))
			return
		}
		if ik.signed {
			v = V{I: sx(in.fix(t, "formatting an integer with %"+flags+spec+string(verb)), t.w)}
		} else {
			v = V{I: int64(in.fix(t, "formatting an integer with %"+flags+spec+string(verb)))}
		}
	}
	if ik.signed {
		f.lit(fmt.Sprintf("%"+flags+spec+string(verb), v.I))
	} else {
		f.lit(fmt.Sprintf("%"+flags+spec+string(verb), uint64(v.I)))
	}
}

func decRope(in *In, t *Term, ik ikind) V {
	if t.w < 64 {
		if ik.signed {
			t = in.tt.Sext(t, 64)
		} else {
			t = in.tt.Zext(t, 64)
		}
	}
	return ropeV([]Seg{{kind: 2, t: t}})
}

func (in *In) tryCall(fn *CFn, args []V) (r V, ok bool) {
	sp, ap, depth, cur := in.sp, in.ap, in.depth, in.cur
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(targetPanic); !is {
				panic(x)
			}
			in.sp, in.ap, in.depth, in.cur = sp, ap, depth, cur
			ok = false
		}
	}()
	return in.call(fn, args, nil), true
}

// sprint models fmt.Sprint / Sprintln.
func (in *In) sprint(args []V, ln bool) V {
	f := &fmtState{in: in}
	prevStr := true
	for i, a := range args {
		ifc, _ := a.P.(*Iface)
		isS := ifc != nil && isStringT(ifc.t)
		if i > 0 && (ln || (!isS && !prevStr)) {
			f.lit(" ")
		}
		f.verb(a, 'v', "", "")
		prevStr = isS
	}
	if ln {
		f.lit("\n")
	}
	return f.out
}
