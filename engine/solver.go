package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type satRes int

const (
	unsat satRes = iota
	sat
	unknown
)

// proc is one incremental solver process.
type proc struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	bits    map[int32]bool // floats whose bits have a name
	nodes   int
	fp      bool
	kind    string
	buf     strings.Builder
	dead    bool
	timer   *time.Timer
}

func startProc(kind string, fp bool, timeoutMS int) (*proc, error) {
	var cmd *exec.Cmd
	switch kind {
	case "cvc5":
		cmd = exec.Command("cvc5", "--incremental", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", timeoutMS), "-q")
	default:
		cmd = exec.Command(kind, "-in", "-smt2", "-memory:3000")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	p := &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16), defined: map[int32]bool{}, bits: map[int32]bool{}, fp: fp, kind: kind}
	if kind == "cvc5" {
		p.buf.WriteString("(set-option :produce-models true)\n")
		if fp {
			p.buf.WriteString("(set-logic QF_BVFP)\n")
		} else {
			p.buf.WriteString("(set-logic QF_BV)\n")
		}
	} else {
		fmt.Fprintf(&p.buf, "(set-option :produce-models true)\n(set-option :timeout %d)\n", timeoutMS)
		if !fp {
			p.buf.WriteString("(set-logic QF_BV)\n")
		}
	}
	return p, nil
}

func (p *proc) close() {
	if p == nil {
		return
	}
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func (p *proc) define(tt *TT, t *Term) string {
	if t.op == OConst {
		return t.smt(nil)
	}
	nm := "t" + strconv.Itoa(int(t.id))
	if p.defined[t.id] {
		return nm
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		var ch *Term
		for f.i < 3 && ch == nil {
			switch f.i {
			case 0:
				ch = f.t.a
			case 1:
				ch = f.t.b
			case 2:
				ch = f.t.c
			}
			f.i++
			if ch != nil && (ch.op == OConst || p.defined[ch.id]) {
				ch = nil
			}
		}
		if ch != nil {
			st = append(st, fr{ch, 0})
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if p.defined[x.id] {
			continue
		}
		p.defined[x.id] = true
		p.nodes++
		if x.op == OVar {
			fmt.Fprintf(&p.buf, "(declare-fun t%d () %s)\n", x.id, sortName(x.w))
			continue
		}
		bits := func(y *Term) string {
			if y.op == OConst {
				return y.smt(nil)
			}
			nm := "t" + strconv.Itoa(int(y.id))
			if isFP(y) && !p.bits[y.id] {
				p.bits[y.id] = true
				// not in the standard, but z3 has it
				fmt.Fprintf(&p.buf, "(define-fun %s () (_ BitVec 64) (fp.to_ieee_bv f%d))\n", nm, y.id)
			}
			return nm
		}
		fl := func(y *Term) string {
			if isFP(y) {
				return "f" + strconv.Itoa(int(y.id))
			}
			return "((_ to_fp 11 53) " + bits(y) + ")"
		}
		if isFP(x) {
			body := x.smtFP(bits, fl)
			fmt.Fprintf(&p.buf, "(define-fun f%d () (_ FloatingPoint 11 53) %s)\n", x.id, body)
			continue
		}
		body := ""
		if x.op >= OFAdd {
			body = x.smtFP(bits, fl)
		} else {
			body = x.smt(bits)
		}
		fmt.Fprintf(&p.buf, "(define-fun t%d () %s %s)\n", x.id, sortName(x.w), body)
	}
	return nm
}

func (p *proc) flush() error {
	s := p.buf.String()
	p.buf.Reset()
	_, err := io.WriteString(p.in, s)
	return err
}

func (p *proc) line() (string, error) {
	s, err := p.out.ReadString('\n')
	return strings.TrimSpace(s), err
}

// check decides the conjunction. Variables' declared ranges are included.
func (p *proc) check(tt *TT, cs []*Term, vars []int32, wantModel bool, hard time.Duration) (satRes, map[int32]uint64, error) {
	names := make([]string, len(cs))
	for i, c := range cs {
		names[i] = p.define(tt, c)
	}
	for _, v := range vars {
		p.define(tt, tt.vars[v].t)
	}
	p.buf.WriteString("(push 1)\n")
	for _, v := range vars {
		vr := tt.vars[v]
		if vr.w == 0 || (vr.lo == minS(vr.w) && vr.hi == maxS(vr.w)) {
			continue
		}
		fmt.Fprintf(&p.buf, "(assert (bvsle (_ bv%d %d) t%d))(assert (bvsle t%d (_ bv%d %d)))\n",
			uint64(vr.lo)&mask(vr.w), vr.w, vr.t.id, vr.t.id, uint64(vr.hi)&mask(vr.w), vr.w)
	}
	for _, n := range names {
		p.buf.WriteString("(assert " + n + ")\n")
	}
	p.buf.WriteString("(check-sat)\n")
	t := time.AfterFunc(hard, func() { p.dead = true; p.cmd.Process.Kill() })
	defer t.Stop()
	if err := p.flush(); err != nil {
		return unknown, nil, err
	}
	l, err := p.line()
	if err != nil {
		return unknown, nil, err
	}
	for strings.HasPrefix(l, "(error") {
		return unknown, nil, fmt.Errorf("solver: %s", l)
	}
	var res satRes
	var m map[int32]uint64
	switch l {
	case "sat":
		res = sat
	case "unsat":
		res = unsat
	default:
		res = unknown
	}
	if res == sat && wantModel && len(vars) > 0 {
		p.buf.WriteString("(get-value (")
		for _, v := range vars {
			fmt.Fprintf(&p.buf, "t%d ", tt.vars[v].t.id)
		}
		p.buf.WriteString("))\n")
		if err := p.flush(); err != nil {
			return unknown, nil, err
		}
		// read balanced parens
		depth := 0
		var sb strings.Builder
		for {
			s, err := p.out.ReadString('\n')
			if err != nil {
				return unknown, nil, err
			}
			if strings.HasPrefix(s, "(error") {
				return unknown, nil, fmt.Errorf("solver: %s", s)
			}
			sb.WriteString(s)
			depth += strings.Count(s, "(") - strings.Count(s, ")")
			if depth <= 0 {
				break
			}
		}
		m = parseValues(sb.String(), tt, vars)
	}
	p.buf.WriteString("(pop 1)\n")
	return res, m, nil
}

func parseValues(s string, tt *TT, vars []int32) map[int32]uint64 {
	m := map[int32]uint64{}
	byID := map[string]int32{}
	for _, v := range vars {
		byID["t"+strconv.Itoa(int(tt.vars[v].t.id))] = v
	}
	s = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(s)
	f := strings.Fields(s)
	for i := 0; i < len(f); i++ {
		v, ok := byID[f[i]]
		if !ok || i+1 >= len(f) {
			continue
		}
		x := f[i+1]
		switch {
		case x == "true":
			m[v] = 1
		case x == "false":
			m[v] = 0
		case strings.HasPrefix(x, "#x"):
			u, _ := strconv.ParseUint(x[2:], 16, 64)
			m[v] = u
		case strings.HasPrefix(x, "#b"):
			u, _ := strconv.ParseUint(x[2:], 2, 64)
			m[v] = u
		case x == "(" && i+3 < len(f) && f[i+2] == "_":
			u, _ := strconv.ParseUint(strings.TrimPrefix(f[i+3], "bv"), 10, 64)
			m[v] = u
		}
	}
	return m
}

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, CacheHits, Errors int64
	DomainDecided                                   int64
	Abstract                                        int64 // decided with the hard operations abstracted
	Time                                            time.Duration
}

// Solver belongs to one worker.
type Solver struct {
	tt    *TT
	p     [2]*proc // [0] bit-vectors, [1] with floating point
	cache map[string]*qres
	st    SolverStats
	softT int // ms
	hard  map[*Term]bool
	absOf map[*Term]*Term
}

type qres struct {
	r satRes
	m map[int32]uint64
}

func newSolver(tt *TT) *Solver {
	return &Solver{tt: tt, cache: map[string]*qres{}, softT: 4000, hard: map[*Term]bool{}, absOf: map[*Term]*Term{}}
}

func (s *Solver) close() {
	for i, p := range s.p {
		if p != nil {
			p.close()
			s.p[i] = nil
		}
	}
}

func (s *Solver) Check(cs []*Term, hardMS int) (satRes, map[int32]uint64) {
	ids := make([]int, 0, len(cs))
	vs := emptyVS
	fp := false
	seen := map[int32]bool{}
	u := cs[:0:0]
	for _, c := range cs {
		if c == s.tt.True || seen[c.id] {
			continue
		}
		if c == s.tt.False {
			return unsat, nil
		}
		seen[c.id] = true
		u = append(u, c)
		ids = append(ids, int(c.id))
		vs = unionVS(vs, c.vs)
		fp = fp || c.fp
	}
	if len(u) == 0 {
		return sat, map[int32]uint64{}
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok && !(r.r == unknown && hardMS > s.softT) {
		s.st.CacheHits++
		return r.r, r.m
	}
	t0 := time.Now()
	s.st.Queries++
	r, m := unknown, map[int32]uint64(nil)
	if ab, ok := s.abstract(u); ok && !fp {
		avs := emptyVS
		for _, c := range ab {
			avs = unionVS(avs, c.vs)
		}
		r, m = s.run("z3", ab, avs.v, fp, 1500)
		mm := &Model{m}
		if r == sat {
			for _, c := range u {
				if s.tt.Eval(c, mm) == 0 {
					r = unknown
					break
				}
			}
		}
		if r == sat {
			s.st.Abstract++
			for _, k := range vs.v {
				m[k] = mm.get(s.tt, k)
			}
			for k := range m {
				if !vs.has(k) {
					delete(m, k)
				}
			}
		} else if r == unsat {
			s.st.Abstract++
			m = nil
		}
	}
	if r == unknown {
		kind := "z3"
		if fp {
			kind = "cvc5" // z3 is slow at conversions of wide integers
		}
		r, m = s.run(kind, u, vs.v, fp, s.softT)
	}
	if r == unknown && hardMS > 0 {
		// one-shot attempts with other solvers
		for _, k := range []string{"z3-new", "cvc5"} {
			if k == "cvc5" && fp {
				k = "z3"
			}
			r, m = s.oneShot(k, u, vs.v, fp, hardMS/2)
			if r != unknown {
				break
			}
		}
	}
	s.st.Time += time.Since(t0)
	switch r {
	case sat:
		s.st.Sat++
		if m != nil {
			// trust but verify: the model must satisfy the query
			mm := &Model{m}
			for _, c := range u {
				if s.tt.Eval(c, mm) == 0 {
					panic(engineError{fmt.Sprintf("solver model does not satisfy term %d (%s)", c.id, key)})
				}
			}
		}
	case unsat:
		s.st.Unsat++
	default:
		s.st.Unknown++
	}
	s.cache[key] = &qres{r, m}
	return r, m
}

func (s *Solver) run(kind string, u []*Term, vars []int32, fp bool, ms int) (satRes, map[int32]uint64) {
	i := 0
	if fp {
		i = 1
	}
	for try := 0; try < 2; try++ {
		p := s.p[i]
		if p != nil && (p.nodes > 60000 || p.dead) {
			p.close()
			p = nil
		}
		if p == nil {
			var err error
			p, err = startProc(kind, fp, ms)
			if err != nil {
				s.st.Errors++
				return unknown, nil
			}
			s.p[i] = p
		}
		r, m, err := p.check(s.tt, u, vars, true, time.Duration(ms)*time.Millisecond*2+time.Second)
		if err == nil {
			return r, m
		}
		dead := p.dead
		p.close()
		s.p[i] = nil
		if dead {
			return unknown, nil
		}
		s.st.Errors++
	}
	return unknown, nil
}

func (s *Solver) oneShot(kind string, u []*Term, vars []int32, fp bool, ms int) (satRes, map[int32]uint64) {
	p, err := startProc(kind, fp, ms)
	if err != nil {
		return unknown, nil
	}
	defer p.close()
	r, m, err := p.check(s.tt, u, vars, true, time.Duration(ms)*time.Millisecond+time.Second)
	if err != nil {
		return unknown, nil
	}
	return r, m
}
