package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// HarnessRun is the exploration of one harness function.
type HarnessRun struct {
	P         *Program
	name      string
	fn        *CFn
	tier      string
	maxSplit  int
	maxSteps  int64
	deadline  time.Time
	hardStop  int32
	replay    func([]*vecRec) // on the real code
	confirmed bool            // a violation was confirmed on the real code

	mu     sync.Mutex
	cond   *sync.Cond
	stack  []*workItem
	active int
	stop   bool

	paths, cutAssume, cutBound, cutUnsup, suspects, states int64
	steps                                                  int64
	left                                                   int
	timedOut                                               bool
	assertsChecked, assertsConst, assertsProved            int64
	assertUnknown, branchUnknown                           int64
	hardTries                                              int64 // branches asked again with more time
	lossy                                                  int64
	cuts                                                   map[string]int
	unk                                                    map[string]int
	bounds                                                 map[string]int64
	reach                                                  map[string]int64
	asserts                                                map[string]*assertStat
	fns                                                    map[string]bool
	fnSeen                                                 sync.Map
	vectors                                                []*vecRec
	errs                                                   []string
	samples                                                []string
	solver                                                 SolverStats
	wall                                                   time.Duration
	nVec                                                   int64
	maxDec                                                 int
	dupViol                                                map[string]int
}

type assertStat struct {
	Checked, Proved, Const, Violated, Unknown int64
}

// vecRec is one input vector to run on the real code.
type vecRec struct {
	Harness string           `json:"h"`
	Vec     map[string]int64 `json:"v"`
	Obs     []string         `json:"-"`
	HasObs  bool             `json:"-"`
	Kind    string           `json:"-"` // "path", "violation", "suspect", "known"
	Msg     string           `json:"-"`
	Known   string           `json:"-"`
	res     *natRes
	cut     bool // the path was cut, its rest was not executed
}

func newHarnessRun(P *Program, fn *CFn, name, tier string) *HarnessRun {
	h := &HarnessRun{P: P, name: name, fn: fn, tier: tier, maxSplit: 300, maxSteps: 30_000_000,
		cuts: map[string]int{}, unk: map[string]int{}, bounds: map[string]int64{}, reach: map[string]int64{},
		asserts: map[string]*assertStat{}, fns: map[string]bool{}, dupViol: map[string]int{}}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func (h *HarnessRun) push(w *workItem) {
	h.mu.Lock()
	h.stack = append(h.stack, w)
	h.mu.Unlock()
	h.cond.Signal()
}

func (h *HarnessRun) noteUnknown(s string) {
	h.mu.Lock()
	h.unk[s]++
	h.mu.Unlock()
	atomic.AddInt64(&h.branchUnknown, 1)
}

func (h *HarnessRun) noteFn(fn *CFn) {
	if _, ok := h.fnSeen.Load(fn); !ok {
		h.fnSeen.Store(fn, true)
	}
}

func (h *HarnessRun) astat(msg string) *assertStat {
	s := h.asserts[msg]
	if s == nil {
		s = &assertStat{}
		h.asserts[msg] = s
	}
	return s
}

// watch replays candidate violations while the exploration runs and ends it once one is confirmed
// on the real code.
func (h *HarnessRun) watch(done chan struct{}) {
	tried := map[*vecRec]bool{}
	for {
		select {
		case <-done:
			return
		case <-time.After(2 * time.Second):
		}
		var todo []*vecRec
		h.mu.Lock()
		for _, v := range h.vectors {
			if v.Kind == "violation" && !tried[v] && len(todo) < 8 {
				tried[v] = true
				c := *v
				todo = append(todo, &c)
			}
		}
		h.mu.Unlock()
		if len(todo) == 0 {
			continue
		}
		h.replay(todo)
		for _, v := range todo {
			if v.res != nil && (v.res.Fail != "" || v.res.Crash != "") {
				h.mu.Lock()
				h.stop = true
				h.timedOut = true
				h.confirmed = true
				h.mu.Unlock()
				h.cond.Broadcast()
				atomic.StoreInt32(&h.hardStop, 1)
				return
			}
		}
	}
}

func (h *HarnessRun) run(ins []*In, budget time.Duration) {
	t0 := time.Now()
	done := make(chan struct{})
	var ww sync.WaitGroup
	if h.replay != nil {
		ww.Add(1)
		go func() { defer ww.Done(); h.watch(done) }()
	}
	defer func() { close(done); ww.Wait() }()
	h.deadline = t0.Add(budget)
	h.stack = []*workItem{{}}
	timer := time.AfterFunc(budget, func() {
		h.mu.Lock()
		h.stop = true
		h.timedOut = true
		h.mu.Unlock()
		h.cond.Broadcast()
	})
	defer timer.Stop()
	hard := time.AfterFunc(budget+budget/10+3*time.Second, func() { atomic.StoreInt32(&h.hardStop, 1) })
	defer hard.Stop()
	var wg sync.WaitGroup
	for _, in := range ins {
		in.sol.st = SolverStats{}
		wg.Add(1)
		go func(in *In) {
			defer wg.Done()
			h.worker(in)
		}(in)
	}
	wg.Wait()
	h.wall = time.Since(t0)
	h.left = len(h.stack)
	if h.left == 0 {
		h.timedOut = false
	}
	for _, in := range ins {
		s := in.sol.st
		h.solver.Queries += s.Queries
		h.solver.Sat += s.Sat
		h.solver.Unsat += s.Unsat
		h.solver.Unknown += s.Unknown
		h.solver.CacheHits += s.CacheHits
		h.solver.Errors += s.Errors
		h.solver.DomainDecided += s.DomainDecided
		h.solver.Abstract += s.Abstract
		h.solver.Time += s.Time
	}
	h.fnSeen.Range(func(k, _ any) bool { h.fns[k.(*CFn).name] = true; return true })
}

func (h *HarnessRun) worker(in *In) {
	in.H = h
	for {
		h.mu.Lock()
		for len(h.stack) == 0 && h.active > 0 && !h.stop {
			h.cond.Wait()
		}
		if h.stop || len(h.stack) == 0 {
			h.mu.Unlock()
			h.cond.Broadcast()
			return
		}
		w := h.stack[len(h.stack)-1]
		h.stack = h.stack[:len(h.stack)-1]
		h.active++
		h.mu.Unlock()
		h.onePath(in, w)
		h.mu.Lock()
		h.active--
		h.mu.Unlock()
		h.cond.Broadcast()
	}
}

type stopPath struct{}

func (h *HarnessRun) onePath(in *In, w *workItem) {
	if in.tt.size() > 3_000_000 {
		in.resetTerms()
	}
	for i := 0; i < 100 && atomic.LoadInt32(&memoryStop) != 0; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	p := newPath(w)
	in.path = p
	in.curModel = w.model
	in.logOn = true
	in.steps = 0
	in.maxSteps = h.maxSteps
	in.sp, in.ap, in.depth, in.spec = 0, 0, 0, 0
	in.cur = nil
	in.deferTgt = nil
	in.frozen = nil
	in.frozenBad = ""
	in.lockDepth = 0
	in.initDep = 0
	status, why := "ok", ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case stopPath:
				status = "stopped"
			case targetPanic:
				status, why = "panic", in.panicText(x.v)
			case pathCut:
				status, why = x.kind, x.why
			case engineError:
				status, why = "engine", x.msg+in.where()
			default:
				status, why = "engine", fmt.Sprint(r)+in.where()
				if debugInit {
					panic(r)
				}
			}
		}()
		in.call(h.fn, nil, nil)
	}()
	if status == "panic" {
		h.violation(in, p.model, "panic: "+why, "")
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	h.steps += in.steps
	h.states += int64(len(p.dec)-len(p.prefix)) + 1
	if len(p.dec) > h.maxDec {
		h.maxDec = len(p.dec)
	}
	if p.lossy != "" {
		h.lossy++
		h.cuts["value fixed, alternatives not explored: "+p.lossy]++
	}
	switch status {
	case "ok", "stopped", "panic":
		h.paths++
		if status == "ok" {
			h.record(in, p, "path", "")
		}
		if len(h.samples) < 6 && (h.paths&(h.paths-1)) == 0 {
			h.samples = append(h.samples, fmt.Sprintf("%s: path with %d decisions, %d constraints, inputs %s, observed %s", h.name, len(p.dec), len(p.pc), vecText(in.vector(p.model)), strings.Join(in.obsTexts(p), "; ")))
		}
	case "assume":
		h.cutAssume++
	case "suspect":
		h.suspects++
		h.cuts["suspect: "+why]++
		if !h.confirmed {
			h.record(in, p, "suspect", why)
		}
	case "bound":
		h.cutBound++
		h.cuts["bound: "+why]++
		h.record(in, p, "cut", "")
	case "unsupported":
		h.cutUnsup++
		h.cuts["unsupported: "+why+in.where()]++
		h.record(in, p, "cut", "")
	default:
		h.cutUnsup++
		h.cuts[status+": "+why]++
		if len(h.errs) < 20 {
			h.errs = append(h.errs, why)
		}
		h.record(in, p, "path", "")
	}
	in.rollback()
	in.path = nil
	in.frozen = nil
	if why == "memory limit" { // let go of what the path left behind
		in.journal = nil
		in.stack, in.argBuf = make([]V, len(in.stack)), make([]V, len(in.argBuf))
		in.resetTerms()
	}
}

const maxVectors = 60000

func (h *HarnessRun) record(in *In, p *Path, kind, msg string) {
	h.nVec++
	if kind == "path" && h.nVec > maxVectors && h.nVec%16 != 0 || len(h.vectors) > 4*maxVectors {
		return
	}
	v := &vecRec{Harness: h.name, Vec: in.vector(p.model), Kind: kind, Msg: msg}
	if kind == "cut" { // what comes after the cut was not executed
		v.Kind, v.cut = "path", true
	}
	v.Obs = in.obsTexts(p)
	h.vectors = append(h.vectors, v)
}

func (in *In) obsTexts(p *Path) []string {
	var out []string
	for _, o := range p.obs {
		var s string
		switch o.kind {
		case "s":
			s = strconv.QuoteToASCII(in.evalStr(o.v, p.model))
		case "i":
			s = fmt.Sprint(sx(in.tt.Eval(lift(in.tt, o.v, 64), p.model), 64))
		case "b":
			s = fmt.Sprint(in.tt.Eval(lift(in.tt, o.v, 0), p.model) != 0)
		}
		out = append(out, o.label+"="+s)
	}
	return out
}

// violation records a candidate violation (confirmed natively later).
func (h *HarnessRun) violation(in *In, m *Model, msg, known string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	k := known + "|" + msg
	h.dupViol[k]++
	if h.dupViol[k] > 40 {
		return
	}
	h.vectors = append(h.vectors, &vecRec{Harness: h.name, Vec: in.vector(m), Kind: map[bool]string{true: "violation", false: "known"}[known == ""], Msg: msg, Known: known})
}

// assertion handles vf.Assert.
func (in *In) assertion(c V, msg string, known V, knownID string) {
	h := in.H
	p := in.path
	tt := in.tt
	ct := lift(tt, c, 0)
	kt := lift(tt, known, 0)
	st := func(f func(s *assertStat)) {
		h.mu.Lock()
		f(h.astat(msg))
		h.mu.Unlock()
	}
	if p.pos < len(p.prefix) {
		if ct == tt.True {
			return
		}
		d := p.prefix[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		if !d.forced {
			p.add(in, tt.Or(ct, kt))
		}
		return
	}
	if ct == tt.True {
		st(func(s *assertStat) { s.Checked++; s.Const++; s.Proved++ })
		return
	}
	if r, ok := in.cheap(ct); ok && r {
		st(func(s *assertStat) { s.Checked++; s.Proved++ })
		p.dec = append(p.dec, decision{taken: true, forced: true})
		return
	}
	neg := tt.Not(ct)
	if kt != tt.False {
		r, m := in.query(tt.And(neg, kt), 8000)
		if r == sat {
			h.violation(in, m, msg, knownID)
		}
	}
	bad := tt.And(neg, tt.Not(kt))
	r, m := unsat, (*Model)(nil)
	if bad != tt.False {
		r, m = in.query(bad, 20000)
	}
	switch r {
	case unsat:
		st(func(s *assertStat) { s.Checked++; s.Proved++ })
		if kt == tt.False {
			p.dec = append(p.dec, decision{taken: true, forced: true})
			return
		}
		p.dec = append(p.dec, decision{taken: true})
		p.add(in, tt.Or(ct, kt))
	case sat:
		st(func(s *assertStat) { s.Checked++; s.Violated++ })
		h.violation(in, m, msg, "")
		panic(stopPath{})
	default:
		st(func(s *assertStat) { s.Checked++; s.Unknown++ })
		atomic.AddInt64(&h.assertUnknown, 1)
		ok := tt.Or(ct, kt)
		if tt.Eval(ok, p.model) == 0 {
			h.violation(in, p.model, msg, "")
			panic(stopPath{})
		}
		p.dec = append(p.dec, decision{taken: true})
		p.add(in, ok)
	}
}

// assume handles vf.Assume.
func (in *In) assume(c V) {
	p := in.path
	tt := in.tt
	ct := lift(tt, c, 0)
	if ct == tt.True {
		return
	}
	if ct == tt.False {
		panic(pathCut{"assume", "assume"})
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		p.add(in, ct)
		return
	}
	if r, ok := in.cheap(ct); ok {
		if !r {
			panic(pathCut{"assume", "assume"})
		}
	} else if tt.Eval(ct, p.model) == 0 {
		r, m := in.query(ct, 8000)
		if r == unsat {
			panic(pathCut{"assume", "assume"})
		}
		if r != sat {
			in.H.noteUnknown("assume in " + in.where1())
			panic(pathCut{"assume", "assume"})
		}
		p.model = m
	}
	p.dec = append(p.dec, decision{taken: true})
	p.add(in, ct)
}

func vecText(v map[string]int64) string {
	ks := sortedKeys(v)
	var b strings.Builder
	for i, k := range ks {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i > 40 {
			b.WriteString("...")
			break
		}
		fmt.Fprintf(&b, "%s=%d", k, v[k])
	}
	return b.String()
}

func topN(m map[string]int, n int) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] || m[ks[i]] == m[ks[j]] && ks[i] < ks[j] })
	var out []string
	for i, k := range ks {
		if i >= n {
			break
		}
		out = append(out, fmt.Sprintf("%dx %s", m[k], k))
	}
	return out
}

func (tt *TT) size() int { return len(tt.tab) }

func (in *In) resetTerms() {
	st := in.sol.st
	in.sol.close()
	in.tt = newTT()
	in.sol = newSolver(in.tt)
	in.sol.st = st
}
