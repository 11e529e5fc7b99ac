package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	repo := flag.String("repo", "/repo", "tree to check")
	verif := flag.String("verif", "/verif", "verification directory")
	only := flag.String("only", "", "only harnesses whose name contains this")
	budget := flag.Int("budget", 0, "seconds for exploration")
	workers := flag.Int("workers", 8, "workers")
	verbose := flag.Bool("v", false, "verbose")
	replay := flag.String("replay", "", "replay one vector file natively")
	flag.BoolVar(&debugInit, "debug", false, "debug")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	os.Setenv("VERIF_TIER", *tier) // the native runner uses the same bounds
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	go watchMemory()
	t0 := time.Now()
	gen, err := os.MkdirTemp("", "vfgen")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(gen)
	if err := copyModFiles(*repo, gen); err != nil {
		fatal("%v", err)
	}
	ov, err := overlayMap(*repo, *verif, gen)
	if err != nil {
		fatal("%v", err)
	}
	var runner string
	var rerr error
	var rwg sync.WaitGroup
	rwg.Add(1)
	go func() {
		defer rwg.Done()
		runner, rerr = buildRunner(*repo, gen, ov)
	}()
	var raceOnce sync.Once
	var raceBin string
	raceRunner = func() string {
		raceOnce.Do(func() { raceBin = buildRaceRunner(*repo, gen) })
		return raceBin
	}
	if *replay != "" {
		rwg.Wait()
		if rerr != nil {
			fatal("%v", rerr)
		}
		b, err := os.ReadFile(*replay)
		if err != nil {
			fatal("%v", err)
		}
		var v vecRec
		if err := json.Unmarshal(b, &v); err != nil {
			fatal("%v", err)
		}
		v.Kind = "violation"
		var rec struct{ Tier string }
		if json.Unmarshal(b, &rec) == nil && rec.Tier != "" {
			os.Setenv("VERIF_TIER", rec.Tier)
		}
		replayPart(runner, []*vecRec{&v}, 20*time.Second, time.Now().Add(time.Minute))
		o, _ := json.MarshalIndent(v.res, "", " ")
		fmt.Println(string(o))
		if v.res != nil && (v.res.Fail != "" || v.res.Hang || v.res.Crash != "") {
			fmt.Println("REPRODUCED:", v.res.Fail, v.res.Crash)
			os.RemoveAll(gen)
			os.Exit(1)
		}
		return
	}
	ovb := map[string][]byte{}
	for k, f := range ov {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		ovb[k] = b
	}
	P, err := loadProgram(*repo, ovb, []string{"./zz_verif/run"}, goEnv())
	if err != nil {
		rwg.Wait()
		os.RemoveAll(gen)
		fatal("cannot load the code under check: %v", err)
	}
	P.repoMod = "github.com/raa0121/GoBCDice"
	P.harnPath = P.repoMod + "/zz_verif/h"
	readReplace(P, filepath.Join(*verif, "harness", "replace.txt"), *prop)
	loadT := time.Since(t0)
	hp := P.byPath[P.harnPath]
	if hp == nil {
		fatal("no harness package")
	}
	var names []string
	for n := range hp.Members {
		if strings.HasPrefix(n, *prop+"_") && hp.Func(n) != nil && strings.Contains(n, *only) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fatal("no harness for %s", *prop)
	}
	total := 200 * time.Second
	if *tier == "thorough" {
		total = 640 * time.Second
	}
	if *budget > 0 {
		total = time.Duration(*budget) * time.Second
	}
	if *workers > runtime.NumCPU() {
		*workers = runtime.NumCPU()
	}
	var ins []*In
	for i := 0; i < *workers; i++ {
		ins = append(ins, newIn(P))
	}
	var runs []*HarnessRun
	end := time.Now().Add(total)
	for i, n := range names {
		rem := time.Until(end)
		h := newHarnessRun(P, P.cfn(hp.Func(n)), n, *tier)
		b := rem / time.Duration(len(names)-i)
		if i < len(names)-1 && b < rem*2/5 {
			b = rem * 2 / 5
		}
		h.replay = func(v []*vecRec) {
			rwg.Wait()
			if rerr == nil {
				replayPart(runner, v, 15*time.Second, time.Now().Add(15*time.Second))
			}
		}
		h.run(ins, b)
		for _, in := range ins {
			in.resetTerms()
		}
		runs = append(runs, h)
		if *verbose {
			h.print()
		}
		if h.confirmed {
			break
		}
	}
	for _, in := range ins {
		in.sol.close()
	}
	rwg.Wait()
	if rerr != nil {
		os.RemoveAll(gen)
		fatal("%v", rerr)
	}
	var vecs []*vecRec
	for _, h := range runs {
		vecs = append(vecs, h.vectors...)
	}
	tr := time.Now()
	replayAll(runner, gen, vecs, *workers, time.Now().Add(60*time.Second))
	replayT := time.Since(tr)
	code := report(P, *prop, *tier, seed, *verif, runs, vecs, t0, loadT, replayT, *verbose)
	os.RemoveAll(gen)
	os.Exit(code)
}

func readReplace(P *Program, file, prop string) {
	f, err := os.Open(file)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		if len(w) < 3 || strings.HasPrefix(w[0], "#") {
			continue
		}
		for _, p := range strings.Split(w[2], ",") {
			if p == prop || p == "*" {
				P.replace[w[0]] = w[1]
			}
		}
	}
}

func (h *HarnessRun) print() {
	fmt.Printf("== %s: paths %d (assume-cut %d, bound %d, unsupported %d, suspect %d) left %d, %.1fs, steps %dM, solver q=%d sat=%d unsat=%d unk=%d hit=%d err=%d dom=%d %.1fs; asserts unknown %d\n",
		h.name, h.paths, h.cutAssume, h.cutBound, h.cutUnsup, h.suspects, h.left, h.wall.Seconds(), h.steps/1000000,
		h.solver.Queries, h.solver.Sat, h.solver.Unsat, h.solver.Unknown, h.solver.CacheHits, h.solver.Errors, h.solver.DomainDecided, h.solver.Time.Seconds(), h.assertUnknown)
	for _, m := range sortedKeys(h.asserts) {
		a := h.asserts[m]
		fmt.Printf("   assert %q: checked %d proved %d (const %d) violated %d unknown %d\n", m, a.Checked, a.Proved, a.Const, a.Violated, a.Unknown)
	}
	for _, s := range topN(h.cuts, 8) {
		fmt.Println("   cut", s)
	}
	for _, s := range topN(h.unk, 5) {
		fmt.Println("   unknown", s)
	}
	fmt.Println("   bounds", h.bounds, "reach", h.reach)
}

type knownFinding struct{ prop, id, what string }

func readKnown(verif string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		w := strings.SplitN(l, " ", 4)
		if len(w) == 4 {
			out = append(out, knownFinding{strings.TrimPrefix(w[1], "property="), strings.TrimPrefix(w[2], "id="), w[3]})
		}
	}
	return out
}

func report(P *Program, prop, tier string, seed int, verif string, runs []*HarnessRun, vecs []*vecRec, t0 time.Time, loadT, replayT time.Duration, verbose bool) int {
	known := readKnown(verif)
	knownIDs := map[string]string{}
	for _, k := range known {
		if k.prop == prop {
			knownIDs[k.id] = k.what
		}
	}
	rdir := filepath.Join(verif, "evidence", "replays")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	type viol struct {
		v   *vecRec
		msg string
	}
	var viols []viol
	seenKnown := map[string]*vecRec{}
	validated, mismatch, unreproduced, notRun, divergent := 0, 0, 0, 0, 0
	var mism []string
	for _, v := range vecs {
		r := v.res
		if r == nil {
			notRun++
			continue
		}
		msg := ""
		switch {
		case r.Hang:
			msg = "does not terminate on the real code (" + v.Msg + ")"
		case r.Crash != "":
			msg = "crashes the process: " + r.Crash
		case r.Fail != "":
			msg = r.Fail
		}
		for _, id := range r.Known {
			if _, ok := knownIDs[id]; ok {
				if seenKnown[id] == nil {
					seenKnown[id] = v
				}
			} else {
				msg = "finding " + id + " is not in the known-findings file: " + v.Msg
			}
		}
		if msg != "" {
			viols = append(viols, viol{v, msg})
			continue
		}
		if v.Kind == "violation" {
			unreproduced++
			mism = append(mism, fmt.Sprintf("%s: solver counterexample not reproduced by the real code: %s with %s", v.Harness, v.Msg, vecText(v.Vec)))
			continue
		}
		if v.Kind == "known" {
			continue
		}
		ok := v.cut && r.Assume || len(r.Obs) >= len(v.Obs) && !r.Assume
		for i := range v.Obs {
			if ok && i < len(r.Obs) && r.Obs[i] != v.Obs[i] {
				ok = false
			}
		}
		if ok {
			validated++
		} else {
			mismatch++
			if len(mism) < 12 {
				mism = append(mism, fmt.Sprintf("%s: encoding and real code differ with %s: %q vs real %q assume=%v", v.Harness, vecText(v.Vec), v.Obs, r.Obs, r.Assume))
			}
		}
		if r.Miss > 0 {
			divergent++
		}
	}
	code := 0
	byMsg := map[string]int{}
	nrep := 0
	for _, x := range viols {
		k := x.v.Harness + "|" + x.msg
		byMsg[k]++
		if byMsg[k] > 1 || nrep >= 10 {
			continue
		}
		nrep++
		f := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, nrep))
		b, _ := json.MarshalIndent(map[string]any{"h": x.v.Harness, "v": x.v.Vec, "msg": x.msg, "found_by": x.v.Kind, "tier": tier,
			"replay_cmd": "bash /verif/check.sh --replay " + f}, "", " ")
		os.WriteFile(f, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		fmt.Printf("  %s: %s\n  inputs: %s\n", x.v.Harness, x.msg, vecText(x.v.Vec))
		code = 1
	}
	for _, id := range sortedKeys(seenKnown) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s) e.g. %s\n", prop, knownIDs[id], id, vecText(seenKnown[id].Vec))
	}
	// evidence
	var paths, states, steps, cutA, cutB, cutU, susp, left, aUnk, bUnk, lossy int64
	var checked, proved, constA int64
	fns := map[string]bool{}
	var st SolverStats
	var samples, incomplete []string
	perH := []map[string]any{}
	bounds := map[string]int64{}
	for _, h := range runs {
		paths += h.paths
		states += h.states
		steps += h.steps
		cutA += h.cutAssume
		cutB += h.cutBound
		cutU += h.cutUnsup
		susp += h.suspects
		left += int64(h.left)
		aUnk += h.assertUnknown
		bUnk += h.branchUnknown
		lossy += h.lossy
		st.Queries += h.solver.Queries
		st.Sat += h.solver.Sat
		st.Unsat += h.solver.Unsat
		st.Unknown += h.solver.Unknown
		st.CacheHits += h.solver.CacheHits
		st.DomainDecided += h.solver.DomainDecided
		st.Abstract += h.solver.Abstract
		st.Time += h.solver.Time
		for f := range h.fns {
			fns[f] = true
		}
		samples = append(samples, h.samples...)
		for k, v := range h.bounds {
			bounds[h.name+"."+k] = v
		}
		as := map[string]any{}
		for m, a := range h.asserts {
			checked += a.Checked
			proved += a.Proved
			constA += a.Const
			as[m] = a
		}
		inc := []string{}
		if h.left > 0 {
			inc = append(inc, fmt.Sprintf("%d path prefixes not explored (time budget)", h.left))
		}
		inc = append(inc, topN(h.cuts, 10)...)
		for _, u := range topN(h.unk, 5) {
			inc = append(inc, "solver gave no answer: "+u)
		}
		if h.assertUnknown > 0 {
			inc = append(inc, fmt.Sprintf("%d assertion queries without an answer", h.assertUnknown))
		}
		if len(inc) > 0 {
			incomplete = append(incomplete, h.name+": "+strings.Join(inc, "; "))
		}
		perH = append(perH, map[string]any{"harness": h.name, "paths": h.paths, "infeasible_by_assumption": h.cutAssume, "complete": h.left == 0 && h.cutBound == 0 && h.cutUnsup == 0 && h.lossy == 0 && h.branchUnknown == 0 && h.assertUnknown == 0 && h.suspects == 0,
			"max_decisions": h.maxDec, "bounds": h.bounds, "reached": h.reach, "assertions": as, "wall_s": h.wall.Seconds()})
	}
	var repoFns, libFns []string
	for f := range fns {
		if strings.Contains(f, "zz_verif") {
			continue
		}
		if strings.Contains(f, P.repoMod) {
			repoFns = append(repoFns, strings.ReplaceAll(f, P.repoMod+"/", ""))
		} else {
			libFns = append(libFns, f)
		}
	}
	sort.Strings(repoFns)
	sort.Strings(libFns)
	if len(samples) > 24 {
		samples = samples[:24]
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        states,
			"transitions":                   steps,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"explanation": "states: nodes of the symbolic execution trees (one per resolved decision plus one per path); transitions: SSA instructions of the real code executed symbolically. " +
				"Every path stands for all inputs that satisfy its path condition; assertions are decided for all of them by the solver.",
			"paths_completed":                                paths,
			"paths_excluded_by_assumption":                   cutA,
			"paths_cut_at_bound":                             cutB,
			"paths_cut_unsupported":                          cutU,
			"paths_suspected_nontermination":                 susp,
			"paths_with_fixed_values":                        lossy,
			"path_prefixes_left":                             left,
			"assertions_checked":                             checked,
			"assertions_proved":                              proved,
			"assertions_constant_after_simplification":       constA,
			"assertions_unknown":                             aUnk,
			"branches_unknown":                               bUnk,
			"functions_encoded":                              repoFns,
			"library_functions_encoded":                      len(libFns),
			"library_functions_sample":                       libFns[:min(len(libFns), 40)],
			"bounds":                                         bounds,
			"queries_discharged":                             st.Queries,
			"queries_sat":                                    st.Sat,
			"queries_unsat":                                  st.Unsat,
			"queries_unknown":                                st.Unknown,
			"queries_answered_from_cache":                    st.CacheHits,
			"conditions_decided_by_finite_domain_tabulation": st.DomainDecided,
			"queries_decided_with_wide_products_abstracted":  st.Abstract,
			"solver_time_s":                                  st.Time.Seconds(),
			"solver":                                         "z3 4.8.12 (incremental), z3-new and cvc5 1.1.2 as fall-back for assertions",
			"harnesses":                                      perH,
			"incomplete":                                     incomplete,
			"native_vectors_run":                             len(vecs) - notRun,
			"native_vectors_not_run":                         notRun,
			"native_mismatches":                              mismatch,
			"counterexamples_not_reproduced":                 unreproduced,
			"notes":                                          mism,
			"source_digest":                                  sourceDigest(P),
			"load_s":                                         loadT.Seconds(), "replay_s": replayT.Seconds(),
		},
		"assumptions": assumptionsFor(verif, prop),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(byMsg),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s %s: %d paths, %d assertions proved of %d, %d queries (%.1fs), %d traces validated, %d mismatches, %d unreproduced, incomplete: %d, wall %.1fs (load %.1fs)\n", prop, tier, paths, proved, checked, st.Queries, st.Time.Seconds(), validated, mismatch, unreproduced, len(incomplete), time.Since(t0).Seconds(), loadT.Seconds())
	for _, s := range incomplete {
		fmt.Println("  bound:", s)
	}
	for _, s := range mism[:min(len(mism), 12)] {
		fmt.Println("  note:", s)
	}
	if code == 0 && paths == 0 {
		fmt.Fprintln(os.Stderr, "no path completed: the check decided nothing")
		return 2
	}
	return code
}

func assumptionsFor(verif, prop string) []string {
	b, err := os.ReadFile(filepath.Join(verif, "harness", "assumptions.txt"))
	out := []string{}
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		w := strings.SplitN(l, ": ", 2)
		if len(w) == 2 && (w[0] == "*" || w[0] == prop) {
			out = append(out, w[1])
		}
	}
	return out
}

// sourceDigest identifies the source the encoding was generated from.
func sourceDigest(P *Program) string {
	h := sha256.New()
	var files []string
	seen := map[string]bool{}
	for _, p := range P.pkgs {
		if !strings.HasPrefix(p.Pkg.Path(), P.repoMod) || strings.Contains(p.Pkg.Path(), "zz_verif") {
			continue
		}
		for _, m := range p.Members {
			pos := P.prog.Fset.Position(m.Pos())
			if pos.Filename != "" && !seen[pos.Filename] {
				seen[pos.Filename] = true
				files = append(files, pos.Filename)
			}
		}
	}
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err == nil {
			h.Write(b)
		}
	}
	return fmt.Sprintf("%d files, sha256 %x", len(files), h.Sum(nil)[:12])
}

// memoryStop is set while so much memory is in use that the paths under way have to be given up.
var memoryStop int32

func watchMemory() {
	m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for range time.Tick(100 * time.Millisecond) {
		metrics.Read(m)
		for m[0].Value.Uint64() > 22<<30 {
			atomic.StoreInt32(&memoryStop, 1)
			time.Sleep(200 * time.Millisecond)
			runtime.GC()
			metrics.Read(m)
		}
		atomic.StoreInt32(&memoryStop, 0)
	}
}
