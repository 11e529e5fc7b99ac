package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// natRes is what the real code did with one vector.
type natRes struct {
	I      int      `json:"i"`
	Obs    []string `json:"obs"`
	Fail   string   `json:"fail"`
	Known  []string `json:"known"`
	Assume bool     `json:"assume"`
	Miss   int      `json:"miss"`
	Hang   bool     `json:"-"`
	Crash  string   `json:"-"`
}

// modFile is a copy of the module file of the repository, so that the go command never writes
// the repository's own (the harnesses import packages the module file calls indirect).
var modFile string

func copyModFiles(repo, genDir string) error {
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(genDir, f), b, 0o644); err != nil {
			return err
		}
	}
	modFile = filepath.Join(genDir, "go.mod")
	return nil
}

// overlayMap maps virtual paths in the module under check to harness files.
func overlayMap(repo, verif, genDir string) (map[string]string, error) {
	m := map[string]string{}
	for _, d := range []string{"vf", "h", "run"} {
		fs, err := filepath.Glob(filepath.Join(verif, "harness", d, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			m[filepath.Join(repo, "zz_verif", d, filepath.Base(f))] = f
		}
	}
	// registry
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", "h", "*.go"))
	var names []string
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func C") && strings.Contains(l, "() {") {
				n := l[5:strings.Index(l, "(")]
				if len(n) > 4 && n[3] == '_' {
					names = append(names, n)
				}
			}
		}
	}
	sort.Strings(names)
	var b strings.Builder
	b.WriteString("package main\n\nimport \"github.com/raa0121/GoBCDice/zz_verif/h\"\n\nfunc init() {\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\treg[%q] = h.%s\n", n, n)
	}
	b.WriteString("}\n")
	gen := filepath.Join(genDir, "reg_gen.go")
	if err := os.WriteFile(gen, []byte(b.String()), 0o644); err != nil {
		return nil, err
	}
	m[filepath.Join(repo, "zz_verif", "run", "reg_gen.go")] = gen
	lg := filepath.Join(genDir, "list_gen.go")
	if err := os.WriteFile(lg, []byte(registerSource(filepath.Join(repo, "pkg", "dicebot", "list"))), 0o644); err != nil {
		return nil, err
	}
	m[filepath.Join(repo, "pkg", "dicebot", "list", "zz_verif_register.go")] = lg
	return m, nil
}

// registerSource is a file that adds game systems to the lookup table of package list, whatever
// the table is called; where there is no such table, VerifRegister returns nil.
func registerSource(dir string) string {
	table := ""
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		af, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range af.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				t := v.Type
				if t == nil && len(v.Values) == 1 {
					if c, ok := v.Values[0].(*ast.CompositeLit); ok {
						t = c.Type
					} else if c, ok := v.Values[0].(*ast.CallExpr); ok && len(c.Args) > 0 {
						t = c.Args[0] // make(map[...]...)
					}
				}
				mt, ok := t.(*ast.MapType)
				if !ok || len(v.Names) != 1 {
					continue
				}
				k, ok := mt.Key.(*ast.Ident)
				e, ok2 := mt.Value.(*ast.SelectorExpr)
				if ok && ok2 && k.Name == "string" && e.Sel.Name == "DiceBotConstructor" {
					table = v.Names[0].Name
				}
			}
		}
	}
	body := "\treturn nil\n"
	if table != "" {
		body = "\tif _, found := " + table + "[id]; found {\n\t\treturn nil\n\t}\n\t" + table + "[id] = c\n\treturn func() { delete(" + table + ", id) }\n"
	}
	return "package list\n\nimport \"github.com/raa0121/GoBCDice/pkg/dicebot\"\n\n// VerifRegister adds a game system and returns what removes it again.\nfunc VerifRegister(id string, c dicebot.DiceBotConstructor) func() {\n" + body + "}\n"
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for i, e := range env {
			if strings.HasPrefix(e, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	set("CGO_ENABLED", "0")
	flags := "-mod=mod"
	if modFile != "" {
		flags += " -modfile=" + modFile
	}
	set("GOFLAGS", flags)
	set("GOPROXY", "off")
	set("GOTOOLCHAIN", "local")
	set("GOWORK", "off")
	return env
}

// raceRunner is the runner with the race detector, built when the first shared write is to be
// confirmed.
var raceRunner func() string

func buildRaceRunner(repo, genDir string) string {
	out := filepath.Join(genDir, "runner-race")
	c := exec.Command("go", "build", "-race", "-overlay", filepath.Join(genDir, "overlay.json"), "-o", out, "./zz_verif/run")
	c.Dir = repo
	c.Env = append(goEnv(), "CGO_ENABLED=1")
	if b, err := c.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "building the native runner with the race detector: %v\n%s\n", err, b)
		return ""
	}
	return out
}

// needsRace: a write to state shared between instances shows as a data race on the real code.
func needsRace(v *vecRec) bool {
	return v.Kind == "violation" && strings.HasSuffix(v.Harness, "_Shared")
}

func buildRunner(repo, genDir string, ov map[string]string) (string, error) {
	js, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(genDir, "overlay.json")
	if err := os.WriteFile(of, js, 0o644); err != nil {
		return "", err
	}
	out := filepath.Join(genDir, "runner")
	c := exec.Command("go", "build", "-overlay", of, "-o", out, "./zz_verif/run")
	c.Dir = repo
	c.Env = goEnv()
	b, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the native runner: %v\n%s", err, b)
	}
	return out, nil
}

// replayAll runs every vector on the real code.
func replayAll(runner, genDir string, vecs []*vecRec, workers int, deadline time.Time) {
	var normal, slow []*vecRec
	for _, v := range vecs {
		if v.Kind == "suspect" {
			slow = append(slow, v)
		} else {
			normal = append(normal, v)
		}
	}
	// violations first, so that the deadline never drops them
	sort.SliceStable(normal, func(i, j int) bool { return normal[i].Kind != "path" && normal[j].Kind == "path" })
	// suspects: at most 24, spread over harnesses and reasons
	seen := map[string]int{}
	var pick []*vecRec
	for _, v := range slow {
		k := v.Harness + v.Msg
		if seen[k] < 4 && len(pick) < 24 {
			seen[k]++
			pick = append(pick, v)
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		var part []*vecRec
		for i := w; i < len(normal); i += workers {
			part = append(part, normal[i])
		}
		var sus []*vecRec
		for i := w; i < len(pick); i += workers {
			sus = append(sus, pick[i])
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			replayPart(runner, part, 15*time.Second, deadline)
			for _, s := range sus {
				replayPart(runner, []*vecRec{s}, 15*time.Second, deadline.Add(20*time.Second))
			}
		}()
	}
	wg.Wait()
	// violations that were not reproduced may depend on what ran before in the same process
	alone := 0
	for _, v := range vecs {
		if v.Kind == "violation" && v.res != nil && v.res.Fail == "" && v.res.Crash == "" && !v.res.Hang && alone < 12 && time.Now().Before(deadline.Add(20*time.Second)) {
			alone++
			was := v.res
			v.res = nil
			replayPart(runner, []*vecRec{v}, 15*time.Second, time.Now().Add(20*time.Second))
			if v.res == nil {
				v.res = was
			}
		}
	}
	// anything that hung is run once more alone before it counts
	n := 0
	for _, v := range vecs {
		if v.res != nil && v.res.Hang && n < 4 {
			n++
			v.res = nil
			replayPart(runner, []*vecRec{v}, 20*time.Second, time.Now().Add(30*time.Second))
		} else if v.res != nil && v.res.Hang {
			v.res = nil
		}
	}
}

func replayPart(runner string, vecs []*vecRec, per time.Duration, deadline time.Time) {
	var race, plain []*vecRec
	for _, v := range vecs {
		if needsRace(v) && raceRunner != nil {
			race = append(race, v)
		} else {
			plain = append(plain, v)
		}
	}
	if len(race) > 0 {
		if r := raceRunner(); r != "" {
			replayWith(r, race, per, time.Now().Add(60*time.Second))
		}
	}
	replayWith(runner, plain, per, deadline)
}

func replayWith(runner string, vecs []*vecRec, per time.Duration, deadline time.Time) {
	start := 0
	for start < len(vecs) {
		if time.Now().After(deadline) {
			return
		}
		dir, err := os.MkdirTemp("", "vfrun")
		if err != nil {
			return
		}
		cmd := exec.Command(runner)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOTRACEBACK=none", "GOMEMLIMIT=3GiB", "GORACE=halt_on_error=1")
		stdin, _ := cmd.StdinPipe()
		pr, pw, err := os.Pipe()
		if err != nil {
			return
		}
		cmd.ExtraFiles = []*os.File{pw}
		var errb strings.Builder
		cmd.Stderr = &limWriter{b: &errb}
		if err := cmd.Start(); err != nil {
			return
		}
		pw.Close()
		go func(st int) {
			w := bufio.NewWriter(stdin)
			enc := json.NewEncoder(w)
			for i := st; i < len(vecs); i++ {
				if enc.Encode(vecs[i]) != nil {
					break
				}
			}
			w.Flush()
			stdin.Close()
		}(start)
		lines := make(chan []byte, 64)
		go func() {
			sc := bufio.NewScanner(pr)
			sc.Buffer(make([]byte, 1<<20), 1<<26)
			for sc.Scan() {
				lines <- append([]byte(nil), sc.Bytes()...)
			}
			close(lines)
		}()
		done := start
		hang := false
	loop:
		for done < len(vecs) {
			select {
			case l, ok := <-lines:
				if !ok {
					break loop
				}
				var r natRes
				if json.Unmarshal(l, &r) == nil {
					vecs[done].res = &r
					done++
				}
				if time.Now().After(deadline) {
					hang = true
					break loop
				}
			case <-time.After(per):
				hang = true
				break loop
			}
		}
		cmd.Process.Kill()
		err = cmd.Wait()
		pr.Close()
		os.RemoveAll(dir)
		if done >= len(vecs) {
			return
		}
		if time.Now().After(deadline) {
			return
		}
		if hang {
			vecs[done].res = &natRes{Hang: true}
		} else {
			t := errb.String()
			if len(t) > 300 {
				t = t[:300]
			}
			vecs[done].res = &natRes{Crash: fmt.Sprint(err) + ": " + t}
		}
		start = done + 1
	}
}

type limWriter struct{ b *strings.Builder }

func (l *limWriter) Write(p []byte) (int, error) {
	if l.b.Len() < 4000 {
		l.b.Write(p)
	}
	return len(p), nil
}
