#!/usr/bin/env python3
"""plant(id, property, needs, breaks, edits, demo): makes a planted bug and confirms it.
edits: [(file, old, new)]; demo: Go source of package main, or only the body of main (using exec, check)."""
import json, os, subprocess, sys
REPO, SEEDED = os.environ.get('PLANT_REPO', '/repo'), '/verif/seeded'  # PLANT_REPO: a scratch copy
PRE = '''package main

import (
	"fmt"
	"os"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
)

// run executes one command with queued dice, given as value, sides, value, sides...
func run(text string, ds ...int) (*command.Result, error) {
	var q []dice.Die
	for i := 0; i+1 < len(ds); i += 2 {
		q = append(q, dice.Die{Value: ds[i], Sides: ds[i+1]})
	}
	return bcdice.New(feeder.NewQueue(q)).ExecuteCommand(text)
}

func check(ok bool, what string, args ...interface{}) {
	if !ok {
		fmt.Printf(what+"\\n", args...)
		os.Exit(1)
	}
}

// wants checks the message of a command.
func wants(want, text string, ds ...int) {
	r, err := run(text, ds...)
	check(err == nil, "%s: error %v", text, err)
	check(r.Message() == want, "%s: %q, wanted %q", text, r.Message(), want)
}

// fails checks that a command is refused.
func fails(text string, ds ...int) {
	r, err := run(text, ds...)
	check(err != nil, "%s: accepted: %v", text, r)
}

var _ = run
var _ = wants
var _ = fails

func main() {
'''
SH = '''#!/bin/bash
# run in the repository's root
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
exec timeout 250 go run "$here/demo.go"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('passed', 'pass', 'stable', 'tests'):
        if k in b: return set(b[k])

def results():
    sh('bash /opt/vp/test.sh /tmp/plant.json')
    o = json.load(open('/tmp/plant.json'))
    for k in ('passed', 'pass', 'stable', 'tests'):
        if k in o: return set(o[k])
    return set()

def build():
    if REPO == '/repo': return sh('bash /opt/vp/build.sh')
    return sh('. /opt/vp/env.sh; go build ./...', cwd=REPO)

def missing():
    """the stable tests that do not pass"""
    if REPO == '/repo': return stable() - results()
    r = sh('. /opt/vp/env.sh; go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files" | grep -v ^ok', cwd=REPO)
    return set(r.stdout.splitlines())

def plant(id, prop, needs, breaks, edits, demo, sh_text=None, files=None, keep=True):
    assert sh(f'git -C {REPO} status --porcelain').stdout == '', 'repo not clean'
    d = f'{SEEDED}/{id}'
    os.makedirs(d, exist_ok=True)
    if demo is not None:
        src = demo if demo.startswith('package') else PRE + demo + '\n}\n'
        open(d+'/demo.go', 'w').write(src)
        sh(f'gofmt -w {d}/demo.go')
    for n, c in (files or {}).items():
        open(f'{d}/{n}', 'w').write(c)
    open(d+'/demo.sh', 'w').write(sh_text or SH)
    os.chmod(d+'/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d+'/meta.json', 'w'), indent=1)
    ok = True
    def bad(m, out=''):
        nonlocal ok
        ok = False
        print(f'{id}: {m}\n{out[-1500:]}')
    r = build()
    r = sh(f'bash {d}/demo.sh', cwd=REPO)
    if r.returncode: bad('demo fails on the clean tree', r.stdout)
    try:
        for f, old, new in edits:
            p = f'{REPO}/{f}'
            s = open(p).read()
            if s.count(old) != 1: bad(f'{f}: {s.count(old)} matches of {old!r}'); return False
            open(p, 'w').write(s.replace(old, new))
        open(d+'/patch.diff', 'w').write(sh(f'git -C {REPO} diff').stdout)
        r = build()
        if r.returncode: bad('does not build', r.stdout); return False
        miss = missing()
        if miss: bad('fails tests', str(sorted(miss)[:5]))
        r = sh(f'bash {d}/demo.sh', cwd=REPO)
        if r.returncode == 0: bad('demo passes with the bug', r.stdout)
        else: print(id, 'demo:', r.stdout.strip().splitlines()[:2])
    finally:
        sh(f'git -C {REPO} checkout -- .')
        build()
        if not ok:
            sh(f'mv {d} /tmp/bad_{id}' if not os.path.exists(f'/tmp/bad_{id}') else f'rm -rf /verif/seeded/{id}')
    print(id, 'OK' if ok else 'NOT KEPT')
    return ok
