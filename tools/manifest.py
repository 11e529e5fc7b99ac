#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTES = json.load(open(V + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/harness/h/{i.lower()}.go'):
        checks.append({
            'property': i,
            'quick_cmd': f'bash check.sh {i} quick',
            'thorough_cmd': f'bash check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'symbolic execution of the real Go SSA, branches and assertions decided by SMT (z3/cvc5)',
            'level': 'model_checking',
            'level_note': NOTES.get(i, '') + ' Holds for every value within the bounds listed in the evidence; counterexamples are replayed on the compiled code before they are reported. Trusted: the SSA builder, the executor in engine/ (every explored path is cross-checked against a native run of the same harness), the solvers, and the library stand-ins listed in DESIGN.md.',
        })
    else:
        na.append({'property': i, 'reason': 'no harness yet: ' + p['title']})
json.dump({'version': 1, 'setup_cmd': 'bash check.sh --build', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the harnesses are laid over the source tree (go/packages overlay and go build -overlay) and use exported names only. Known findings and repairs: known-findings.txt.'},
          open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
