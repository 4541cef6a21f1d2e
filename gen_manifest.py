#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the check modules' META and properties.jsonl (run by hand, result committed)."""
import ast, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
NA = json.load(open(os.path.join(here, 'not_applicable.json')))
checks = []
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl')) if l.strip()]
for pid in ids:
    f = os.path.join(here, 'checks', pid.lower() + '.py')
    if not os.path.exists(f) or pid in [n['property'] for n in NA]:
        assert pid in [n['property'] for n in NA], pid
        continue
    meta = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('LEVEL', 'LEVEL_NOTE', 'TECHNIQUE'):
            meta[n.targets[0].id] = ast.literal_eval(n.value)
    cmd = 'python3-vt run_check.py ' + pid
    checks.append({'property': pid, 'quick_cmd': cmd, 'thorough_cmd': cmd + ' --tier thorough',
                   'evidence_file': 'evidence/%s.json' % pid,
                   'technique': meta.get('TECHNIQUE', 'contract-based deductive verification: sidecar contracts on the real Python functions, verification conditions generated from their AST on every run, discharged by z3/cvc5'),
                   'level': meta.get('LEVEL', 'proof'), 'level_note': meta['LEVEL_NOTE']})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sys; sys.path.insert(0, \'.\'); import pyvc.runner"',
     'checks': checks, 'not_applicable': NA,
     'notes': 'Every check: python3-vt run_check.py <ID> (contracts re-verified from /repo\'s current source, then a bounded search on the real code that supplies failing inputs). run_check.py <ID> --replay FILE replays one.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
