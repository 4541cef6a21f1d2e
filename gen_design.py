#!/usr/bin/env python3
"""Rewrites the sections of DESIGN.md between the markers from properties.jsonl, the check modules, the evidence of the last
run and seeded/ (run by hand, result committed; no check uses it)."""
import ast, json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)))


def meta(pid):
    m = {}
    for n in ast.parse(open('checks/%s.py' % pid.lower()).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                m[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return m


na = {n['property']: n['reason'] for n in json.load(open('not_applicable.json'))}
out = []
for l in open('properties.jsonl'):
    d = json.loads(l)
    pid = d['id']
    out.append('### %s — %s\n' % (pid, d['title'].strip()))
    if pid in na:
        out.append('Not applicable: %s\n' % na[pid])
        continue
    m = meta(pid)
    out.append(d['statement'] + '\n')
    out.append('* *decided by* contracts: %s.' % m['LEVEL_NOTE'])
    try:
        e = json.load(open('evidence/%s.json' % pid))
        c = e['coverage']
        fs = {}
        for f in c['functions_under_contract']:
            fs.setdefault(f['status'], []).append(f['function'].replace('pyverilog.', ''))
        out.append('* *obligations* on the current tree: %d, discharged %d; functions: %s.' % (
            c['obligations'], c['discharged'], '; '.join('%s: %s' % (k, ', '.join(dict.fromkeys(v)) if len(set(v)) < 25 else '%d functions' % len(set(v)))
                                                         for k, v in fs.items())))
    except (OSError, KeyError) as x:
        pass
    if m.get('ASSUMPTIONS'):
        out.append('* *assumed*: ' + '; '.join(m['ASSUMPTIONS']) + '.')
    if m.get('TRUSTED'):
        out.append('* *trusted contracts*: ' + ', '.join(m['TRUSTED']) + '.')
    out.append('* *bounded companion*: %s (%ss quick, %ss thorough).' % (m['RULE'], m['QUICK_S'], m['THOROUGH_S']))
    out.append('* *why tests cannot settle it*: ' + d['why_tests_cant'] + '\n')
seeds = ['| bug | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open('caught.json')) if os.path.exists('caught.json') else {}
for n in sorted(os.listdir('seeded')):
    j = json.load(open('seeded/%s/meta.json' % n))
    seeds.append('| %s | %s | %s | %s |' % (n, j['property'], j['needs'], caught.get(n, j['property'])))
t = open('DESIGN.md').read()
for k, v in (('PROPS', out), ('SEEDS', seeds)):
    t = re.sub(r'<!-- %s -->.*<!-- /%s -->' % (k, k), lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (k, '\n'.join(v), k), t, flags=re.S)
open('DESIGN.md', 'w').write(t)
