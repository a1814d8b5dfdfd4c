#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json from props/*.py (META) and props/na.json"""
import sys, os, json, glob, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + '/vf')
P = []; C = []
for f in sorted(glob.glob(V + '/props/P*.py')):
    pid = os.path.basename(f)[:-3]
    m = importlib.import_module('props.' + pid)
    if not hasattr(m, 'META'): continue
    M = m.META
    P.append(dict(id=pid, title=M['title'], statement=M['statement'], quantifier=dict(over=M.get('over', ['inputs']), text=M['quant']),
                  why_tests_cant=M['why'], anchors=dict(files=M['files'], mechanism=[dict(name=a, where=b) for a, b in M['mech']], observe_at=M.get('observe', ['public API return values and buffers']), hook_needed=None)))
    pr = [u for u in m.UNITS if u.level == 'proof']
    C.append(dict(property=pid, quick_cmd='python3 check.py ' + pid, thorough_cmd='python3 check.py %s --tier thorough' % pid,
                  technique=M.get('tech', 'CBMC: contracts as harness pre/postconditions on the real functions; loop contracts or complete unwinding for the proofs, stated bounds for the bounded units'),
                  level='proof' if pr else 'other', level_note=M['note']))
na = json.load(open(V + '/props/na.json'))
claimed = {c['property'] for c in C}
N = []
for x in na:
    if x['prop']['id'] in claimed: continue
    P.append(x['prop']); N.append(dict(property=x['prop']['id'], reason=x['reason']))
P.sort(key=lambda p: p['id'])
with open(V + '/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=C, not_applicable=N,
    notes='Contract-based deductive verification of the real C sources with CBMC 6.11; see DESIGN.md. No hooks in /repo.'), open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
S = '/root/.vp/'
if os.path.exists(S):
    for p in P:
        jsonschema.validate(p, json.load(open(S + 'PROPERTIES.schema.json')))
        assert p['statement'].count('. ') <= 2, (p['id'], 'too many sentences')
    jsonschema.validate(json.load(open(V + '/MANIFEST.json')), json.load(open(S + 'MANIFEST.schema.json')))
print(len(P), 'properties', len(C), 'checks', len(N), 'not applicable')
