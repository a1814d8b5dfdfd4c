#!/usr/bin/env python3
"""writes KNOWN_FINDINGS.txt from tools/fixes.txt (PROP<TAB>subject prefix<TAB>what failed) and git log"""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = [l.split(' ', 1) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
out = ['# "fixed:" entries are repaired defects and suppress nothing; "known:" entries (none unless listed) are printed as KNOWN-FINDING']
for l in open(V + '/tools/fixes.txt'):
    l = l.rstrip('\n')
    if not l: continue
    p, key, what = l.split('\t')
    h = [a for a, b in log if key in b]
    assert len(h) == 1, (key, h)
    out.append('fixed: property=%s %s %s' % (p, h[0], what))
un = [b for a, b in log if b.startswith('fix:') and not any(l.split('\t')[1] in b for l in open(V + '/tools/fixes.txt') if l.strip())]
assert not un, un
for f in sorted(os.listdir(V + '/props')):
    if f.endswith('.py') and f != '__init__.py':
        import sys, importlib
        sys.path[:0] = [V, V + '/vf']
        for k in getattr(importlib.import_module('props.' + f[:-3]), 'KNOWN', []): out.append('known: property=%s %s' % (f[:-3], k))
open(V + '/KNOWN_FINDINGS.txt', 'w').write('\n'.join(out) + '\n')
print(len(out) - 1, 'findings')
