#!/usr/bin/env python3
import sys, os, json, importlib, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vf'))
import vflib
ap = argparse.ArgumentParser()
ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay')
a = ap.parse_args()
mod = importlib.import_module('props.' + a.pid)
if a.replay:
    v = json.load(open(a.replay)); u = [x for x in mod.UNITS if x.name == v['unit']][0]
    import tempfile, shutil
    w = tempfile.mkdtemp(prefix='vfr_'); exe, err = vflib.build_native(u, w, 'replay')
    if not exe: print(err); sys.exit(2)
    bad, rc, e = vflib.replay(exe, open(v['file'], 'rb').read(), os.path.join(w, 'in.bin')); print(e); shutil.rmtree(w)
    sys.exit(1 if bad else 0)
sys.exit(vflib.check(a.pid, mod, a.tier))
