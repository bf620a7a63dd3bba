#!/usr/bin/env python3
"""overlay.py REPO VERIF ID OUT: writes the go build overlay that places the
harness of one property (and the explorer) inside the module, without touching
/repo."""
import json, os, sys
repo, verif, pid, out = sys.argv[1:5]
rep = {}
def add(src, dst):
    for base, _, files in os.walk(src):
        rel = os.path.relpath(base, src)
        for f in files:
            if f.endswith('.go'):
                rep[os.path.normpath(os.path.join(dst, rel, f))] = os.path.join(base, f)
root = os.path.join(repo, 'internal', 'verifmc')
add(os.path.join(verif, 'mc', 'mclib'), os.path.join(root, 'mclib'))
add(os.path.join(verif, 'mc', 'scanfix'), os.path.join(root, 'scanfix'))
for d in ('vsync', 'vatomic'):
    add(os.path.join(verif, 'mc', d), os.path.join(root, d))
add(os.path.join(verif, 'mc', 'clifix'), os.path.join(root, 'clifix'))
add(os.path.join(verif, 'mc', 'maporder'), os.path.join(root, 'maporder'))
add(os.path.join(verif, 'mc', pid), os.path.join(root, pid))
extra = os.environ.get('MC_EXTRA_OVERLAY')
if extra and os.path.exists(extra):
    rep.update(json.load(open(extra)))
json.dump({'Replace': rep}, open(out, 'w'))
