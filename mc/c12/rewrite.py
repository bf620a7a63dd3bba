#!/usr/bin/env python3
"""rewrite.py REPO SCRATCH OUT: an overlay in which the packages that match
routes use the controlled sync and sync/atomic."""
import json, os, re, sys
repo, scratch, out = sys.argv[1:4]
mod = 'github.com/buypal/oapi-go/internal/verifmc/'
rep = {}
for pkg in ('internal/route',):
    d = os.path.join(repo, pkg)
    for base, _, files in os.walk(d):
        for f in sorted(files):
            if not f.endswith('.go') or f.endswith('_test.go'):
                continue
            p = os.path.join(base, f)
            s = open(p).read()
            # import specs only: before the first declaration that is no import
            m = re.search(r'(?m)^(func|type|var|const)\b', s)
            head, tail = (s[:m.start()], s[m.start():]) if m else (s, '')
            n = re.sub(r'(?m)^(\s*(?:import\s+)?(?:\(\s*)?)([\w.]+\s+)?"sync"', lambda m: m.group(1) + (m.group(2) or 'sync ') + '"%svsync"' % mod, head)
            n = re.sub(r'(?m)^(\s*(?:import\s+)?(?:\(\s*)?)([\w.]+\s+)?"sync/atomic"', lambda m: m.group(1) + (m.group(2) or 'atomic ') + '"%svatomic"' % mod, n)
            if n == head:
                continue
            if not re.search(r'(?m)^//go:build', n):
                n = '//go:build go1.21\n\n' + n
            q = os.path.join(scratch, 'rw_' + os.path.relpath(p, repo).replace('/', '_'))
            open(q, 'w').write(n + tail)
            rep[p] = q
json.dump(rep, open(out, 'w'))
