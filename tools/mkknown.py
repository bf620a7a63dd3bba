#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.txt: the defects repaired in /repo (fix commits) and
the findings left open. Run by hand after a fix commit; no check writes it."""
import subprocess, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop = {}
for line in open(os.path.join(here, 'tools', 'fixprops.txt')):
    line = line.strip()
    if line and not line.startswith('#'):
        p, s = line.split(' ', 1)
        prop[s] = p
seen = {}
out = ['# known: property=<id> key=<key> :: <what fails>     suppresses exactly that finding',
       '# fixed: property=<id> <commit> <what failed>        suppresses nothing', '']
missing = []
for line in reversed(subprocess.check_output(['git', '-C', '/repo', 'log', '--oneline'], text=True).splitlines()):
    c, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    if s not in prop:
        missing.append(s); continue
    if prop[s] == '-':
        continue
    if s in seen:  # committed again
        out.remove(seen[s])
    seen[s] = f'fixed: property={prop[s]} {c} {s}'
    out.append(seen[s])
kf = os.path.join(here, 'tools', 'open_findings.txt')
if os.path.exists(kf):
    out += ['']+[l.rstrip('\n') for l in open(kf)]
open(os.path.join(here, 'KNOWN_FINDINGS.txt'), 'w').write('\n'.join(out)+'\n')
if missing:
    print('no property for:'); print('\n'.join(missing)); sys.exit(1)
