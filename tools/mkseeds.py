#!/usr/bin/env python3
"""writes the table of planted bugs at the end of DESIGN.md; tools/missed.txt
lists those the checks missed when they were planted: ID what was added"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = dict(l.strip().split(' ', 1) for l in open(here + '/tools/missed.txt') if l.strip())
rows = []
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (here, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], missed.get(d, 'at once')))
head = '## Planted bugs\n'
f = here + '/DESIGN.md'
s = open(f).read().split(head)[0].rstrip() + '\n\n' + head
s += '''
Each is caught by the check of its property (`tools/tryseed.sh ID`). Written by `tools/mkseeds.py`.

| bug | caught by | what it breaks | found |
|---|---|---|---|
''' + '\n'.join(rows) + '\n'
open(f, 'w').write(s)
