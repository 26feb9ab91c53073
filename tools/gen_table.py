#!/usr/bin/env python3
"""Rewrites the table of seeded bugs at the end of DESIGN.md."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(ROOT, 'DESIGN.md')
text = open(path).read()
for mark in ('SEEDED_TABLE', '| bug |'):
    if mark in text:
        text = text[:text.index(mark)]
rows = ['| bug | caught by | what it needs | what it breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '\\|'),
                                         m['what_it_breaks'].replace('|', '\\|')))
open(path, 'w').write(text + '\n'.join(rows) + '\n')
