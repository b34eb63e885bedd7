#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json (a documentation tool; no check reads seeded/)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '## Planted changes\n'
rows = []
for f in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'], m['what_it_breaks']))
rows.sort()
d = open(HERE + '/DESIGN.md').read().split(HEAD)[0].rstrip() + '\n\n' + HEAD + '''
Each change was confirmed to compile, to pass the existing tests and to fail its demonstration, and each is caught (exit 1 and a VIOLATION line) by the
quick check of the property it is listed under. Those a first version of the checks missed led to the modes and criteria described above: second
forward pass without a backward pass (`refwd`), directed search with operands of unlike size, the rounding-bound criterion, witnesses of
order three, extra sizes, and clients that pass temporaries.

| caught by | change | needs | breaks |
|-----------|--------|-------|--------|
''' + ''.join('| %s | %s | %s | %s |\n' % tuple(str(c).replace('|', '\\|').replace('\n', ' ') for c in r) for r in rows)
open(HERE + '/DESIGN.md', 'w').write(d)
