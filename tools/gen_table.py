#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'].replace('|', '\\|').replace('\n', ' ')))
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(\| change \| caught by \| what it breaks \|\n\|---\|---\|---\|\n)(@@TABLE@@\n|(\|.*\n)*)', lambda m: m.group(1) + '\n'.join(rows) + '\n', s)
open(p, 'w').write(s)
