#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_body.md and the planted bugs."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
rows = ["| planted bug | property | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split('/')[1], d['property'], d['needs'].replace('|', '/'), d['what_it_breaks'].replace('|', '/')))
s = open('tools/design_body.md').read().replace('@@TABLE@@', '\n'.join(rows))
open('DESIGN.md', 'w').write(s)
