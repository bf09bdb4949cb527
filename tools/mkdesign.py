#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and seeded_results.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + '/seeded_results.json'))
text = open(V + '/DESIGN.md').read().split('<!-- table -->')[0]
text += '<!-- table -->\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    text += f'| {i} | {m["property"]} | {m["needs"]} | {res.get(i, "not run")} |\n'
open(V + '/DESIGN.md', 'w').write(text)
