#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {m['needs']} | {m['property']} |")
p = root + '/DESIGN.md'; s = open(p).read()
head = '| bug | needs | caught by |\n|---|---|---|\n'
a = s.index(head) + len(head); b = a
while s[b:b + 1] == '|': b = s.index('\n', b) + 1
open(p, 'w').write(s[:a] + '\n'.join(rows) + '\n' + s[b:])
