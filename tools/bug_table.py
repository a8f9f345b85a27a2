#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |\n")
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
head = '| bug | property | breaks | needs |\n|---|---|---|---|\n'
i = s.index(head) + len(head)
j = s.index('\n\n', i) + 1
open(p, 'w').write(s[:i] + ''.join(rows) + s[j:])
print(len(rows))
