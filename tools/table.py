#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    needs = ' '.join(m['needs'].split()).replace('|', '/')
    rows.append(f"| {d} | {needs} | {m.get('caught_by', m['property'])} |")
p = f'{root}/DESIGN.md'
s = open(p).read()
head = '| id | needs | caught by |\n|---|---|---|\n'
a = s.index(head) + len(head)
b = s.index('\n## 8', a)
open(p, 'w').write(s[:a] + '\n'.join(rows) + '\n' + s[b:])
print(len(rows))
