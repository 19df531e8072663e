#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md. Not a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for i in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    by.setdefault(m['property'], []).append((i, m['what_it_breaks'].split('\n')[0], m['needs'].split('\n')[0]))
out = ['<!-- seeds -->', '', 'All of these are caught by the quick check of their property (`plant.py matrix`), with the violation reported for that property.', '', '| caught by | planted change | what it breaks (needs) |', '|---|---|---|']
for p in sorted(by):
    for i, b, n in by[p]:
        out.append(f'| {p} | {i} | {b} ({n}) |'.replace('\n', ' '))
s = open(f'{V}/DESIGN.md').read()
k = s.find('<!-- seeds -->')
head = s[:k] if k >= 0 else s.rstrip() + '\n\n### Planted changes\n\n'
open(f'{V}/DESIGN.md', 'w').write(head + '\n'.join(out) + '\n')
print(sum(map(len, by.values())), 'planted changes')
