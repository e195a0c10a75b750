#!/usr/bin/env python3
"""DESIGN.md of design_head.md, the documentation of the rules, design_notes.json, the planted bugs and design_tail.md"""
import json, os, sys
sys.path.insert(0, '/verif')
from sa.rules import RULES
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
notes = json.load(open('/verif/design_notes.json'))
out = [open('/verif/design_head.md').read()]
seeds = {}
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{d}/meta.json'))
    seeds.setdefault(m['property'], []).append((d, m))
for p in props:
    i = p['id']
    out.append(f'### {i} {p["title"]}\n\n' + ' '.join((RULES[i].__doc__ or '').split()) + '\n')
    if i in notes: out.append(f'*Bounds and exceptions:* {notes[i]}\n')
    if i in seeds: out.append('*Planted:* ' + ', '.join(d for d, _ in seeds[i]) + '\n')
out.append('## Planted bugs\n\nEach compiles, passes the tests, has a demonstration, and is reported by the check of its property.\n\n| bug | needs | caught by |\n|---|---|---|\n' + '\n'.join(
    f'| {d} | {m["needs"]} | {i} |' for i, l in sorted(seeds.items()) for d, m in l) + '\n')
out.append(open('/verif/design_tail.md').read())
open('/verif/DESIGN.md', 'w').write('\n'.join(out))
