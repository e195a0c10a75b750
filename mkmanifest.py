#!/usr/bin/env python3
"""Generates MANIFEST.json from the rules and properties."""
import json, sys
sys.path.insert(0, '/verif')
from sa.rules import RULES
NA = {}
exec(open('/verif/na.py').read()) if __import__('os').path.exists('/verif/na.py') else None
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in RULES:
        doc = ' '.join((RULES[i].__doc__ or '').split())
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                       'technique': 'static analysis: path-sensitive value-flow / effect analysis over rustc MIR (custom rustc driver)',
                       'level': 'other', 'level_note': doc[:900] or i})
    else: na.append({'property': i, 'reason': NA.get(i, 'not claimed yet: the check is under construction')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks read the program rustc resolves from /repo on every run; nothing of strict-types is executed.'},
          open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
