#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a binary, the rest not_applicable."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(root, 'tools/notes.json')))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    b = i.lower()
    n = notes.get(i)
    if n and os.path.exists(f'{root}/harness/src/bin/{b}.rs'):
        checks.append({
            'property': i,
            'quick_cmd': f'./run_check.sh {b}',
            'thorough_cmd': f'VERIF_TIER=thorough ./run_check.sh {b}',
            'technique': n['technique'],
            'level': 'exploration',
            'level_note': n['note'],
        })
    else:
        na.append({'property': i, 'reason': 'no check yet'})
m = {'version': 1, 'setup_cmd': './run_check.sh setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
