#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and rules/table.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'rules'))
import table
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in table.CHECKS:
        t = table.INFO.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s quick' % i,
            'thorough_cmd': 'python3 check.py %s thorough' % i,
            'technique': t.get('technique', table.DEFAULT['technique']),
            'level': 'other',
            'level_note': t.get('note', table.DEFAULT['note']),
        })
    else:
        na.append({'property': i, 'reason': table.NA.get(i, 'Not claimed: the rules that would decide it are not built yet.')})
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: see DESIGN.md. No hooks in /repo; every commit there is a "fix:" listed in known-findings.json.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
