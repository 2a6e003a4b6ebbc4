#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and seedcheck output on stdin."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in sys.stdin:
    m = re.match(r'(\S+)\s+(C\d\d)\*=(\d)\s+(.*)', l)
    if m:
        r = sorted(set(re.findall(r'rule ([\w-]+)', m.group(4))))
        res[m.group(1)] = '*%s*' % ', '.join(r) if m.group(3) == '1' else 'not caught'
print('| planted bug | property | needs | caught by rule |\n|---|---|---|---|')
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % i))
    print('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], res.get(i, '?')))
