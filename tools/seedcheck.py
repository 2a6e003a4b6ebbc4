#!/usr/bin/env python3
"""Development aid: runs the claimed checks on scratch copies carrying each planted bug.  seedcheck.py [ID..] [-a: every check]"""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/rules')
import table
def one(i):
    d = tempfile.mkdtemp(prefix='vp-sc-')
    try:
        for x in ('src', 'include'): shutil.copytree('/repo/' + x, d + '/' + x)
        r = subprocess.run(['git', 'apply', V + '/seeded/%s/patch.diff' % i], cwd=d, capture_output=True, text=True)
        if r.returncode: return i, 'APPLY ' + r.stderr
        p = json.load(open(V + '/seeded/%s/meta.json' % i))['property']
        ps = sorted(table.CHECKS) if '-a' in sys.argv else [p]
        out = []
        for q in ps:
            if q not in table.CHECKS: out.append('%s unclaimed' % q); continue
            r = subprocess.run([sys.executable, V + '/check.py', q], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_NOEV='1'))
            if '-a' not in sys.argv or r.returncode:
                out.append('%s%s=%d %s' % (q, '*' if q == p else '', r.returncode, [l.strip()[:110] for l in r.stdout.split('\n') if ': rule ' in l][:2]))
        return i, '; '.join(out)
    finally: shutil.rmtree(d)
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
with ThreadPoolExecutor(8) as ex:
    for i, o in ex.map(one, ids): print('%-26s %s' % (i, o))
