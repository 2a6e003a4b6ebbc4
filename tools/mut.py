#!/usr/bin/env python3
"""Development aid: applies small source variants to scratch copies of /repo and
runs the checks on them.  mut.py [-k SUBSTR] [-p PROP,..] [-n]   (-n: neutral edits)
Variants live in mutants.py; scratch copies are removed again."""
import argparse, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import mutants
sys.path.insert(0, os.path.join(VERIF, 'rules'))
import table

def apply(m, d):
    for f, old, new in m['edits']:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) < 1:
            return 'edit does not apply: %r' % old
        s = s.replace(old, new, m.get('n', 1))
        open(p, 'w').write(s)

def one(m, props):
    d = tempfile.mkdtemp(prefix='vp-mut-')
    try:
        for x in ('src', 'include'):
            shutil.copytree('/repo/' + x, d + '/' + x)
        e = apply(m, d)
        if e:
            return m['name'], {'': e}
        out = {}
        os.mkdir(d + '/ircache')
        env = dict(os.environ, VERIF_REPO=d, VERIF_NOEV='1', VERIF_IRCACHE=d + '/ircache')
        for p in props:
            r = subprocess.run([sys.executable, VERIF + '/check.py', p, m.get('tier', 'quick')], capture_output=True, text=True, env=env)
            lines = [l for l in r.stdout.splitlines() if ': rule ' in l]
            out[p] = (r.returncode, lines or ([] if r.returncode == 0 else r.stdout.splitlines()[-3:] + r.stderr.splitlines()[-3:]))
        return m['name'], out
    finally:
        shutil.rmtree(d)

def main():
    a = argparse.ArgumentParser()
    a.add_argument('-k', default=''); a.add_argument('-f', default=''); a.add_argument('-p', default=''); a.add_argument('-n', action='store_true'); a.add_argument('-v', action='store_true')
    o = a.parse_args()
    ms = mutants.NEUTRAL if o.n else mutants.MUTANTS
    ms = [m for m in ms if o.k in m['name'] and any(o.f in e[0] for e in m['edits'])]
    jobs = []
    with ThreadPoolExecutor(7) as ex:
        for m in ms:
            props = m.get('props') or []
            if o.n: props = sorted(table.CHECKS)
            if o.p:
                sel = o.p.split(',')
                props = sel if o.n else [p for p in props if p in sel]
            props = [p for p in props if p in table.CHECKS]
            if props: jobs.append((m, ex.submit(one, m, props)))
        bad = 0
        for m, j in jobs:
            n, out = j.result()
            if o.n:
                al = {p: v for p, v in out.items() if p == '' or v[0] != 0}
                if al:
                    bad += 1; print('ALARM', n, al, flush=True)
                elif o.v: print('quiet', n)
            else:
                c = [p for p, v in out.items() if p and v[0] == 1]
                if len(c) < len(out): bad += 1
                print('%-7s %s %s' % ('caught' if len(c) == len(out) else ('PARTLY' if c else 'MISSED'), n, {p: (v[0] if p else v) for p, v in out.items() if p == '' or v[0] != 1} or ''))
                if o.v:
                    for p, v in out.items(): print('      ', p, v)
    print(len(jobs), 'variants,', bad, 'unexpected')
main()
