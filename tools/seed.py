#!/usr/bin/env python3
"""Development aid: makes and validates a planted bug.
  seed.py make ID   reads seeds_src.py's entry, writes seeded/ID/, validates it
  seed.py check ID  validates the committed one (build, tests, demo with and without)
Everything runs on a scratch copy bind-mounted over /repo in a private mount and network namespace."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository, built. Exit 0: behaves as promised.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 -g %(flags)s -Iinclude -Isrc %(defs)s "$here/demo.cpp" %(lib)s -o "$tmp/demo" -lpthread || exit 3
timeout %(timeout)s "$tmp/demo"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def validate(sid):
    d = os.path.join(V, 'seeded', sid)
    scratch = tempfile.mkdtemp(prefix='vp-seed-')
    try:
        sh('cp -a /repo %s/r && rm -rf %s/r/_build/fuzz' % (scratch, scratch))
        sh('cp -a %s %s/s' % (d, scratch))
        script = '''
mount --bind %(s)s/r /repo; ip link set lo up 2>/dev/null
cd /repo && git checkout -q -- . && bash /opt/vp/build.sh tests >/dev/null 2>&1
bash %(s)s/s/demo.sh > %(s)s/o0 2>&1; echo "clean-demo $?"
git apply %(s)s/s/patch.diff || echo "APPLY-FAILED"
bash /opt/vp/test.sh %(s)s/t.json > %(s)s/b 2>&1; echo "test $?"
for i in 1 2 3; do bash %(s)s/s/demo.sh > %(s)s/o1 2>&1; echo "bug-demo $?"; done
''' % {'s': scratch}
        r = sh("unshare -Urmn bash -c '%s'" % script.replace("'", "'\\''"))
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base if isinstance(base, list) else base.get('passed') or base.get('stable') or base
        t = json.load(open(scratch + '/t.json'))
        miss = [x for x in stable if x not in t['passed']]
        lines = r.stdout.split('\n')
        ok = ('clean-demo 0' in lines and 'APPLY-FAILED' not in r.stdout and not miss and
              sum(1 for l in lines if l.startswith('bug-demo ') and l != 'bug-demo 0' and l != 'bug-demo 3') == 3)
        print('%-28s %s' % (sid, 'VALID' if ok else 'INVALID %s missing=%d %s %s' % (lines, len(miss), miss[:3], r.stderr[-300:])))
        if not ok or '-v' in sys.argv:
            for f in ('o0', 'o1'):
                print('  ', f, open(scratch + '/' + f).read()[-600:])
            if miss:
                print(open(scratch + '/b').read()[-1500:])
        return ok
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def make(sid):
    import seeds_src
    s = seeds_src.SEEDS[sid]
    d = os.path.join(V, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='vp-sp-')
    try:
        sh('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x' % (w, w))
        for f, old, new in s['edits']:
            p = os.path.join(w, f); t = open(p).read()
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % w).stdout)
    finally:
        shutil.rmtree(w)
    be = s.get('backend', 'nlohmann')
    DEFS = {'nlohmann': '-DCPPDAP_JSON_NLOHMANN=1', 'rapid': '-DCPPDAP_JSON_RAPID=1', 'jsoncpp': '-DCPPDAP_JSON_JSONCPP=1 -I/usr/include/jsoncpp'}
    LIB = {'nlohmann': '_build/nlohmann/libcppdap.a', 'rapid': '_build/rapid/libcppdap.a', 'jsoncpp': '_build/jsoncpp/libcppdap.a -ljsoncpp'}
    open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(s.get('sh') or DEMO % {'flags': s.get('flags', ''), 'lib': s.get('lib') or LIB[be], 'timeout': s.get('timeout', 60), 'defs': DEFS[be]})
    if s.get('sh') and 'demo.cpp' not in s['sh']: os.remove(d + '/demo.cpp')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)

if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    if not ids:
        if sys.argv[1] == 'make':
            import seeds_src; ids = [i for i in seeds_src.SEEDS if not os.path.exists(os.path.join(V, 'seeded', i))]
        else: ids = sorted(os.listdir(os.path.join(V, 'seeded')))
    if sys.argv[1] == 'make':
        for i in ids: make(i)
    with ThreadPoolExecutor(4) as ex: list(ex.map(validate, ids))
