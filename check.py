#!/usr/bin/env python3
"""Decides one property of google/cppdap by static analysis of /repo's current
source:  check.py PROPERTY [quick|thorough]

exit 0: every decided obligation holds; exit 1: VIOLATION; exit 2: the analysis
could not run (not a verdict)."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import common  # noqa: E402
import table   # noqa: E402
import interp  # noqa: E402


def known(prop):
    out = []
    with open(os.path.join(HERE, 'known-findings.json')) as fh:
        for k in json.load(fh)['findings']:
            if k['property'] == prop and k.get('status') == 'known':
                out.append(k)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    L = common.Ledger(prop, tier)
    mod, fun = table.CHECKS[prop]

    def late(*_):
        # Out of time: what is being analysed, and all that follows, stays undecided.
        signal.alarm(3)
        raise interp.Undecided('time limit')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get('VERIF_LIMIT', '600')))
    try:
        getattr(importlib.import_module(mod), fun)(L)
    except common.AnalysisError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        return 2
    except Exception:
        # Obligations decided before the failure stand; without any, no verdict.
        traceback.print_exc()
        L.note('the analysis stopped early: ' + traceback.format_exc().strip().splitlines()[-1])
        if not any(o[2] != 'und' for o in L.obs):
            print('ANALYSIS-BROKEN property=%s internal error' % prop)
            return 2
        print('INCOMPLETE property=%s: the analysis stopped early; the obligations it decided follow' % prop)
    signal.alarm(0)
    if not L.obs:
        print('ANALYSIS-BROKEN property=%s no obligations were found' % prop)
        return 2
    bad = [o for o in L.obs if o[2] == 'bad']
    und = [o for o in L.obs if o[2] == 'und']
    ok = [o for o in L.obs if o[2] == 'ok']
    kf = known(prop)
    new = []
    for o in bad:
        k = next((k for k in kf if k['rule'] == o[0] and k['instance'] == str(o[1])), None)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else:
            new.append(o)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)

    def row(o):
        return {'rule': o[0], 'instance': str(o[1]), 'at': common.posn(o[3]), 'verdict': o[2], 'why': o[4] if o[2] != 'ok' else ''}
    per = {}
    for o in L.obs:
        d = per.setdefault(o[0], {'obligations': 0, 'hold': 0, 'violated': 0, 'undecided': 0})
        d['obligations'] += 1
        d[{'ok': 'hold', 'bad': 'violated', 'und': 'undecided'}[o[2]]] += 1
    cov = {
        'explanation': 'Static analysis of the sources of /repo; nothing is executed. Each obligation is one rule '
                       'applied to one instance (entry point, call site, path class or table row) found in the '
                       'current source.',
        'rules': L.rules,
        'per_rule': per,
        'obligations': len(L.obs),
        'discharged': len(ok),
        'undecided': [row(o) for o in und],
        'functions_analysed': len(L.functions),
        'functions': sorted(L.functions)[:200],
        'abstract_paths': L.paths,
        'analysis_notes': L.notes[:60],
        'samples': [row(o) for o in ok[:8]],
        'violations': [row(o) for o in new],
    }
    cov.update(L.counts)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': L.assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    if not os.environ.get('VERIF_NOEV'):
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    print('%s: %d obligations, %d hold, %d undecided, %d violated; %d functions, %d abstract paths, %.1fs'
          % (prop, len(L.obs), len(ok), len(und), len(bad), len(L.functions), L.paths, time.time() - t0))
    for o in und:
        print('  undecided: %s [%s] %s: %s' % (o[0], o[1], common.posn(o[3]), o[4]))
    if new:
        rp = os.path.join('evidence', prop + '.violation.txt')
        with open(os.devnull if os.environ.get('VERIF_NOEV') else os.path.join(HERE, rp), 'w') as fh:
            for o in new:
                fh.write('%s: rule %s (%s)\n  instance: %s\n  %s\n' % (common.posn(o[3]), o[0], L.rules.get(o[0], ''), o[1], o[4]))
        for o in new[:40]:
            print('  %s: rule %s [%s]: %s' % (common.posn(o[3]), o[0], o[1], o[4]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
