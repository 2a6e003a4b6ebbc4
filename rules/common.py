"""Shared by the rules: the obligation ledger, the evidence file, and helpers
to run the abstract interpreter on an entry point."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import ir          # noqa: E402
import interp as X  # noqa: E402
import terms as T  # noqa: E402
import models as M  # noqa: E402
import contracts   # noqa: E402

AnalysisError = ir.AnalysisError

OK, BAD, UND = 'ok', 'bad', 'und'


class Ledger(object):
    """Collects the obligations of one property."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obs = []            # (rule, instance, verdict, pos, msg)
        self.seen = {}
        self.functions = set()
        self.paths = 0
        self.notes = []
        self.assumptions = []
        self.counts = {}
        self.rules = {}          # rule -> text

    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rule, inst, verdict, pos=None, msg=''):
        """Record an obligation. The worst verdict of an instance wins."""
        if verdict is True:
            verdict = OK
        elif verdict is False:
            verdict = BAD
        elif verdict is None:
            verdict = UND
        key = (rule, inst)
        i = self.seen.get(key)
        rank = {OK: 0, UND: 1, BAD: 2}
        if i is None:
            self.seen[key] = len(self.obs)
            self.obs.append((rule, inst, verdict, pos, msg))
        elif rank[verdict] > rank[self.obs[i][2]]:
            self.obs[i] = (rule, inst, verdict, pos, msg)
        return verdict

    def ran(self, I, rs=None):
        self.functions |= {I.P.fns[k].q for k in I.analysed if k in I.P.fns}
        if rs is not None:
            self.paths += len(rs)
        for q in I.unmodelled:
            self.note('unmodelled call: ' + q)

    def note(self, n):
        if n not in self.notes:
            self.notes.append(n)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n


def params(fn, prefix=''):
    """Unconstrained operands for the parameters of fn."""
    ops = []
    for p in fn.params:
        l = ('o', prefix + p['n'])
        if X.is_ref(p['t']):
            ops.append(('L', l))
        elif X.sort_of(p['t']) == 'o':
            ops.append(('L', l))
        else:
            ops.append(('v', l, 0, X.sort_of(p['t'])))
    return ops


def pval(name, t='o'):
    """The entry value of parameter `name` (of the object it refers to)."""
    return ('v', ('o', name), 0, t)


class Run(object):
    def __init__(self, I, rs, fn, ops):
        self.I, self.rs, self.fn, self.ops = I, rs, fn, ops
        self.note = None


SELF = ('o', 'self')


def new_interp(P, setup=None):
    I = X.Interp(P)
    if setup:
        setup(I)
    return I


def run(L, P, fn, cls=None, setup=None, ops=None, st=None, I=None, this=SELF):
    """Analyse fn as an entry point. Returns a Run, or None when undecided."""
    I = I or new_interp(P, setup)
    st = st or X.St()
    if cls and not fn.static:
        I.exact[this] = cls
    try:
        o = ops if ops is not None else params(fn)
        rs = I.invoke(fn.key, this if (fn.rec and not fn.static) else None, o, st, fn.p)
    except X.Undecided as e:
        if L:
            L.note('%s: %s' % (fn.q, e))
            L.ran(I)
        return None
    if L:
        L.ran(I, rs)
        for s, _ in rs:
            for n in s.notes:
                L.note('%s: %s' % (fn.q, n))
    return Run(I, rs, fn, o)


def posn(p):
    return ir.posn(p)


def flat(evs):
    """Events with the bodies of loops spliced in (each body once)."""
    for e in evs:
        if e[0] == 'loop':
            for b in e[3]:
                for x in flat(b):
                    yield x
        yield e


def decide(st, t):
    return st.facts.decide(t)


def same(st, a, b):
    """Are two terms the same value on this path? True / False / None."""
    if a == b:
        return True
    if isinstance(a, tuple) and a and a[0] == 'rec' and isinstance(b, (int, tuple)):
        pass
    try:
        d = st.facts.decide(T.eq(a, b))
    except Exception:
        d = None
    return d


def isnull(st, a):
    if a == 0:
        return True
    if T.is_ptr(a) or (isinstance(a, tuple) and a and a[0] == 'clo'):
        return False
    return st.facts.decide(T.eq(a, 0))


def has_term(x, pred):
    if pred(x):
        return True
    if isinstance(x, tuple):
        for y in x:
            if has_term(y, pred):
                return True
    return False


def unwrap(v):
    """dap::integer and friends are records around `val`."""
    while isinstance(v, tuple) and v and v[0] == 'rec' and len(v[2]) == 1 and v[2][0][0] == 'val':
        v = v[2][0][1]
    if isinstance(v, tuple) and v and v[0] == 'proj' and v[2] == 'val':
        v = v[1]
    return v


def show(x):
    import tr
    s = tr.short(x)
    return s if len(s) < 160 else s[:157] + '...'
