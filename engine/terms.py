"""The value domain: linear integer terms, opaque atoms, byte/element sequences,
and a store of facts (linear inequalities + truth of atoms) with a bounded
Fourier-Motzkin entailment test. No solver is involved.

Terms
  int                      integer constant (bool: 0/1)
  bytes                    constant string
  ('+', c, ((atom,k)..))   linear combination
  ('le', L) / ('eq', L)    L <= 0 / L == 0 over integers or pointers
  ('same', a, b)           equality of two non-integer values
  ('not', t)
  ('ptr', loc)             address of a location
  ('seq', parts)           sequence; parts: ('lit',bytes) ('el',t) ('sl',base,off,len) ('gen',t,n)
  ('sym', hint, uid, sort) opaque symbol; sort u unsigned, i int, b bool, p pointer, o other
  ('v', loc, epoch, sort)  value of a location before it was first written
  ('at', seqbase, idx), ('len', seqbase), ('app', name, args...)
"""

_ids = {}


def tid(t):
    n = _ids.get(t)
    if n is None:
        n = len(_ids) + 1
        _ids[t] = n
    return n


def is_lin(t):
    return isinstance(t, tuple) and t[0] == '+'


def lin(t):
    """term -> (const, {atom: coef})"""
    if isinstance(t, bool):
        return int(t), {}
    if isinstance(t, int):
        return t, {}
    if is_lin(t):
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk(c, d):
    d = {a: k for a, k in d.items() if k}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return ('+', c, tuple(sorted(d.items(), key=lambda x: tid(x[0]))))


def _ptr_plus(p, n):
    loc = p[1]
    if loc[0] == 'e':
        return ('ptr', ('e', loc[1], add(loc[2], n)))
    return ('ptr', ('e', loc, n))


def is_ptr(t):
    return isinstance(t, tuple) and t[0] == 'ptr'


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if b == 0:
        return a
    if a == 0:
        return b
    if is_ptr(a) and not is_ptr(b):
        return _ptr_plus(a, b)
    if is_ptr(b) and not is_ptr(a):
        return _ptr_plus(b, a)
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + v
    return mk(c1 + c2, d)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    c, d = lin(a)
    return mk(c * k, {x: v * k for x, v in d.items()})


def sub(a, b):
    if is_ptr(a) and is_ptr(b):
        la, lb = a[1], b[1]
        if la == lb:
            return 0
        ba, ia = (la[1], la[2]) if la[0] == 'e' else (la, 0)
        bb, ib = (lb[1], lb[2]) if lb[0] == 'e' else (lb, 0)
        if ba == bb:
            return sub(ia, ib)
    if is_ptr(a) and not is_ptr(b):
        return _ptr_plus(a, scale(b, -1))
    return add(a, scale(b, -1))


def mul(a, b):
    if isinstance(a, int):
        return scale(b, a)
    if isinstance(b, int):
        return scale(a, b)
    x, y = sorted((a, b), key=tid)
    return ('app', '*', x, y)


def neg(t):
    if isinstance(t, int):
        return 0 if t else 1
    if isinstance(t, tuple) and t[0] == 'not':
        return t[1]
    return ('not', t)


def le(a, b):
    """a <= b"""
    d = sub(a, b)
    if isinstance(d, int):
        return 1 if d <= 0 else 0
    return ('le', d)


def lt(a, b):
    return le(add(a, 1), b)


def opaque_value(t):
    """Values that are compared with 'same' rather than arithmetic."""
    return isinstance(t, bytes) or (isinstance(t, tuple) and t[0] in ('seq', 'clo', 'tie', 'rec'))


def eq(a, b):
    if a == b:
        return 1
    if isinstance(a, int) and isinstance(b, int):
        return 0
    if is_ptr(a) and b == 0 or is_ptr(b) and a == 0:
        return 0
    if isinstance(a, tuple) and a[0] == 'clo' and b == 0 or isinstance(b, tuple) and b[0] == 'clo' and a == 0:
        return 0
    if isinstance(a, bytes) and isinstance(b, bytes):
        return 0
    if opaque_value(a) or opaque_value(b):
        x, y = sorted((a, b), key=tid)
        return ('same', x, y)
    if is_ptr(a) and is_ptr(b):
        d = sub(a, b)
        if isinstance(d, int):
            return 1 if d == 0 else 0
        ra, rb = root(a[1]), root(b[1])
        if ra != rb and ra[0] in ('v', 't', 'h', 'str', 'g') and rb[0] in ('v', 't', 'h', 'str', 'g', 'o'):
            return 0
        if ra != rb and rb[0] in ('v', 't', 'h', 'str', 'g') and ra[0] in ('o',):
            return 0
        if ra != rb and ra[0] == 'o' and rb[0] == 'o' and ra[1] != rb[1]:
            return 0
    if isinstance(b, int) and is_bool(a):
        if b == 1:
            return a
        if b == 0 and a[0] in ('le', 'eq', 'same', 'not'):
            return neg(a)
        if b not in (0, 1):
            return 0
    elif isinstance(a, int) and is_bool(b):
        return eq(b, a)
    d = sub(a, b)
    if isinstance(d, int):
        return 1 if d == 0 else 0
    if isinstance(d, tuple) and d[0] == 'ptr':
        x, y = sorted((a, b), key=tid)
        return ('same', x, y)
    c, dd = lin(d)
    # canonical sign
    first = min(dd, key=tid)
    if dd[first] < 0:
        d = mk(-c, {k: -v for k, v in dd.items()})
    return ('eq', d)


def is_bool(t):
    """Terms whose value is 0 or 1."""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] in ('sym', 'v'):
        return t[3] == 'b'
    if t[0] == 'app':
        return t[1] in ('jis', 'hasfield') or (t[1] == 'jval' and t[-1] == 'dap::boolean')
    if t[0] == 'proj' and t[2] == 'val':
        return is_bool(t[1]) and t[1][0] == 'app'
    return t[0] in ('le', 'eq', 'same', 'not')


def root(loc):
    while loc[0] in ('f', 'e', 'm', 'x'):
        loc = loc[1]
    return loc


def rebase(loc, a, b):
    """Location loc below a, as the same member below b."""
    if loc == a:
        return b
    return (loc[0], rebase(loc[1], a, b)) + tuple(loc[2:]) if loc[0] in ('f', 'e', 'm') else loc


def under(loc, anc):
    while True:
        if loc == anc:
            return True
        if loc[0] in ('f', 'e', 'm', 'x'):
            loc = loc[1]
        else:
            return False


def atoms_of(t, out=None):
    """All sub-terms (tuples) of a term."""
    if out is None:
        out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x in out:
                continue
            try:
                out.add(x)
            except TypeError:
                continue
            stack.extend(x)
    return out


def contains(t, needle):
    stack = [t]
    while stack:
        x = stack.pop()
        if x == needle:
            return True
        if isinstance(x, tuple):
            stack.extend(x)
    return False


def subst(t, mp):
    """Replace atoms by terms, renormalising."""
    if not isinstance(t, tuple) or not t:
        return t
    if t in mp:
        return mp[t]
    k = t[0]
    if k == '+':
        r = t[1]
        for a, c in t[2]:
            r = add(r, scale(subst(a, mp), c))
        return r
    if k == 'le':
        d = subst(t[1], mp)
        return (1 if d <= 0 else 0) if isinstance(d, int) else ('le', d)
    if k == 'eq':
        d = subst(t[1], mp)
        return (1 if d == 0 else 0) if isinstance(d, int) else ('eq', d)
    if k == 'not':
        return neg(subst(t[1], mp))
    if k == 'same':
        return eq(subst(t[1], mp), subst(t[2], mp))
    if k == 'seq':
        return mkseq([tuple(subst(x, mp) if isinstance(x, tuple) else x for x in p) if p[0] != 'lit' else p
                      for p in t[1]])
    out = tuple(subst(x, mp) if isinstance(x, tuple) else x for x in t)
    return out


# -- sequences ---------------------------------------------------------------

def seqlen(t):
    if isinstance(t, bytes):
        return len(t)
    if isinstance(t, tuple) and t[0] == 'seq':
        r = 0
        for p in t[1]:
            r = add(r, partlen(p))
        return r
    return ('len', t)


def partlen(p):
    if p[0] == 'lit':
        return len(p[1])
    if p[0] == 'el':
        return 1
    if p[0] == 'sl':
        return p[3]
    if p[0] == 'gen':
        return p[2]
    raise AssertionError(p)


def parts_of(t):
    if isinstance(t, bytes):
        return (('lit', t),) if t else ()
    if isinstance(t, tuple) and t[0] == 'seq':
        return t[1]
    return (('sl', t, 0, ('len', t)),)


def mkseq(parts):
    out = []
    for p in parts:
        if p[0] == 'el' and isinstance(p[1], tuple) and p[1][0] == 'at':
            p = ('sl', p[1][1], p[1][2], 1)
        if p[0] == 'el' and isinstance(p[1], int) and 0 <= p[1] < 256:
            p = ('lit', bytes([p[1]]))
        if p[0] == 'sl' and isinstance(p[1], bytes) and isinstance(p[2], int) and isinstance(p[3], int):
            p = ('lit', p[1][p[2]:p[2] + p[3]])
        while p[0] == 'sl' and isinstance(p[1], tuple) and p[1][0] == 'seq' and len(p[1][1]) == 1 and p[1][1][0][0] == 'sl':
            q = p[1][1][0]
            p = ('sl', q[1], add(q[2], p[2]), p[3])
        n = partlen(p)
        if n == 0:
            continue
        if out:
            q = out[-1]
            if q[0] == 'lit' and p[0] == 'lit':
                out[-1] = ('lit', q[1] + p[1])
                continue
            if q[0] == 'sl' and p[0] == 'sl' and q[1] == p[1] and add(q[2], q[3]) == p[2]:
                out[-1] = ('sl', q[1], q[2], add(q[3], p[3]))
                continue
        out.append(p)
    if not out:
        return b''
    if len(out) == 1:
        p = out[0]
        if p[0] == 'lit':
            return p[1]
        if p[0] == 'sl' and p[2] == 0 and p[3] == ('len', p[1]):
            return p[1]
    return ('seq', tuple(out))


def concat(*ts):
    ps = []
    for t in ts:
        ps.extend(parts_of(t))
    return mkseq(ps)


# -- facts ---------------------------------------------------------------------

def _norm(c, d):
    """c + sum <= 0 over integers: divide by the gcd, tighten."""
    from math import gcd
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = -((-c) // g)
    return c, d


def bounds(atom):
    """Implicit constraints of an atom."""
    out = []
    k = atom[0] if isinstance(atom, tuple) else None
    sort = None
    if k == 'sym':
        sort = atom[3]
    elif k == 'v':
        sort = atom[3]
    if k == 'len' or sort == 'u':
        out.append((0, {atom: -1}))
    elif k == 'at':
        out.append((0, {atom: -1}))
    elif sort == 'c':
        out.append((0, {atom: -1}))
        out.append((-255, {atom: 1}))
    elif sort == 'b':
        out.append((0, {atom: -1}))
        out.append((-1, {atom: 1}))
    elif k == 'app' and atom[1] in ('size', 'min'):
        out.append((0, {atom: -1}))
    return out


LIMIT = 500


def infeasible(cons):
    """True if the integer constraints (c + sum <= 0) have no rational solution."""
    work = []
    seen = set()

    def push(lst, c, d):
        d = {k: v for k, v in d.items() if v}
        if not d:
            return c > 0
        c, d = _norm(c, d)
        key = (c, frozenset(d.items()))
        if key in seen:
            return False
        seen.add(key)
        lst.append((c, d))
        return False
    for c, d in cons:
        if push(work, c, dict(d)):
            return True
    allatoms = set()
    for c, d in work:
        allatoms.update(d)
    for a in allatoms:
        for c, d in bounds(a):
            if push(work, c, dict(d)):
                return True
    while True:
        atoms = {}
        for c, d in work:
            for a, v in d.items():
                p, n = atoms.get(a, (0, 0))
                atoms[a] = (p + 1, n) if v > 0 else (p, n + 1)
        if not atoms:
            return False
        a = min(atoms, key=lambda x: (atoms[x][0] * atoms[x][1], tid(x)))
        pos = [(c, d) for c, d in work if d.get(a, 0) > 0]
        ngs = [(c, d) for c, d in work if d.get(a, 0) < 0]
        rest = [(c, d) for c, d in work if a not in d]
        new = list(rest)
        for c1, d1 in pos:
            for c2, d2 in ngs:
                k1, k2 = d1[a], -d2[a]
                c = c1 * k2 + c2 * k1
                d = {}
                for x, v in d1.items():
                    d[x] = d.get(x, 0) + v * k2
                for x, v in d2.items():
                    d[x] = d.get(x, 0) + v * k1
                d.pop(a, None)
                if push(new, c, d):
                    return True
        if len(new) > LIMIT:
            return False
        work = new


class Facts(object):
    __slots__ = ('cons', 'truth')

    def __init__(self, cons=(), truth=None):
        self.cons = cons
        self.truth = truth if truth is not None else {}

    def copy(self):
        return Facts(self.cons, dict(self.truth))

    # constraints related to the given atoms
    def related(self, atoms):
        atoms = set(atoms)
        chosen = []
        rest = list(self.cons)
        changed = True
        while changed and rest:
            changed = False
            nrest = []
            for con in rest:
                if any(a in atoms for a, _ in con[1]):
                    chosen.append((con[0], dict(con[1])))
                    before = len(atoms)
                    atoms.update(a for a, _ in con[1])
                    changed = changed or len(atoms) != before
                else:
                    nrest.append(con)
            rest = nrest
        return chosen

    def entails_le(self, t):
        """t <= 0 ?"""
        if isinstance(t, int):
            return t <= 0
        c, d = lin(t)
        if any(isinstance(a, tuple) and a[0] == 'ptr' for a in d):
            return False
        cons = self.related(d)
        cons.append((1 - c, {k: -v for k, v in d.items()}))
        return infeasible(cons)

    def decide(self, t):
        """True / False / None"""
        if isinstance(t, int):
            return t != 0
        if isinstance(t, bytes):
            return True
        k = t[0]
        if k == 'not':
            r = self.decide(t[1])
            return None if r is None else not r
        if k in ('ptr', 'clo'):
            return True
        if t in self.truth:
            return self.truth[t]
        if k == 'le':
            if self.entails_le(t[1]):
                return True
            if self.entails_le(add(1, scale(t[1], -1))):
                return False
            return None
        if k == 'eq':
            if self.entails_le(add(t[1], 1)) or self.entails_le(add(1, scale(t[1], -1))):
                return False
            if self.entails_le(t[1]) and self.entails_le(scale(t[1], -1)):
                return True
            return None
        if k == '+':
            return self.decide(neg(eq(t, 0)))
        if k in ('seq',):
            return None
        r = self.decide_nz(t)
        return r

    def decide_nz(self, t):
        e = eq(t, 0)
        if isinstance(e, int):
            return e == 0
        if e in self.truth:
            return not self.truth[e]
        if e[0] == 'eq':
            if self.entails_le(add(e[1], 1)) or self.entails_le(add(1, scale(e[1], -1))):
                return True
            if self.cons and self.entails_le(e[1]) and self.entails_le(scale(e[1], -1)):
                return False
        return None

    def assume(self, t, val):
        """Adds a fact; returns False if it contradicts the known ones."""
        d = self.decide(t)
        if d is not None:
            return d == val
        k = t[0]
        if k == 'not':
            return self.assume(t[1], not val)
        if k == 'le':
            L = t[1] if val else add(1, scale(t[1], -1))
            c, dd = lin(L)
            self.cons = self.cons + ((c, tuple(dd.items())),)
            if infeasible(self.related(dd)):
                return False
            # sharpen disequalities over the same atoms
            for u, v in list(self.truth.items()):
                if v is False and isinstance(u, tuple) and u[0] == 'eq' and lin(u[1])[1].keys() == dd.keys():
                    for w in (u[1], scale(u[1], -1)):
                        if self.entails_le(w) and not self.entails_le(add(w, 1)):
                            c2, d2 = lin(add(w, 1))
                            self.cons = self.cons + ((c2, tuple(d2.items())),)
                            if infeasible(self.related(d2)):
                                return False
            return True
        if k == 'eq':
            self.truth[t] = val
            c, dd = lin(t[1])
            if val:
                self.cons = self.cons + ((c, tuple(dd.items())), (-c, tuple((a, -v) for a, v in dd.items())))
                return not infeasible(self.related(dd))
            if self.entails_le(t[1]):
                return self.assume(('le', add(t[1], 1)), True)
            if self.entails_le(scale(t[1], -1)):
                return self.assume(('le', add(1, scale(t[1], -1))), True)
            return True
        if k == '+':
            return self.assume(eq(t, 0), not val)
        if k in ('sym', 'v') and t[3] in ('b', 'o'):
            self.truth[t] = val
            e = eq(t, 0)
            if e[0] == 'eq':
                self.truth[e] = not val
            return True
        if k == 'same':
            self.truth[t] = val
            return True
        self.truth[t] = val
        e = eq(t, 0)
        if isinstance(e, tuple) and e[0] == 'eq' and k != 'app':
            return self.assume(e, not val)
        return True
