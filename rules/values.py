"""C25, C26, C27: dynamic values, variants, optionals, response-or-error."""
import itertools
import os
from common import *

WIT = os.path.join(VERIF, 'witness', 'values.cpp')
# sizes and alignments of the types the address arithmetic is judged for
TYPES = [(1, 1), (31, 1), (32, 1), (33, 1), (64, 1), (8, 8), (24, 8), (32, 8), (40, 8), (96, 8), (28, 4), (36, 4),
         (16, 16), (32, 16), (48, 16), (32, 32), (64, 32), (64, 64)]
LIMIT = 60000
UNRESOLVED = 'a condition over addresses could not be resolved'


def program():
    return ir.extract(ir.src('typeof.cpp') + [WIT])


# -- addresses ------------------------------------------------------------------

class Addr(object):
    """Decides conditions over addresses, sizes and alignments by evaluating them
    for every placement of the objects (modulo 64) and every type in TYPES."""

    def __init__(self, I):
        self.I = I
        self.cache = {}
        self.types = {}
        self.st = None

    def atoms(self, t, out):
        if isinstance(t, tuple) and t:
            if t[0] == 'app' and t[1] in ('size', 'align') and len(t) == 3:
                out.add(('ti', t[2]))
                return
            if t[0] == 'ptr':
                self.loc_atoms(t[1], out)
                return
            if t[0] in ('sym', 'v'):
                out.add(('?', t))
                return
            if t[0] == '+':
                for a, _ in t[2]:
                    self.atoms(a, out)
                return
            for x in t[1:]:
                self.atoms(x, out)

    def loc_atoms(self, loc, out):
        while loc[0] in ('f', 'e'):
            if loc[0] == 'e':
                self.atoms(loc[2], out)
            loc = loc[1]
        if loc[0] == 'd':
            self.atoms(loc[1], out)
        else:
            out.add(('base', loc))

    def options(self, a):
        if a[0] == 'ti':
            return TYPES
        if a[0] == 'base':
            if a[1][0] == 'h':
                return (0, 16, 32, 48)
            al = 8
            rec = self.I.P.recs.get(self.I.exact.get(a[1], ''))
            if rec:
                al = rec.get('align', 8)
            return tuple(range(0, 64, al))
        return None

    def src(self, t, names):
        """t as a Python expression over the names of its atoms; None when it is not an address term."""
        if isinstance(t, (bool, int)):
            return '(%d)' % int(t)
        if not isinstance(t, tuple) or not t:
            return None
        k = t[0]
        if k == '+':
            out = ['(%d)' % t[1]]
            for a, c in t[2]:
                v = self.src(a, names)
                if v is None:
                    return None
                out.append('(%d)*%s' % (c, v))
            return '(' + '+'.join(out) + ')'
        if k == 'app':
            if t[1] in ('size', 'align') and len(t) == 3:
                n = names.get(('ti', t[2]))
                return None if n is None else '%s[%d]' % (n, 0 if t[1] == 'size' else 1)
            if t[1] == '~' and len(t) == 3:
                a = self.src(t[2], names)
                return None if a is None else '(~%s)' % a
            if len(t) != 4 or t[1] not in ('*', '/', '%', '<', '<=', '&', '|', '^'):
                return None
            a, b = self.src(t[2], names), self.src(t[3], names)
            if a is None or b is None:
                return None
            return '(%s%s%s)' % (a, {'/': '//'}.get(t[1], t[1]), b)
        if k == 'ptr':
            return self.addr(t[1], names)
        if k == 'not':
            v = self.src(t[1], names)
            return None if v is None else '(not %s)' % v
        if k in ('le', 'eq'):
            v = self.src(t[1], names)
            return None if v is None else '(%s%s0)' % (v, '<=' if k == 'le' else '==')
        if k == 'same':
            a, b = self.src(t[1], names), self.src(t[2], names)
            return None if a is None or b is None else '(%s==%s)' % (a, b)
        return None

    def addr(self, loc, names):
        if loc[0] == 'e':
            b, i = self.addr(loc[1], names), self.src(loc[2], names)
            return None if b is None or i is None else '(%s+%s)' % (b, i)
        if loc[0] == 'f':
            b = self.addr(loc[1], names)
            t = self.type_of(loc[1]) if b is not None else None
            rec = self.I.P.recs.get(X.noref(t)) if t else None
            for f in (rec or {'fields': ()})['fields']:
                if f['n'] == loc[2]:
                    return '(%s+%d)' % (b, f['off'])
            return None
        if loc[0] == 'd':
            return self.src(loc[1], names)
        return names.get(('base', loc))

    def type_of(self, loc):
        r = self.types.get(loc)
        if r is None:
            r = M.type_of_loc(self.I, self.st or X.St(), loc)
            self.types[loc] = r
        return r

    def constraints(self, st, atoms):
        """Path conditions that share an address, size or alignment with atoms (transitively)."""
        allc = []
        for t, v in st.facts.truth.items():
            allc.append((t, v))
        for c in st.facts.cons:
            allc.append((('le', T.mk(c[0], dict(c[1]))), True))
        rel = []
        for t, v in allc:
            a = set()
            self.atoms(t, a)
            if a and not any(x[0] == '?' for x in a):
                rel.append((t, v, a))
        out, todo = [], True
        while todo:
            todo = False
            for x in list(rel):
                if x[2] & atoms:
                    out.append(x)
                    rel.remove(x)
                    if not x[2] <= atoms:
                        atoms = atoms | x[2]
                        todo = True
        return out, atoms

    def truths(self, st, t):
        """The truth values t takes over every placement the path conditions allow; None when that is unknown."""
        atoms = set()
        self.st = st
        self.atoms(t, atoms)
        if not any(a[0] != '?' for a in atoms):
            return None
        if any(a[0] == '?' for a in atoms):
            return self.unknown(st)
        cons, atoms2 = self.constraints(st, frozenset(atoms))
        cut = False

        def count(al):
            n = 2
            for a in al:
                n *= len(self.options(a))
            return n
        if count(atoms2) > LIMIT:
            # keep only the conditions over these very atoms: what then varies need not vary
            cut = True
            cons = [c for c in cons if c[2] <= atoms]
            atoms2 = atoms
            if count(atoms2) > LIMIT:
                return self.unknown(st)
        al = sorted(atoms2, key=repr)
        key = (t, tuple(al), frozenset((c, v) for c, v, _ in cons))
        if key in self.cache:
            return None if cut and len(self.cache[key]) == 2 else self.cache[key]
        names = {a: 'x%d' % i for i, a in enumerate(al)}
        e = self.src(t, names)
        if e is None:
            return self.unknown(st)
        cs = [(self.src(c, names), v) for c, v, _ in cons]
        cs = [c if v else '(not %s)' % c for c, v in cs if c is not None]
        bases = [a for a in al if a[0] == 'base']
        lines = ['def f(opts):', ' r = set()']
        ind = ' '
        if len(bases) > 1:
            lines.append(ind + 'for o in (1, -1):')
            ind += ' '
        else:
            lines.append(ind + 'o = 1')
        order = sorted(range(len(al)), key=lambda i: (al[i][0] != 'base', i))
        done, left = set(), list(cs)
        for j, i in enumerate(order):
            lines.append(ind + 'for x%d in opts[%d]:' % (i, i))
            ind += ' '
            if al[i][0] == 'base':
                lines.append(ind + 'x%d += (100 + o * %d) * 65536' % (i, bases.index(al[i]) + 1))
            done.add('x%d' % i)
            for c in list(left):
                used = {m for m in names.values() if (m + '[') in c or (m + ')') in c or (m + '+') in c or (m + '/') in c
                        or (m + '=') in c or (m + '<') in c or (m + '*') in c or (m + '%') in c or c == m or (m + '&') in c}
                if used <= done:
                    lines.append(ind + 'if not %s: continue' % c)
                    left.remove(c)
        lines.append(ind + 'r.add(bool(%s))' % e)
        lines.append(ind + 'if len(r) == 2: return r')
        lines.append(' return r')
        env = {}
        exec('\n'.join(lines), env)
        try:
            r = env['f']([self.options(a) for a in al])
        except ZeroDivisionError:
            r = None
        if not r:
            return self.unknown(st)
        self.cache[key] = r
        return None if cut and len(r) == 2 else r

    def unknown(self, st):
        """Both branches of a condition nothing is known about may be taken here, but not both in reality."""
        st.note(UNRESOLVED)
        return None

    def decide(self, st, t):
        """True/False when t has that truth in every allowed placement; None when it varies or is unknown."""
        r = self.truths(st, t)
        return None if r is None or len(r) == 2 else (True in r)

    def always(self, st, t):
        """True: in every placement; False: fails in some placement; None: unknown."""
        r = self.truths(st, t)
        return None if r is None else False not in r

    def same(self, st, a, b):
        if a == b:
            return True
        if a == 0 or b == 0:
            return False if T.is_ptr(a) or T.is_ptr(b) else None
        return self.decide(st, ('same', a, b))


def ti(name):
    return ('ptr', ('g', 'type of ' + name))


def setup(I):
    contracts.install(I)
    I.nojoin = True
    I.aborts = []

    def typeof(I, st, fr, e, fn, loc, ops):
        q = fn['q']
        return [(st, ti(q[q.index('<') + 1:q.rindex('>')]))]
    I.summ['dap::TypeOf::type'] = typeof
    # different types can have the same name: every variant is a "variant", every unnamed structure ""
    I.icalls['dap::TypeInfo::name'] = lambda I, st, fr, e, fn, recv, ops: [(st, b'variant')]
    I.addr = Addr(I)
    I.oracle = I.addr.decide


# -- the objects alive on a path ------------------------------------------------------

class Heap(object):
    def __init__(self, I, st):
        self.I, self.st, self.A = I, st, I.addr
        self.objs = []      # [addr, type, token]
        self.blocks = []    # [ptr, size, pos]
        self.errs = []      # (rule, pos, verdict, msg)
        self.local = {}     # objects of local variables: address -> (type, token)

    def fork(self, st):
        h = Heap(self.I, st)
        h.local = dict(self.local)
        h.objs = [list(o) for o in self.objs]
        h.blocks = [list(b) for b in self.blocks]
        return h

    def err(self, rule, pos, v, msg):
        self.errs.append((rule, pos, v, msg))

    def find(self, p):
        for o in self.objs:
            if o[0] == p:
                return o
        unk = False
        for o in self.objs:
            s = self.A.same(self.st, o[0], p)
            if s:
                return o
            unk = unk or s is None
        return '?' if unk else None

    def block_of(self, p):
        """(kind, base address, size) of the storage p lies in."""
        at = set()
        self.A.atoms(p, at)
        bs = [a[1] for a in at if a[0] == 'base']
        if len(bs) != 1:
            return None
        if bs[0][0] == 'h':
            for b in self.blocks:
                if X.T.root(b[0][1]) == bs[0]:
                    return ('heap', ('ptr', bs[0]), b[1])
            return ('freed', ('ptr', bs[0]), None)
        f = field_of(p)
        if f is None:
            return None
        t = self.A.type_of(f[1])
        for fl in self.I.P.recs.get(X.noref(t), {'fields': ()})['fields'] if t else ():
            if fl['n'] == f[2] and 'sz' in fl:
                return ('field', ('ptr', ('e', f, 0)), fl['sz'])
        return None

    def born(self, typ, p, tok, pos):
        b = self.block_of(p)
        A, st = self.A, self.st
        if b is None:
            self.err('fits', pos, None, 'storage unknown')
        elif b[0] == 'freed':
            self.err('fits', pos, False, 'an object is constructed in storage that was freed')
        else:
            end = ('app', '<=', T.add(p, ('app', 'size', typ)) if not T.is_ptr(p) else ('+', 0, ((p, 1), (('app', 'size', typ), 1))),
                   ('+', 0, ((b[1], 1),) + (((b[2], 1),) if not isinstance(b[2], int) else ())) if not isinstance(b[2], int)
                   else ('+', b[2], ((b[1], 1),)))
            self.err('fits', pos, A.always(st, end), 'the object does not always fit the storage it is constructed in')
            self.err('fits', pos, A.always(st, ('app', '<=', b[1], p)), 'the object starts before its storage')
            self.err('aligned', pos, A.always(st, ('eq', ('app', '%', p, ('app', 'align', typ)))),
                     'the object is not always aligned as its type requires')
        o = self.find(p)
        if o not in (None, '?'):
            self.err('one', pos, False, 'an object is constructed over a live one')
        self.objs.append([p, typ, tok])

    def replay(self, evs, nested=False):
        before = [o[0] for o in self.objs] if nested else []
        gone = False        # an object that existed before has been destructed
        for e in evs:
            k, pos = e[0], e[1]
            if k in ('ticopy', 'cmcopy') and gone and nested:
                p = e[5] if k == 'ticopy' else ('ptr', e[5])
                if p in before or T.is_ptr(p) and p[1][0] == 'o':
                    self.err('alive', pos, False, 'copies from a value, possibly nested in the old one, after destructing that')
            if k == 'tidtor' and e[4] in before:
                gone = True
            if k == 'cmcopy':
                src = self.find(('ptr', e[5]))
                if src is None and ('ptr', e[5]) in self.local:
                    src = self.local[('ptr', e[5])]
                tok = src[2] if src not in (None, '?') else (e[5][1],) if e[5][0] == 'o' else ('?',)
                self.local[('ptr', e[3])] = [('ptr', e[3]), ti(e[4]), tok]
            elif k == 'cmnew':
                self.local[('ptr', e[3])] = [('ptr', e[3]), ti(e[4]), ('new',)]
            elif k == 'ticopy':
                src = self.find(e[5])
                if src is None and e[5] in self.local:
                    src = self.local[e[5]]
                tok = ('?',)
                if src is None:
                    if T.is_ptr(e[5]) and e[5][1][0] == 'o':
                        tok = (e[5][1][1],)
                    else:
                        at = set()
                        self.A.atoms(e[5], at)
                        if any(a[0] == 'base' for a in at):
                            self.err('alive', pos, False, 'copies from storage that holds no live object')
                elif src != '?':
                    tok = src[2]
                    if src[1] != e[3]:
                        self.err('alive', pos, False, 'copies an object under the description of another type')
                self.born(e[3], e[4], tok, pos)
            elif k == 'tictor':
                self.born(e[3], e[4], ('new',), pos)
            elif k == 'tidtor':
                o = self.find(e[4])
                if o is None:
                    self.err('once', pos, False, 'destructs storage that holds no live object')
                elif o == '?':
                    self.err('once', pos, None, 'unknown object destructed')
                else:
                    if o[1] != e[3]:
                        self.err('once', pos, False, 'destructs an object under the description of another type')
                    self.objs.remove(o)
            elif k == 'new':
                self.blocks.append([e[3], e[5], pos])
            elif k == 'free':
                r = X.T.root(e[3][1]) if T.is_ptr(e[3]) else None
                b = next((b for b in self.blocks if r is not None and X.T.root(b[0][1]) == r), None)
                if b is None:
                    self.err('freed', pos, False if r is not None and r[0] in ('h', 'o') else None,
                             'frees storage that is not allocated (any more)')
                else:
                    if T.is_ptr(e[3]) and e[3][1] != r and e[3][1] != ('e', r, 0):
                        self.err('freed', pos, False, 'frees an address inside an allocated block')
                    if bool(e[5]) != (b[1] is not None):
                        self.err('freed', pos, False, 'array storage freed as a single object, or the reverse')
                    for o in self.objs:
                        at = set()
                        self.A.atoms(o[0], at)
                        if ('base', r) in at:
                            self.err('freed', pos, False, 'frees storage that holds a live object')
                    self.blocks.remove(b)
            elif k in ('opaque', 'cmassign') and e[3].endswith('::operator=') and e[4] is not None:
                p = self.I.recv(e[4])
                if p in self.local:
                    continue
                o = self.find(p)
                if o == '?':
                    for x in self.objs:
                        if self.A.same(self.st, x[0], p) is not False:
                            x[2] = ('?',)
                if o is None:
                    self.err('alive', pos, False, 'assigns to storage that holds no live object')
                elif o != '?':
                    rec = e[3].rsplit('::', 2)[0] + '::' + e[3].rsplit('::', 2)[1]
                    if o[1] != ti(rec):
                        self.err('alive', pos, False, 'assigns to an object under another type')
                    a = e[5][0] if e[5] else None
                    if isinstance(a, tuple) and a[0] == 'ref':
                        s = self.find(('ptr', a[1])) or self.local.get(('ptr', a[1]))
                        o[2] = s[2] if s not in (None, '?') else ((a[1][1],) if a[1][0] == 'o' else ('?',))
            elif k == 'nullderef':
                self.err('alive', pos, False, 'dereferences a null pointer')
        return self


def field_of(p):
    """The member array an address term is computed from."""
    found = []

    def walk(x):
        if isinstance(x, tuple) and x:
            if x[0] == 'ptr':
                l = x[1]
                while l[0] == 'e':
                    l = l[1]
                if l[0] == 'f':
                    found.append(l)
                return
            for y in x:
                walk(y)
    walk(p)
    return found[0] if found and all(f == found[0] for f in found) else None


# -- C25/C26: exploration of dap::any ---------------------------------------------------

KINDS = {
    'any': ('dap::any', 'witness::Any', 'any'),
    'variant': ('dap::variant<witness::A, witness::B>', 'witness::Var', 'var'),
}


class AnyDriver(object):
    def __init__(self, L, P, kind):
        self.L, self.P = L, P
        self.cls, self.box, self.pre = KINDS[kind]
        self.I = new_interp(P, setup)
        self.I.MAXSTEPS = 10 ** 9
        self.fn = {}
        for f in P.fns.values():
            if f.q.startswith('witness::' + self.pre):
                self.fn[f.q[len('witness::' + self.pre):]] = f
        self.ctor = {}
        for f in P.fns.values():
            if f.q == self.box + '::' + self.box.split('::')[-1]:
                ts = tuple(p['t'] for p in f.params)
                k = {(): 'empty', ('const witness::A &',): 'A', ('const witness::B &',): 'B',
                     ('const %s &' % self.box, 'int'): 'copy', (self.box + ' &&', 'int'): 'move'}.get(ts)
                self.ctor[k] = f
        for o in ('X', 'Y'):
            self.I.exact[('o', o)] = self.box
        self.obs = []
        self.transitions = 0

    def loc(self, o):
        return ('f', ('o', o), 'v')

    def run(self, f, this, ops, st):
        self.I.aborts = []
        self.I.steps = 0
        rs = self.I.invoke(f.key, this, ops, st, f.p)
        return rs, self.I.aborts

    def construct(self, o, how, st):
        r = ('o', o)
        for k in [k for k in st.store if X.T.root(k[1] if k[0] in ('dyn', 'ep', 'elt') else k) == r]:
            del st.store[k]
        ops = []
        if how in ('A', 'B'):
            ops = [('L', ('o', 'val' + how))]
        elif how in ('copy', 'move'):
            ops = [('L', ('o', 'Y' if o == 'X' else 'X')), 0]
        st.store[('dyn', r)] = self.box
        rs, ab = self.run(self.ctor[how], r, ops, st)
        return [s for s, _ in rs], ab

    def destroy(self, o, st):
        self.I.aborts = []
        sts = self.I.destroy(st, self.loc(o), self.cls, self.P.recs[self.cls]['p'])
        return sts, self.I.aborts

    def call(self, name, ops, st):
        return self.run(self.fn[name], None, ops, st)

    def key(self, st, cont, heap):
        """The shape of the two values, up to names and to swapping them."""
        return min(repr(self.key1(st, cont, heap, o)) for o in (('X', 'Y'), ('Y', 'X')))

    def key1(self, st, cont, heap, order):
        names = {}

        def ren(x):
            if isinstance(x, tuple):
                if x and x[0] == 'h':
                    return ('h', names.setdefault(x, len(names)))
                if x in (('o', 'X'), ('o', 'Y')):
                    return ('o', order.index(x[1]))
                return tuple(ren(y) for y in x)
            return x
        items = sorted((order.index(X.T.root(k)[1]), repr(k).replace("'X'", "'?'").replace("'Y'", "'?'"), k) for k in st.store
                       if k[0] in ('f', 'o', 'e') and X.T.root(k)[0] == 'o' and X.T.root(k)[1] in ('X', 'Y'))
        return (tuple((ren(k), ren(st.store[k])) for _, _, k in items), tuple(cont[o] for o in order),
                tuple(sorted(repr(ren(o)) for o in map(tuple, heap.objs))), len(heap.blocks))


def expected(op, tgt, src, cont):
    """Contents after `op` on tgt (with src): dict object -> content."""
    c = dict(cont)
    if op in ('assignA', 'assignB'):
        c[tgt] = (op[-1], 'val' + op[-1])
    elif op in ('reset', 'null'):
        c[tgt] = None
    elif op in ('copyassign', 'copyctor'):
        c[tgt] = c[src]
    elif op in ('moveassign', 'movector'):
        c[tgt] = c[src]
        c[src] = None
    return c


OPS = ('assignA', 'assignB', 'reset', 'null', 'copyassign', 'moveassign', 'copyctor', 'movector', 'selfcopy', 'selfmove')
OPNAME = {'assignA': 'assigning a value', 'assignB': 'assigning a value', 'reset': 'reset', 'null': 'assigning nullptr',
          'copyassign': 'copy assignment', 'moveassign': 'move assignment', 'copyctor': 'copy construction',
          'movector': 'move construction', 'selfcopy': 'copy self-assignment', 'selfmove': 'move self-assignment',
          'empty': 'default construction', 'A': 'construction from a value', 'B': 'construction from a value'}


def any_explore(L, P, kind='any'):
    """Explores every reachable pair of dynamic values. Returns {(rule, instance): (verdict, pos, msg)}."""
    if KINDS[kind][0] not in P.recs:
        raise AnalysisError(KINDS[kind][0] + ' not found')
    D = AnyDriver(L, P, kind)
    out = {}
    rank = {True: 0, None: 1, False: 2}

    cur = [None]

    def ob(rule, inst, v, pos, msg):
        k = (rule, inst)
        if v is False and cur[0] is not None and UNRESOLVED in cur[0].notes:
            v = None
        if k not in out or rank[v] > rank[out[k][0]]:
            out[k] = (v, pos, msg)

    apos = P.recs[D.cls]['p']
    seen = {}
    todo = []

    def shape(c):
        return 'empty' if c is None else ('moved from' if c == '?' else 'holding a value')

    def arrive(st, cont, inst, pos, aborts, h0=None, since=None):
        for a, p in aborts:
            cur[0] = a
            ob('assert', inst, False, p, 'an assertion of the library can fail')
        cur[0] = st
        if st is None:
            return
        h = (h0.fork(st) if h0 else Heap(D.I, st)).replay(list(flat(st.events(since))), 'assign' in inst)
        for r, p, v, m in h.errs:
            ob(r, inst, v, p, m)
        for n in st.notes:
            L.note(n)
        live = [o for o in cont if cont[o] not in (None, '?')]
        # what each value answers about itself
        ptrs = {}
        for o in ('X', 'Y'):
            if cont[o] == '?':
                continue
            for q, want in (('IsA', cont[o] is not None and cont[o][0] == 'A'),
                            ('IsB', cont[o] is not None and cont[o][0] == 'B'),
                            ('IsNull', cont[o] is None)):
                if q not in D.fn:
                    continue
                s2 = st.copy()
                rs, ab = D.call(q, [('L', D.loc(o))], s2)
                for s3, v in rs:
                    cur[0] = s3
                    for s4, b in D.I.fork(s3, D.I.rv(s3, v, 'bool')):
                        ok = bool(b) == want
                        if not ok and s4.facts.decide(D.I.rv(s4, v, 'bool')) is None:
                            ok = None
                        ob('empty' if q == 'IsNull' else 'is', inst + ' [' + shape(cont[o]) + ']', ok, pos,
                           'after it, the value %s to hold %s' %
                           ('claims' if b else 'denies', 'nothing' if q == 'IsNull' else 'a type'))
            if cont[o] is not None:
                s2 = st.copy()
                rs, ab = D.call('Get' + cont[o][0], [('L', D.loc(o))], s2)
                for a, p in ab:
                    ob('get', inst, False, p, 'a typed access to the stored type fails an assertion')
                for s3, v in rs:
                    cur[0] = s3
                    p = D.I.rv(s3, v, 'void *')
                    obj = h.find(p)
                    if obj is None:
                        ob('get', inst, False, pos, 'a typed access does not refer to the stored object')
                    elif obj == '?':
                        r = [D.I.addr.always(s3, ('same', x[0], p)) for x in h.objs]
                        ob('get', inst, False if all(x is False for x in r) else None, pos,
                           'a typed access does not always refer to the stored object')
                    else:
                        ptrs[o] = obj
                        ob('get', inst, obj[1] == ti('witness::' + cont[o][0]), pos, 'a typed access refers to an object of another type')
                        if obj[2] != ('?',) and cont[o][1] != '?':
                            ob('value', inst, obj[2] == (cont[o][1],), pos, 'the value held is not the one it was given')
        if len(ptrs) == 2:
            ob('own', inst, ptrs['X'] is not ptrs['Y'], pos, 'two dynamic values refer to the same object')
        if '?' not in cont.values():
            ob('one', inst, len(h.objs) == len(live) if len(h.objs) != len(live) else True, pos,
               '%d objects are alive, %d values hold one' % (len(h.objs), len(live)))
        # destruction from here
        sts = [st.copy()]
        for o in ('X', 'Y'):
            nx = []
            for s in sts:
                ss, ab = D.destroy(o, s)
                for a, p in ab:
                    ob('assert', inst + ', destruction', False, p, 'an assertion of the library can fail')
                nx += ss
            sts = nx
        for s in sts:
            cur[0] = s
            h2 = h.fork(s).replay(list(flat(s.events(st.trace))))
            for r, p, v, m in h2.errs:
                ob(r, inst + ', destruction', v, p, m)
            ob('released', inst, not h2.objs if not any(v is None for _, _, v, _ in h2.errs) else (None if h2.objs else True), pos,
               'an object is never destructed')
            ob('released', inst, not h2.blocks if not any(v is None for _, _, v, _ in h2.errs) else (None if h2.blocks else True), pos,
               'heap storage is never freed')
        k = D.key(st, cont, h)
        if k not in seen:
            seen[k] = True
            todo.append((st, dict(cont), h))

    first = None if kind == 'any' else ('A', '?')
    for c1 in ('empty', 'A', 'B'):
        sts, ab = D.construct('X', c1, X.St())
        for s in sts:
            for c2 in ('empty', 'A', 'B'):
                ss, ab2 = D.construct('Y', c2, s.copy())
                cont = {'X': first if c1 == 'empty' else (c1, 'val' + c1), 'Y': first if c2 == 'empty' else (c2, 'val' + c2)}
                for s2 in ss:
                    arrive(s2, cont, OPNAME[c2], apos, ab + ab2)
                ab2 = []
    n = 0
    while todo and n < 400:
        st, cont, h0 = todo.pop(0)
        n += 1
        for op in OPS:
            if kind != 'any' and op in ('reset', 'null'):
                continue
            for tgt, src in (('X', 'Y'), ('Y', 'X')):
                D.transitions += 1
                s = st.copy()
                inst = '%s (target %s, source %s)' % (OPNAME[op], shape(cont[tgt]), shape(cont[src]))
                if op in ('assignA', 'assignB', 'reset', 'null'):
                    inst = '%s (target %s)' % (OPNAME[op], shape(cont[tgt]))
                elif op in ('selfcopy', 'selfmove'):
                    inst = '%s (%s)' % (OPNAME[op], shape(cont[tgt]))
                lt, ls = ('L', D.loc(tgt)), ('L', D.loc(src))
                if op in ('assignA', 'assignB'):
                    rs, ab = D.call('Assign' + op[-1], [lt, ('L', ('o', 'val' + op[-1]))], s)
                elif op in ('reset', 'null'):
                    rs, ab = D.call('Reset' if op == 'reset' else 'AssignNull', [lt], s)
                elif op in ('copyassign', 'moveassign'):
                    rs, ab = D.call('CopyAssign' if op[0] == 'c' else 'MoveAssign', [lt, ls], s)
                elif op in ('selfcopy', 'selfmove'):
                    rs, ab = D.call('CopyAssign' if op == 'selfcopy' else 'MoveAssign', [lt, lt], s)
                else:
                    rs, ab = [], []
                    ss, ab = D.destroy(tgt, s)
                    for s1 in ss:
                        s2s, ab2 = D.construct(tgt, 'copy' if op == 'copyctor' else 'move', s1)
                        rs += [(x, 0) for x in s2s]
                        ab = ab + ab2
                if cont[src] == '?' and op in ('copyassign', 'moveassign', 'copyctor', 'movector'):
                    continue
                if cont[tgt] == '?' and op in ('selfcopy', 'selfmove'):
                    continue
                c2 = expected(op, tgt, src, cont)
                if kind != 'any':
                    for o in c2:
                        if c2[o] is None:
                            c2[o] = '?'
                    if op == 'selfmove':
                        c2[tgt] = '?'
                if not rs and ab:
                    arrive(None, c2, inst, apos, ab)
                for i, (s2, _) in enumerate(rs):
                    c3 = dict(c2)
                    if kind == 'any' and op == 'selfmove' and c3[tgt] is not None:
                        # the value may keep or lose its contents
                        q, _a = D.call('IsNull', [lt], s2.copy())
                        if len(q) == 1 and D.I.rv(q[0][0], q[0][1], 'bool') == 1:
                            c3[tgt] = None
                    arrive(s2, c3, inst, apos, ab if i == 0 else [], h0, st.trace)
    L.count('value states', n)
    L.count('transitions', D.transitions)
    if todo:
        L.note('the exploration of value states was cut after %d states' % n)
    L.ran(D.I)
    L.paths += D.transitions
    return out


def C25(L):
    L.rule('fits', 'every object is constructed inside live storage large enough for its type')
    L.rule('aligned', 'every object is constructed at an address aligned for its type')
    L.rule('alive', 'copying and assigning use live objects of the described type')
    L.rule('once', 'destruction hits a live object, under its own type')
    L.rule('freed', 'freeing hits allocated storage, once, in its own form, with no live object in it')
    L.rule('one', 'as many objects are alive as values hold one')
    L.rule('own', 'two values never refer to the same object')
    L.rule('value', 'the object held is the one given or a copy of it')
    L.rule('empty', 'a value holds nothing exactly when it was reset, moved from or never given one')
    L.rule('released', 'destroying the values destructs every object and frees all storage')
    L.rule('assert', 'no sequence of operations makes an assertion of the library fail')
    out = any_explore(L, program())
    for (r, inst), (v, pos, msg) in sorted(out.items(), key=lambda x: (x[0][0], x[0][1])):
        if r in L.rules:
            L.ob(r, inst, v, pos, msg)


# -- values that hold what they were given ----------------------------------------------

class ValueDriver(object):
    """Runs the operations of a value class on two objects X and Y whose contents are tracked beside it."""

    def __init__(self, L, P, box, pre):
        self.L, self.P, self.box, self.pre = L, P, box, pre
        self.I = new_interp(P, setup)
        self.I.oracle = None
        self.I.MAXSTEPS = 10 ** 9
        self.fn = {f.q[len('witness::'):]: f for f in P.fns.values() if f.q.startswith('witness::' + pre)}
        self.ctor = {tuple(p['t'] for p in f.params): f for f in P.fns.values()
                     if f.q == box + '::' + box.split('::')[-1]}

    def loc(self, o):
        return ('f', ('o', o), 'v')

    def construct(self, o, sig, ops, st, box=None):
        r = ('o', o)
        for k in [k for k in st.store if k[0] in ('dyn', 'ep', 'elt', 'wl', 'f', 'e', 'o') and
                  X.T.root(k[1] if k[0] in ('dyn', 'ep', 'elt', 'wl') else k) == r]:
            del st.store[k]
        st.store[('dyn', r)] = box or self.box
        return [s for s, _ in self.run(self.ctor[sig], r, ops, st)]

    def run(self, f, this, ops, st):
        self.I.aborts = []
        self.I.steps = 0
        return self.I.invoke(f.key, this, ops, st, f.p)

    def call(self, name, ops, st):
        return self.run(self.fn[name], None, ops, st)

    def value(self, name, ops, st, t):
        """[(state, value)] of a query that returns a reference or a value; 'abort' for a failed assertion."""
        out = []
        for s, v in self.call(name, ops, st.copy()):
            out.append((s, self.I.rv(s, v, t)))
        return out + [(s, 'abort') for s, _ in self.I.aborts]


def verdict(st, got, want):
    """Does got equal want on this path?"""
    if got == want:
        return True
    if isinstance(got, tuple) and got and got[0] == 'undef':
        return None
    if isinstance(got, (int, bytes)) and isinstance(want, (int, bytes)):
        return False
    d = same(st, got, want)
    if d is not None:
        return d
    def free(x):
        while isinstance(x, tuple) and len(x) > 1 and x[0] == 'proj':
            x = x[1]
        return isinstance(x, tuple) and x and (x[0] == 'v' or x[:2] == ('sym', 'u'))

    def const(x):
        return isinstance(x, (int, bytes)) or isinstance(x, tuple) and x[:2] == ('app', 'fmt') and isinstance(x[2], bytes)
    if (free(got) or const(got)) and (free(want) or const(want)) and (free(got) or free(want)):
        return False        # the unconstrained values of two different objects, or one and a constant
    return None


def bverdict(I, st, got, want):
    """Like verdict, for conditions: a path on which the two differ is definite."""
    if isinstance(got, int) and isinstance(want, int):
        return bool(got) == bool(want)
    f = st.facts.copy()
    for a in (True, False):
        f1 = st.facts.copy()
        if f1.assume(got, a):
            d = f1.decide(want)
            if d is None:
                f2 = f1.copy()
                if f2.assume(want, not a):
                    if isinstance(got, tuple) and got and got[0] == 'sym':
                        return None
                    return False
            elif d != a:
                return False
    return True


def C27(L):
    L.rule('present', 'an optional reports a value exactly when one was assigned')
    L.rule('content', 'an optional returns the value it was given, and the given default when it has none')
    L.rule('source', 'copying leaves the source unchanged')
    L.rule('compare', 'comparing optionals agrees with comparing presence, then values')
    L.rule('convert', 'an optional made from an optional of another type has its presence and value')
    L.rule('response', 'a response-or-error keeps the response it was given')
    L.rule('error', 'a response-or-error keeps the error it was given, and no other')
    L.rule('failed', 'it is an error exactly when its message is not empty')
    P = program()
    optional_text(L, P)
    optional_num(L, P)
    roe(L, P)


def optional_text(L, P):
    D = ValueDriver(L, P, 'witness::OptText', 'text')
    I = D.I
    st0 = X.St()
    for o in ('X', 'Y'):
        I.exact[('o', o)] = D.box
    ST = 'std::string'
    PQ = {n: I.load(st0, ('o', n), ST) for n in ('P', 'Q', 'D')}
    S = 'const std::string &'
    pos = next((f.p for f in P.fns.values() if f.q.startswith('dap::optional')), None)
    seen, todo = set(), []
    n = [0]

    def arrive(st, cont, inst, args=()):
        n[0] += 1
        for o in ('X', 'Y'):
            c = cont.get(o, '?')
            if c == '?':
                continue
            lv = ('L', D.loc(o))
            i2 = '%s: %s' % (inst, 'empty' if c is None else 'with a value')
            for q in ('textHas', 'textBool'):
                for s, v in D.value(q, [lv], st, 'bool'):
                    L.ob('present', i2, bverdict(I, s, v, int(c is not None)) if v != 'abort' else False, pos,
                         'reports %s value' % ('no' if c is not None else 'a'))
            for s, v in D.value('textOr', [lv, ('L', ('o', 'D'))], st, ST):
                L.ob('content', i2 + ', default', verdict(s, v, PQ[c if c is not None else 'D']) if v != 'abort' else False, pos,
                     'value(default) returns %s' % ('the wrong value' if c is not None else 'something other than the default'))
            if c is not None:
                for q in ('textValue', 'textConstValue', 'textStar', 'textConstStar', 'textArrow', 'textConstArrow'):
                    for s, v in D.value(q, [lv], st, ST):
                        L.ob('content', i2 + ', ' + q[4:], verdict(s, v, PQ[c]) if v != 'abort' else False, pos,
                             'returns another value than it was given' if v != 'abort' else 'an assertion can fail')
        for a in args:
            v = I.load(st.copy(), ('o', a), ST)
            L.ob('source', inst, verdict(st, v, PQ[a]), pos, 'changes the value it was given')
        k = tuple(sorted(cont.items()))
        if k not in seen:
            seen.add(k)
            todo.append((st, cont))

    def fresh(st):
        """Give the parameters their values back (rvalues were moved from)."""
        for a in ('P', 'Q'):
            I.put(st, ('o', a), PQ[a])
        return st
    for s in D.construct('X', (), [], st0.copy()):
        for s2 in D.construct('Y', (), [], s):
            arrive(s2, {'X': None, 'Y': None}, 'default construction')
    while todo:
        st, cont = todo.pop(0)
        for tgt, src in (('X', 'Y'), ('Y', 'X')):
            for a in ('P', 'Q'):
                la = ('L', ('o', a))
                for op, mv in (('textAssign', 0), ('textAssignVar', 0), ('textAssignMove', 1)):
                    for s, _ in D.call(op, [('L', D.loc(tgt)), la], fresh(st.copy())):
                        arrive(s, dict(cont, **{tgt: a}), 'assigning a value' + (' by move' if mv else ''), () if mv else (a,))
                for sg, ops, mv in (((S,), [la], 0), (('std::string &', 'char'), [la, 0], 1), (('std::string &', 'long'), [la, 0], 0)):
                    for s in D.construct(tgt, sg, ops, fresh(st.copy())):
                        arrive(s, dict(cont, **{tgt: a}), 'construction from a value' + (' by move' if mv else ''), () if mv else (a,))
            if cont[src] != '?':
                for op in ('textCopyAssign', 'textMoveAssign'):
                    for s, _ in D.call(op, [('L', D.loc(tgt)), ('L', D.loc(src))], st.copy()):
                        c = dict(cont, **{tgt: cont[src]})
                        if op == 'textMoveAssign':
                            c[src] = '?'
                        arrive(s, c, 'copy assignment' if 'Copy' in op else 'move assignment')
                for sg, nm in ((('const witness::OptText &', 'int'), 'copy'), (('witness::OptText &&', 'int'), 'move')):
                    for s in D.construct(tgt, sg, [('L', ('o', src)), 0], st.copy()):
                        c = dict(cont, **{tgt: cont[src]})
                        if nm == 'move':
                            c[src] = '?'
                        arrive(s, c, nm + ' construction')
            if cont[tgt] != '?':
                for s, _ in D.call('textCopyAssign', [('L', D.loc(tgt)), ('L', D.loc(tgt))], st.copy()):
                    arrive(s, dict(cont), 'copy self-assignment')
    L.count('optional operations', n[0])
    L.paths += n[0]
    L.ran(I)


def optional_num(L, P):
    D = ValueDriver(L, P, 'witness::OptNum', 'num')
    I = D.I
    for o in ('X', 'Y'):
        I.exact[('o', o)] = D.box
    I.exact[('o', 'W')] = 'witness::OptSmall'
    pos = next((f.p for f in P.fns.values() if f.q.startswith('dap::optional')), None)
    st0 = X.St()
    val = {n: I.load(st0, ('o', n), 'long') for n in ('P', 'Q')}
    mk = {None: ((), lambda a: []), 'v': (('const long &',), lambda a: [('L', ('o', a))])}
    cmp = {'Eq': T.eq, 'Ne': lambda a, b: T.neg(T.eq(a, b)), 'Lt': T.lt, 'Le': T.le,
           'Gt': lambda a, b: T.lt(b, a), 'Ge': lambda a, b: T.le(b, a)}
    rank = {None: 0, 'v': 1}
    for cx in (None, 'v'):
        for s in D.construct('X', mk[cx][0], mk[cx][1]('P'), X.St()):
            for cy in (None, 'v'):
                for s2 in D.construct('Y', mk[cy][0], mk[cy][1]('Q'), s.copy()):
                    for op, f in sorted(cmp.items()):
                        want = f(val['P'], val['Q']) if cx and cy else f(rank[cx], rank[cy])
                        inst = '%s, %s and %s' % ({'Eq': '==', 'Ne': '!=', 'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>='}[op],
                                                  'value' if cx else 'none', 'value' if cy else 'none')
                        L.paths += 1
                        for s3, v in D.value('num' + op, [('L', D.loc('X')), ('L', D.loc('Y'))], s2, 'bool'):
                            L.ob('compare', inst, bverdict(I, s3, v, want) if v != 'abort' else False, pos,
                                 'gives the wrong answer')
    small = {tuple(p['t'] for p in f.params): f for f in P.fns.values() if f.q == 'witness::OptSmall::OptSmall'}
    vi = I.load(X.St(), ('o', 'P'), 'int')
    for c in (None, 'v'):
        st = X.St()
        st.store[('dyn', ('o', 'W'))] = 'witness::OptSmall'
        sg = () if c is None else ('const int &',)
        for s, _ in D.run(small[sg], ('o', 'W'), [] if c is None else [('L', ('o', 'P'))], st):
            for sg2, nm in ((('const dap::optional<int> &', 'char'), 'copy'), (('dap::optional<int> &', 'int'), 'move')):
                if sg2 not in D.ctor:
                    continue
                for s2 in D.construct('X', sg2, [('L', ('f', ('o', 'W'), 'v')), 0], s.copy()):
                    L.paths += 1
                    inst = '%s, %s' % (nm, 'value' if c else 'none')
                    for s3, v in D.value('numHas', [('L', D.loc('X'))], s2, 'bool'):
                        L.ob('convert', inst, bverdict(I, s3, v, int(c is not None)) if v != 'abort' else False, pos, 'presence differs')
                    if c:
                        for s3, v in D.value('numValue', [('L', D.loc('X'))], s2, 'long'):
                            L.ob('convert', inst + ' content', verdict(s3, v, vi) if v != 'abort' else False, pos, 'value differs')
    L.ran(I)


def roe(L, P):
    D = ValueDriver(L, P, 'witness::BoxRoe', 'roe')
    D.fn.update({f.q[len('witness::'):]: f for f in P.fns.values() if f.q.startswith('witness::err')})
    I = D.I
    ST = 'std::string'
    for o in ('X', 'Y'):
        I.exact[('o', o)] = D.box
    I.exact[('o', 'E')] = I.exact[('o', 'F')] = 'dap::Error'
    st0 = X.St()
    emsg = {n: ('f', ('o', n), 'message') for n in ('E', 'F')}
    val = {n: I.load(st0, ('o', n), ST) for n in ('P', 'Q')}
    val.update({n: I.load(st0, emsg[n], ST) for n in ('E', 'F')})
    pos = P.recs.get('dap::ResponseOrError<std::string>', {}).get('p')

    def load(st, n):
        return I.load(st.copy(), emsg[n] if n in emsg else ('o', n), ST)
    seen, todo = set(), []

    def arrive(st, cont, inst, args=()):
        L.paths += 1
        for o in ('X', 'Y'):
            c = cont[o]
            if c == '?':
                continue
            lv = ('L', D.loc(o))
            kind = 'default' if c is None else ('an error' if c in emsg else 'a response')
            msg = val[c] if c in emsg else b''
            for s, v in D.value('roeMessage', [lv], st, ST):
                L.ob('error', '%s: %s' % (inst, kind), verdict(s, v, msg), pos,
                     'the error is lost or altered' if c in emsg else 'holds an error it was not given')
            for s, v in D.value('roeFailed', [lv], st, 'bool'):
                L.ob('failed', '%s: %s' % (inst, kind), bverdict(I, s, v, T.neg(T.eq(T.seqlen(msg), 0))), pos,
                     'the error flag disagrees with the message')
            if c is not None and c not in emsg:
                for s, v in D.value('roeResponse', [lv], st, ST):
                    L.ob('response', '%s: %s' % (inst, kind), verdict(s, v, val[c]), pos, 'the response is lost or altered')
        for a in args:
            L.ob('source', 'response or error, ' + inst, verdict(st, load(st, a), val[a]), pos, 'changes the value it was given')
        k = tuple(sorted(cont.items()))
        if k not in seen:
            seen.add(k)
            todo.append((st, cont))

    def fresh(st):
        for a in val:
            I.put(st, emsg[a] if a in emsg else ('o', a), val[a])
        return st
    for s in D.construct('X', (), [], X.St()):
        for s2 in D.construct('Y', (), [], s):
            arrive(s2, {'X': None, 'Y': None}, 'default construction')
    while todo:
        st, cont = todo.pop(0)
        for tgt, src in (('X', 'Y'), ('Y', 'X')):
            for a in ('P', 'E') if tgt == 'X' else ('Q', 'F'):
                la = ('L', ('o', a))
                what = 'an error' if a in emsg else 'a response'
                ct = 'const dap::Error &' if a in emsg else 'const std::string &'
                rt = 'dap::Error &' if a in emsg else 'std::string &'
                for s, _ in D.call('roeAssignError' if a in emsg else 'roeAssign', [('L', D.loc(tgt)), la], fresh(st.copy())):
                    arrive(s, dict(cont, **{tgt: a}), 'assigning ' + what, (a,))
                for sg, ops, mv in (((ct,), [la], 0), ((rt, 'char'), [la, 0], 1)):
                    for s in D.construct(tgt, sg, ops, fresh(st.copy())):
                        arrive(s, dict(cont, **{tgt: a}), 'construction from ' + what + (' by move' if mv else ''), () if mv else (a,))
            if cont[src] != '?':
                for op in ('roeCopyAssign', 'roeMoveAssign'):
                    for s, _ in D.call(op, [('L', D.loc(tgt)), ('L', D.loc(src))], st.copy()):
                        c = dict(cont, **{tgt: cont[src]})
                        if 'Move' in op:
                            c[src] = '?'
                        arrive(s, c, 'copy assignment' if 'Copy' in op else 'move assignment')
                for sg, nm in ((('const witness::BoxRoe &', 'int'), 'copy'), (('witness::BoxRoe &&', 'int'), 'move')):
                    for s in D.construct(tgt, sg, [('L', ('o', src)), 0], st.copy()):
                        c = dict(cont, **{tgt: cont[src]})
                        if nm == 'move':
                            c[src] = '?'
                        arrive(s, c, nm + ' construction')
            if cont[tgt] != '?':
                for s, _ in D.call('roeCopyAssign', [('L', D.loc(tgt)), ('L', D.loc(tgt))], st.copy()):
                    arrive(s, dict(cont), 'copy self-assignment')
    for s, v in D.value('errFailed', [('L', ('o', 'E'))], X.St(), 'bool'):
        L.ob('failed', 'an error', bverdict(I, s, v, T.neg(T.eq(T.seqlen(val['E']), 0))), pos, 'the error flag disagrees with the message')
    for s, v in D.value('errDefault', [], X.St(), 'bool'):
        L.ob('failed', 'a default error', bverdict(I, s, v, 0), pos, 'a default error is an error')
    L.ran(I)


def compiles(code, backend='nlohmann'):
    """Does the program type-check against /repo's headers?"""
    import subprocess
    r = subprocess.run(['clang++-18', '-fsyntax-only', '-x', 'c++', '-'] + ir.flags(backend), input=code,
                       capture_output=True, text=True)
    return r.returncode == 0, r.stderr


def witnesses(L, rule, head, good, bad, pos):
    """Programs that must be accepted, and programs that must be rejected, by the type system."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        js = [(n, c, True, ex.submit(compiles, head + c)) for n, c in good] + \
             [(n, c, False, ex.submit(compiles, head + c)) for n, c in bad]
        base = start = compiles(head)[0]
        for n, c, want, j in js:
            ok, err = j.result()
            if want:
                base = base and ok
                L.ob(rule, n, True if ok else (False if start else None), pos, 'is not accepted: ' + err.strip().split('\n')[0][:150])
        for n, c, want, j in js:
            ok, err = j.result()
            if not want:
                L.ob(rule, n, (not ok) if base else None, pos, 'is accepted by the compiler')
    L.count('type witnesses', len(js))


def C26(L):
    L.rule('reject', 'a program that gives a variant a type it does not list does not compile')
    L.rule('is', 'a value answers yes exactly for the type stored in it')
    L.rule('get', 'a typed access refers to the stored object')
    L.rule('value', 'the object held is the one given or a copy of it')
    L.rule('accepts', 'a variant accepts exactly its listed types')
    P = program()
    for kind in ('any', 'variant'):
        out = any_explore(L, P, kind)
        for (r, inst), (v, pos, msg) in sorted(out.items(), key=lambda x: (x[0][0], x[0][1])):
            if r in L.rules:
                L.ob(r, kind + ': ' + inst, v, pos, msg)
    I = new_interp(P, setup)
    for f in P.fns.values():
        want = {'witness::acceptsA': 1, 'witness::acceptsB': 1, 'witness::acceptsLong': 0, 'witness::acceptsDerived': 0, 'witness::acceptsBase': 0, 'witness::acceptsOnly': 0,
                'witness::acceptsLast': 1}.get(f.q)
        if want is None:
            continue
        for s, v in I.invoke(f.key, None, [], X.St(), f.p):
            v = I.rv(s, v, 'bool')
            L.ob('accepts', f.q, bool(v) == bool(want) if isinstance(v, int) else None, P.recs[KINDS['variant'][0]]['p'],
                 'accepts<T>() is %s' % bool(v))
    head = '#include "dap/protocol.h"\n#include "dap/session.h"\nusing V = dap::variant<dap::boolean, dap::string>;\n'
    witnesses(L, 'reject', head,
              [('a listed type', 'V f(dap::string s) { V v(s); v = dap::boolean(true); (void)v.get<dap::string>(); return v; }')],
              [('construction from an unlisted type', 'V f(dap::integer i) { return V(i); }'),
               ('assignment of an unlisted type', 'void f(V& v, dap::integer i) { v = i; }'),
               ('assignment of an unlisted array', 'void f(V& v, dap::array<dap::string> i) { v = i; }'),
               ('typed access to an unlisted type', 'void f(V& v) { (void)v.get<dap::integer>(); }'),
               ('construction from a type derived from a listed one',
                'struct S : dap::string {}; namespace dap { template <> struct TypeOf<S> { static const TypeInfo* type(); }; }\n'
                'V f(S s) { return V(s); }'),
               ('assignment of a type derived from a listed one',
                'struct S : dap::string {}; namespace dap { template <> struct TypeOf<S> { static const TypeInfo* type(); }; }\n'
                'void f(V& v, S s) { v = s; }'),
               ('construction from a dynamic value', 'V f(dap::any a) { return V(a); }')],
              P.recs[KINDS['variant'][0]]['p'])
