"""C29: the run-time type descriptions and their registry."""
import os
from common import *
import values
from values import ti, verdict

WIT = os.path.join(VERIF, 'witness', 'types.cpp')
NAMES = {'boolean': 'dap::boolean', 'string': 'std::string', 'integer': 'dap::integer', 'number': 'dap::number',
         'object': 'dap::object', 'any': 'dap::any', 'array': 'array<E>', 'optional': 'optional<E>', 'variant': 'variant<E, F>',
         'base': 'witness::Base', 'derived': 'witness::Derived', 'null': 'dap::null'}
OBJ, SRC, DOC = ('v', ('o', 'obj'), 0, 'p'), ('v', ('o', 'src'), 0, 'p'), ('v', ('o', 'doc'), 0, 'p')


def program():
    return ir.extract(ir.src('typeof.cpp', 'typeinfo.cpp') + [WIT])


def interp(P, nested=False):
    I = new_interp(P, contracts.install)
    I.nojoin = True
    I.baseadj = True
    if nested:
        def typeof(I, st, fr, e, fn, loc, ops):
            q = fn['q']
            return [(st, ti(q[q.index('<') + 1:q.rindex('>')]))]
        I.summ['dap::TypeOf::type'] = typeof
    return I


def fn(P, q):
    return next((f for f in P.fns.values() if f.q == q), None)


def call(L, I, f, ops, st):
    I.steps = 0
    try:
        rs = I.invoke(f.key, None, ops, st, f.p)
    except X.Undecided as e:
        L.note('%s: %s' % (f.q, e))
        rs = []
    L.ran(I, rs)
    return rs


class Desc(object):
    """One description as returned by TypeOf<T>::type()."""

    def __init__(self, L, P, name):
        self.L, self.P, self.name = L, P, name
        self.ask = fn(P, 'witness::type_' + name)
        self.I = interp(P)
        self.rs = [(s, v) for s, v in call(L, self.I, self.ask, [], X.St())]
        self.st = self.ptr = self.cls = None
        if len(self.rs) == 1 and T.is_ptr(self.rs[0][1]):
            self.st, self.ptr = self.rs[0]
            self.cls = self.I.dyntype(self.st, self.ptr[1]) or M.type_of_loc(self.I, self.st, self.ptr[1])
            if self.cls not in P.recs or not P.derives(self.cls, 'dap::TypeInfo') or self.cls == 'dap::TypeInfo':
                self.cls = None
        r = P.recs.get(self.cls or '')
        self.pos = r['p'] if r else self.ask.p

    def method(self, name, ops):
        """[(state, return value, events)] of a call of the method on this description."""
        P = self.P
        m = next((m for m in P.recs['dap::TypeInfo']['methods'] if m['n'] == name), None)
        k = P.overrider(self.cls, m['key']) if m else None
        if k is None or k not in P.fns:
            return None, None
        I = interp(P, nested=True)
        I.uid = 10 ** 6
        f = P.fns[k]
        try:
            rs = I.invoke(k, self.ptr[1], ops, self.st.copy(), f.p)
        except X.Undecided as e:
            self.L.note('%s: %s' % (f.q, e))
            return None, f
        self.L.ran(I, rs)
        return [(I, s, v, list(flat(s.events(self.st.trace)))) for s, v in rs], f

    def reference(self, kind, ops):
        f = fn(self.P, 'witness::%s_%s' % (kind, self.name))
        if f is None:
            return None
        I = interp(self.P, nested=True)
        try:
            rs = I.invoke(f.key, None, ops, X.St(), f.p)
        except X.Undecided:
            return None
        return [(I, s, v, list(flat(s.events()))) for s, v in rs]


def addr(p):
    """The address as a number relative to the object."""
    if T.is_ptr(p):
        l, off = p[1], 0
        while l[0] == 'e' and isinstance(l[2], (int, tuple)):
            off = T.add(off, l[2])
            l = l[1]
        if l[0] == 'd':
            return T.add(l[1], off)
    return p


def at_obj(x, want=OBJ):
    """Is the address the object's own?"""
    if x == want:
        return True
    if T.is_ptr(x) and x[1] == ('d', want):
        return True
    return False


def C29(L):
    L.rule('size', 'size and alignment are those of the described type')
    L.rule('construct', 'construct builds one object of the described type at the address given')
    L.rule('copy', 'copyConstruct builds one object of the described type, a copy of the source')
    L.rule('destruct', 'destruct ends one object of the described type')
    L.rule('decode', 'deserialize decodes an object of the described type at the address given, and returns that result')
    L.rule('encode', 'serialize encodes the object of the described type at the address given, and returns that result')
    L.rule('fields', 'a structure description visits every field once, base fields included, at its own offset with its own description')
    L.rule('field-failure', 'a structure description fails if any field fails, and only then')
    L.rule('once', 'a description is created once: a second request returns the same object')
    L.rule('thread-safe', 'descriptions are created inside a thread-safe static initialisation or under a lock')
    L.rule('registered', 'every description created is handed to the registry once, under its lock')
    L.rule('outlives', 'no description is destroyed by the end of the program while the library is still initialised')
    L.rule('storage', 'the registry is built in storage large and aligned enough for it')
    L.rule('count', 'initialize adds one reference, terminate and program exit release one, and the last release destroys the registry')
    P = program()
    ds = {}
    for n in sorted(NAMES):
        if fn(P, 'witness::type_' + n) is None:
            continue
        d = ds[n] = Desc(L, P, n)
        L.count('descriptions')
        if d.cls is None:
            L.ob('construct', NAMES[n], None, d.pos, 'the description returned is not known')
            continue
        shape(L, d)
        creation(L, P, d)
        if n in ('base', 'derived'):
            struct(L, P, d)
        else:
            coding(L, d)
    lifetime(L, P, ds)


def const(P, name):
    f = fn(P, 'witness::' + name)
    rs = interp(P).invoke(f.key, None, [], X.St(), f.p)
    return rs[0][1] if len(rs) == 1 and isinstance(rs[0][1], int) else None


def described(P, name):
    """The exact type, from the witness's own placement new."""
    f = fn(P, 'witness::make_' + name)
    rs = interp(P).invoke(f.key, None, params(f), X.St(), f.p)
    ev = [e for e in rs[0][0].events() if e[0] == 'placenew']
    return ev[0][4]


def shape(L, d):
    P, n = d.P, NAMES[d.name]
    for m, w in (('size', 'size_'), ('alignment', 'align_')):
        rs, f = d.method(m, [])
        want = const(P, w + d.name)
        for I, s, v, evs in rs or ():
            L.ob('size', '%s %s' % (n, m), v == want if isinstance(v, int) and want is not None else None, f.p,
                 'returns %s, the type has %s' % (v, want))
    T0 = described(P, d.name)
    rs, f = d.method('construct', [OBJ])
    for I, s, v, evs in rs or ():
        made(L, 'construct', n, f, s, evs, T0, {})
    rs, f = d.method('copyConstruct', [OBJ, SRC])
    for I, s, v, evs in rs or ():
        if made(L, 'copy', n, f, s, evs, T0, {}):
            a, b = ('d', OBJ), ('d', SRC)
            rec = P.recs.get(T0)
            vs = []
            for fl in (rec['fields'] if rec and rec.get('in') else ()):
                t = fl['t']
                if P.recs.get(X.noref(t), {}).get('in') or '[' in t:
                    continue
                vs.append(verdict(s, I.load(s, ('f', a, fl['n']), t), I.load(s.copy(), ('f', b, fl['n']), t)))
            if not rec or not rec.get('in'):
                vs = [verdict(s, I.load(s, a, T0), I.load(s.copy(), b, T0))]
            if d.name not in ('any', 'variant', 'optional', 'null', 'base', 'derived') and vs:
                L.ob('copy', n + ': value', False if False in vs else (None if None in vs else True), f.p,
                     'the object built is not a copy of the source')
            src = any(e[0] in ('memcpy', 'memset') and at_obj(e[3], SRC) for e in evs)
            if src:
                L.ob('copy', n + ': source', False, f.p, 'the source is written to')
    rs, f = d.method('destruct', [OBJ])
    for I, s, v, evs in rs or ():
        xs = [e for e in evs if e[0] == 'xdtor' and under_obj(e[3])]
        if P.recs.get(T0) is None and T0 in ('std::nullptr_t',):
            L.ob('destruct', n, not xs, f.p)
            continue
        first = [e for e in xs if e[3] == ('d', OBJ)]
        ok = len(first) == 1 and first[0][4] == T0
        free = [e for e in evs if e[0] == 'free' and at_obj(e[3])]
        if free:
            L.ob('destruct', n, False, free[0][1], 'frees storage it does not own')
        else:
            L.ob('destruct', n, ok or (None if s.notes else False), f.p,
                 'destroys %s, not the object' % (', '.join(e[4] for e in first) or 'nothing'))


def under_obj(loc):
    while isinstance(loc, tuple) and loc and loc[0] in ('f', 'e'):
        loc = loc[1]
    return loc == ('d', OBJ)


def made(L, rule, n, f, s, evs, T0, opt):
    ps = [e for e in evs if e[0] == 'placenew' and (at_obj(e[3]) or at_obj(e[3], SRC))]
    ps = [e for e in ps if e[4] == T0 or len(ps) == 1] or ps
    if len(ps) != 1:
        L.ob(rule, n, None if s.notes else False, f.p, 'builds %d objects' % len(ps))
        return False
    e = ps[0]
    ok = e[4] == T0 and at_obj(e[3])
    L.ob(rule, n, ok, e[1], 'builds a %s%s' % (e[4], '' if at_obj(e[3]) else ' somewhere else'))
    return ok


def summary(evs, I, s, v, kind):
    """What a (de)serialisation did, for comparison."""
    def norm(p):
        l = p[1] if T.is_ptr(p) else None
        while isinstance(l, tuple) and l and l[0] in ('f', 'e'):
            l = l[1]
        return 'local' if l and l[0] in ('v', 't') else p
    out = []
    for e in evs:
        e = tuple(norm(x) if isinstance(x, tuple) and i > 3 else x for i, x in enumerate(e))
        if e[0] == 'deser':
            out.append(('deser', e[4], e[5], e[6]))
        elif e[0] == 'tideser':
            out.append(('tideser', e[3], e[4], e[6]))
        elif e[0] == 'tiser':
            out.append(('tiser', e[3], e[4], e[5]))
        elif e[0] in ('darray', 'reserve'):
            out.append((e[0],) + tuple(e[3:4]))
        elif e[0] == 'serobj':
            out.append(('serobj', e[4]))
    c = contracts.content(I, s, ('d', DOC)) if kind == 'write' else None
    if isinstance(c, tuple) and c and c[0] in ('jarr',):
        c = ('jarr',)
    return tuple(out), c


def coding(L, d):
    n = NAMES[d.name]
    if d.name == 'null':
        return
    for kind, m, rule, ops in (('read', 'deserialize', 'decode', [DOC, OBJ]), ('write', 'serialize', 'encode', [DOC, OBJ])):
        rs, f = d.method(m, ops)
        f2 = fn(d.P, 'witness::%s_%s' % (kind, d.name))
        ref = d.reference(kind, [DOC, OBJ])
        if rs is None or ref is None or f2 is None:
            L.ob(rule, n, None, d.pos, 'not analysed')
            continue
        got = {summary(e, I, s, v, kind) for I, s, v, e in rs}
        want = {summary(e, I, s, v, kind) for I, s, v, e in ref}
        notes = any(s.notes for _, s, _, _ in rs)
        if got == want:
            L.ob(rule, n, True, f.p)
        else:
            # definite only when the object or the type coded differs
            g = {x[1:3] for y, c in got for x in y if x[0] in ('deser', 'tideser', 'tiser')} | {c for y, c in got}
            w = {x[1:3] for y, c in want for x in y if x[0] in ('deser', 'tideser', 'tiser')} | {c for y, c in want}
            L.ob(rule, n, False if g != w and not notes else None, f.p, 'does not code the object as its own type')
        # the result is passed on
        for I, s, v, evs in rs:
            fails = [e for e in evs if e[0] == 'deser' and e[6] is False or e[0] in ('tideser', 'tiser') and e[-1] is False]
            r = s.facts.decide(v) if not isinstance(v, int) else bool(v)
            if d.name == 'optional' and kind == 'read':
                continue
            if fails:
                L.ob(rule, n + ': result', r is False or (None if s.notes else r is False), f.p, 'reports success although coding failed')
            elif d.name in ('boolean', 'integer', 'number', 'string', 'object', 'any') or any(e[0] in ('tideser', 'tiser') for e in evs):
                L.ob(rule, n + ': result', r is True or (None if s.notes or r is None else False), f.p, 'reports failure although coding succeeded')


def offsets(P, rec, base=0):
    """{(wire, type): offset} of the members of a witness structure, described bases included."""
    out = {}
    r = P.recs[rec]
    for b in r['bases']:
        if b['k'] == 'witness::Base':
            out.update(offsets(P, b['k'], base + b['off']))
    for f in r['fields']:
        out[(f['n'].encode(), X.noref(f['t']))] = base + f['off']
    return out


def struct(L, P, d):
    n = NAMES[d.name]
    want = {(ti(t), T.add(OBJ, off)): w for (w, t), off in offsets(P, n).items()}
    for m, rule in (('serialize', 'tiser'), ('deserialize', 'tideser')):
        rs, f = d.method(m, [DOC, OBJ])
        if rs is None:
            L.ob('fields', '%s %s' % (n, m), None, d.pos, 'not analysed')
            continue
        good = 0
        for I, s, v, evs in rs:
            evs = [e[:4] + (addr(e[4]),) + e[5:] if e[0] == rule else e for e in evs]
            vis = [e for e in evs if e[0] == rule]
            r = s.facts.decide(v) if not isinstance(v, int) else bool(v)
            for e in vis:
                ok = (e[3], e[4]) in want
                at = ', '.join('%s' % w.decode() for (t, p), w in want.items() if t == e[3])
                L.ob('fields', '%s %s: field visited' % (n, m), ok, f.p, 'visits a field at an address that is not its own (%s)' % show(e[4]))
            failed = any(e[-1] is False for e in vis)
            absent = [e for e in evs if e[0] == 'dfield' and e[5] == 'notobj']
            if failed:
                L.ob('field-failure', '%s %s' % (n, m), r is False or (None if r is None else False), f.p, 'reports success although a field failed')
                continue
            if absent:
                continue
            if r is True:
                good += 1
                c = {}
                for e in vis:
                    c[(e[3], e[4])] = c.get((e[3], e[4]), 0) + 1
                for k, w in want.items():
                    L.ob('fields', '%s %s: %s' % (n, m, w.decode()), c.get(k, 0) == 1 or (None if s.notes else False), f.p,
                         'the field is visited %d times' % c.get(k, 0))
                # under its own name
                if rule == 'tiser':
                    o = [e for e in evs if e[0] == 'serobj']
                    if len(o) == 1 and isinstance(o[0][3], tuple):
                        for nm, x in o[0][3][1:]:
                            if x and x[0] == 'ti':
                                L.ob('fields', '%s %s: name' % (n, m), want.get((x[1], addr(x[2]))) == nm, f.p, 'a field is encoded under the name %s' % nm)
                else:
                    seq = [e for e in evs if e[0] in ('dfield', 'tideser')]
                    for a, b in zip(seq, seq[1:]):
                        if a[0] == 'dfield' and b[0] == 'tideser' and (b[3], b[4]) in want:
                            L.ob('fields', '%s %s: name' % (n, m), want[(b[3], b[4])] == a[4], f.p, 'a field is decoded from the name %s' % a[4])
            elif r is False:
                L.ob('field-failure', '%s %s' % (n, m), None if s.notes else False, f.p, 'reports failure although no field failed')
        if not good:
            L.ob('fields', '%s %s' % (n, m), None, f.p, 'no path on which every field succeeds was found')


def creation(L, P, d):
    n = NAMES[d.name]
    # asked again
    rs = call(L, d.I, d.ask, [], d.st.copy())
    if len(rs) != 1:
        L.ob('once', n, None, d.pos, 'not analysed')
    else:
        s, v = rs[0]
        news = [e for e in flat(s.events(d.st.trace)) if e[0] in ('new', 'placenew')]
        L.ob('once', n, (v == d.ptr and not news) or (None if s.notes else False), news[0][1] if news else d.ask.p,
             'a second request creates or returns another description')
    # where it is created
    depth, evs = 0, list(flat(d.st.events()))
    atomics = any(e[0] in ('acas', 'axchg', 'once') for e in evs)
    regs = []
    own = set()
    for e in evs:
        if e[0] == 'static':
            depth += 1
            if not any(x[0] == 'staticend' and x[3] == e[4] for x in evs):
                depth -= 1
        elif e[0] == 'staticend':
            depth -= 1
        elif e[0] in ('new', 'placenew') and isinstance(e[4], str) and e[4] in P.recs and (e[0] == 'placenew' or P.derives(e[4], 'dap::TypeInfo')):
            ok = depth > 0 or bool(e[2])
            L.ob('thread-safe', n, ok or (None if atomics else False), e[1], 'created without any protection against another thread doing the same')
            if e[0] == 'placenew':
                storage(L, P, d, e)
        elif e[0] == 'spown' and e[3] == d.ptr:
            own.add(d.ptr)
        elif e[0] in ('cpush', 'cpushf', 'cinsert', 'mput', 'mkeep') and d.ptr in e[4:]:
            regs.append(e)
    if d.ptr[1][0] == 'h':
        if len(regs) != 1:
            L.ob('registered', n, None if d.st.notes else False, d.pos, 'entered into the registry %d times: destroyed as often' % len(regs))
        else:
            e = regs[0]
            L.ob('registered', n, bool(e[2]) or (None if atomics else False), e[1], 'entered into the registry without a lock')
            ct = M.type_of_loc(d.I, d.st, e[3]) or ''
            owned = d.ptr in own or 'unique_ptr' in ct or 'shared_ptr' in ct
            L.ob('registered', n + ': owned', owned or None, e[1], 'the registry does not own it')
    # the object's own storage
    loc = d.ptr[1]
    while loc[0] in ('f', 'e'):
        loc = loc[1]
    if loc[0] == 'g':
        st_ev = next((e for e in evs if e[0] == 'static' and e[4] == loc), None)
        t = st_ev[5] if st_ev else None
        if t is None:
            L.ob('outlives', n, None, d.pos, 'the storage it lives in is not known')
        else:
            L.ob('outlives', n, not nontrivial(P, t), st_ev[1],
                 'a static object with a destructor: gone at program exit although initialize() may still hold the library')
    else:
        L.ob('outlives', n, True, d.pos)


def nontrivial(P, t, depth=0):
    """Does destroying an object of type t run code?"""
    r = P.recs.get(X.noref(t))
    if r is None:
        return t.startswith('std::') and not t.startswith('std::atomic')
    if r.get('dtor') and not r.get('dtordef') and r['dtor'] in P.fns:
        return True
    if r.get('poly') and r.get('dtor'):
        return True
    if depth > 6:
        return False
    return any(nontrivial(P, f['t'], depth + 1) for f in r['fields'] if not X.is_ref(f['t']) and not X.is_pointer(f['t'])) or \
        any(nontrivial(P, b['k'], depth + 1) for b in r['bases'])


def storage(L, P, d, e):
    p, t = e[3], e[4]
    r = P.recs.get(t)
    if not T.is_ptr(p) or not r or 'size' not in r:
        return
    loc = p[1]
    off = 0
    if loc[0] == 'e':
        off = loc[2] if isinstance(loc[2], int) else None
        loc = loc[1]
    while loc[0] == 'f':
        loc = loc[1]
    if loc[0] != 'g' or off is None:
        return
    se = next((x for x in flat(d.st.events()) if x[0] == 'static' and x[4] == loc), None)
    s = P.recs.get(se[5]) if se else None
    if s and 'size' in s:
        L.ob('storage', t, s['size'] - off >= r['size'] and s['align'] >= r['align'], se[1],
             '%d bytes aligned to %d for an object of %d bytes aligned to %d' % (s['size'], s['align'], r['size'], r['align']))


def lifetime(L, P, ds):
    d = next((ds[n] for n in ('boolean', 'string', 'integer') if n in ds and ds[n].cls), None)
    ini, ter = fn(P, 'dap::initialize'), fn(P, 'dap::terminate')
    if d is None or ini is None or ter is None:
        return
    I, st = d.I, d.st
    reg = next((e for e in flat(st.events()) if e[0] == 'placenew'), None) or \
        next((e for e in flat(st.events()) if e[0] == 'new' and e[4] in P.recs), None)
    if reg is None:
        L.ob('count', 'registry', None, ini.p, 'the registry is not known')
        return
    rloc = reg[3][1] if T.is_ptr(reg[3]) else None

    def destroys(evs):
        return [e for e in evs if e[0] == 'xdtor' and e[3] == rloc or e[0] == 'free' and T.is_ptr(e[3]) and e[3][1] == rloc]

    def adds(evs, st=None):
        return [e for e in evs if e[0] == 'aadd']
    # initialize
    A = None
    runs = []
    for s, v in call(L, I, ini, [], st.copy()):
        runs.append((s, st))
        runs += [(s2, s) for s2, _ in call(L, I, ini, [], s.copy())]     # again: nested
    for s, st_from in runs:
        evs = list(flat(s.events(st_from.trace)))
        if any(e[0] == 'abort' for e in evs):
            continue
        a = adds(evs)
        und = s.notes or not a and any(e[0] in ('acq', 'acas', 'axchg', 'set') for e in evs)
        L.ob('count', 'initialize', (len(a) == 1 and a[0][4] == 1) or (None if und else False), a[0][1] if a else ini.p,
             'initialize does not add exactly one reference')
        L.ob('count', 'initialize: keeps', not destroys(evs), ini.p, 'initialize destroys the registry')
        if len(a) == 1:
            A = a[0][3]
        st_ = [e for e in evs if e[0] in ('astore', 'axchg') and e[3] == A]
        if st_:
            L.ob('count', 'initialize', False, st_[0][1], 'the count is overwritten')

    def release(what, evs, s, pos):
        a = [e for e in adds(evs) if A is None or e[3] == A]
        if len(a) != 1:
            und = s.notes or any(e[0] in ('acq', 'acas', 'axchg', 'set') for e in evs)
            L.ob('count', what, None if und else False, pos, '%s releases %d references' % (what, len(a)))
            return
        L.ob('count', what, a[0][4] == -1, a[0][1], 'changes the count by %s' % show(a[0][4]))
        old = a[0][5]
        last = s.facts.decide(T.eq(old, 1))
        de = destroys(evs)
        if de:
            L.ob('count', what + ': last', (s.facts.decide(T.le(old, 1)) is True and len(de) == 1) or (None if s.notes else False), de[0][1],
                 'the registry is destroyed although the release was not the last one, or more than once')
            i = evs.index(de[0])
            late = [e for e in evs[i + 1:] if e[0] in ('aload', 'aadd', 'astore') and T.under(e[3], rloc)]
            L.ob('count', what + ': after', not late, late[0][1] if late else pos, 'the registry is used after it was destroyed')
        else:
            L.ob('count', what + ': last', last is False or (None if s.notes else False), a[0][1],
                 'the last release does not destroy the registry')
    for s, v in call(L, I, ter, [], st.copy()):
        release('terminate', list(flat(s.events(st.trace))), s, ter.p)
        if not destroys(list(flat(s.events(st.trace)))):
            for s2, _ in call(L, I, ter, [], s.copy()):
                release('terminate', list(flat(s2.events(s.trace))), s2, ter.p)
    # program exit: the destructors of the static objects
    n = 0
    for e in flat(st.events()):
        if e[0] == 'static' and e[5] in P.recs and nontrivial(P, e[5]):
            rs = I.destroy(st.copy(), e[4], e[5], e[1])
            if any(adds(flat(s.events(st.trace))) or destroys(list(flat(s.events(st.trace)))) for s in rs):
                n += 1
                for s in rs:
                    release('program exit', list(flat(s.events(st.trace))), s, e[1])
    if A is not None:
        init = st.store.get(A)
        init = I.load(st.copy(), A, 'unsigned long') if init is None else init
        while isinstance(init, tuple) and init and init[0] == 'rec' and init[2]:
            init = init[2][0][1]
        L.ob('count', 'initial', init == n if isinstance(init, int) else None, reg[1],
             'the count starts at %s, and program exit releases %d' % (show(init), n))
