"""Abstract interpretation of the frame reader over a ghost input stream.

S is the sequence of all bytes the stream will ever deliver. A byte container
that holds received bytes is represented as a slice of S, and the ghost counter R
says how many bytes were received. At loop heads the slice bounds and R are
widened together (a container that ended at R before and after every iteration
ends at R at the head), and counters that move in step with R are linked to it;
both conjectures are checked on every back edge.

Events: rd(dst, n, got, cap)  bytes asked of the stream
        eat(a, d, values, mismatches, vague)  d bytes removed from the front at index a
        res(n, verdict)  memory set aside for n elements
        lstep((loc, entry, head, back), ...)  effect of an iteration on integers
"""
import terms as T
import interp as X
import models as M
from terms import add, sub, eq, le, lt, scale, seqlen, mkseq, parts_of

S = ('v', ('o', 'stream'), 0, 'o')
RLOC = ('o', '#received')
FLOC = ('o', '#front')
ELOC = ('o', '#ended')            # a read returned 0: the stream has ended for good
T.tid(RLOC)                       # widened before anything that is linked to them
T.tid(FLOC)
HEADER = b'Content-Length:'
CRLF2 = b'\r\n\r\n'
DIGITS = frozenset(b'0123456789')
ALPHABET = sorted(set(HEADER + CRLF2 + b' \t\0') | DIGITS)


def one_slice(v):
    """(start, length) of a slice of S, the empty one without a start."""
    ps = parts_of(v) if not isinstance(v, int) else ()
    if v == b'':
        return (None, 0)
    if len(ps) == 1 and ps[0][0] == 'sl' and ps[0][1] == S:
        return ps[0][2], ps[0][3]
    return None


class FInterp(X.Interp):
    MAXSTEPS = 250000
    bufs = ()

    def __init__(self, P):
        X.Interp.__init__(self, P)
        self.lib_call = lib_call
        self.__dict__.pop('alloc', None)
        self.lengths = set()       # head values of loop variables that iterations multiply
        self.icalls['dap::Reader::read'] = reader_read
        self.loops = []
        self.unlinked = set()
        self.head_hook, self.back_hook = head, back
        self.headof = {}
        self.windows = set()       # values of containers at loop heads: all that was received and not removed
        self.vtypes = {}
        self.pos = None
        self.dropped = []          # events of paths that were joined with others

    def declare(self, v, st, fr):
        self.vtypes[('v', fr.fid, v['d'])] = v['t']
        return X.Interp.declare(self, v, st, fr)

    def arith(self, st, op, l, r, e):
        if op in ('/', '%') and isinstance(r, int) and r > 0 and not isinstance(l, int) and number(l) \
                and st.facts.decide(le(0, l)) is True:
            q = self.fresh('q', 'u')
            st.facts.assume(le(scale(q, r), l), True)
            st.facts.assume(le(l, add(scale(q, r), r - 1)), True)
            return q if op == '/' else sub(l, scale(q, r))
        return X.Interp.arith(self, st, op, l, r, e)

    def alloc(self, st, pos, n, isbuf=False):
        have = 0
        for b in self.bufs:
            v = st.store.get(b)
            if v is not None and not isinstance(v, int):
                have = add(have, seqlen(v))
        st.ev('res', pos, n, st.facts.decide(le(n, have)), isbuf)

    # -- the container ------------------------------------------------------------
    def put(self, st, loc, v):
        if loc in self.bufs:
            self.moved(st, loc, st.store.get(loc), v)
        X.Interp.put(self, st, loc, v)

    def moved(self, st, loc, old, new):
        a = one_slice(old) if old is not None else None
        b = one_slice(new)
        if a is None or b is None:
            if a is not None and new is not None:
                st.ev('mess', self.pos, loc, new, beyond(self, st, new))
            return
        starta = st.store.get(FLOC, 0)
        startb = b[0] if b[0] is not None else add(starta, a[1]) if a[0] is not None else starta
        d = sub(startb, starta)
        if d == 0:
            return
        if not isinstance(d, int):
            n = next((m for m in (1, 2, 4, 15) if st.facts.decide(eq(d, m)) is True), None)
            d = n if n is not None else d
        n = d if isinstance(d, int) and 0 < d <= 64 else None
        vals = tuple(value_at(st, add(starta, i)) for i in range(n)) if n else None
        miss = tuple(mismatch(st, add(starta, i), HEADER) for i in range(n)) if n else None
        st.store[FLOC] = startb
        flush = None
        if n is None and sub(startb, st.store.get(RLOC, 0)) == 0 and not st.store.get(ELOC):
            flush = possible(self, st, le(64, d))
        if n is None and not flush and partial(st, starta, d):
            flush = 'partial'
        st.ev('eat', self.pos, starta, d, vals, miss, self.vague(st), flush)

    def vague(self, st):
        """Are there facts about received bytes that value_at and mismatch do not see?"""
        return 'vague' in st.notes or any(vague_fact(k) for k in st.facts.truth)

    # -- calls --------------------------------------------------------------------
    def invoke(self, key, this, args, st, pos, retloc=None, caps=None, clo=None):
        mark = self.uid
        r0, ntrace = st.store.get(RLOC), st.trace
        vals = [x for x in args if number(x)]
        front0 = st.store.get(FLOC, 0)
        rs = X.Interp.invoke(self, key, this, args, st, pos, retloc, caps, clo)
        return self.merge(rs, mark, r0, ntrace, vals, front0, this)

    def merge(self, rs, mark, r0, base, vals, front0, this):
        """Results that differ only in how many bytes were received ahead, in which
        byte of a class was consumed, or in why no header starts here."""
        if len(rs) < 2:
            return rs
        if all(s.store.get(RLOC) == r0 for s, _ in rs) and this not in [b[1] for b in self.bufs]:
            return rs
        groups, out = {}, []
        for s, v in rs:
            evs = s.events(base)
            if not all(fit(s, b) for b in self.bufs) or not number(v):
                out.append((s, v))
                continue
            kept = frozenset((k, x) for k, x in s.store.items() if k != RLOC and k not in self.bufs and not dead(k, mark)
                             and self.hashable(x))
            front = s.store.get(FLOC, 0)
            w = v
            if front != front0 and isinstance(v, int) and v and s.facts.decide(eq(('at', S, sub(front, 1)), v)) is True:
                w = ('at', S, sub(front, 1))
            groups.setdefault((w, kept, s.cleanup, s.temps, s.locks, shape(evs)), []).append((s, evs, v))
        for (w, kept, _, _, _, _), g in groups.items():
            if len(g) == 1:
                out.append((g[0][0], g[0][2]))
                continue
            out.append(self.fuse(g, w if len(set(x[2] for x in g)) > 1 else g[0][2], r0, base, vals))
        return out

    def fuse(self, g, v, r0, base, vals):
        big = max(g, key=lambda x: len(x[1]))
        s = big[0].copy()
        first = g[0][0].facts
        f = T.Facts()
        f.cons = tuple(c for c in first.cons if all(
            c in x[0].facts.cons or x[0].facts.entails_le(T.mk(c[0], dict(c[1]))) for x in g[1:]))
        f.truth = {k: t for k, t in first.truth.items() if all(x[0].facts.truth.get(k) == t for x in g[1:])}
        front = s.store.get(FLOC, 0)
        seen = 0
        for pat in (HEADER, CRLF2):
            if all(mismatch(x[0], front, pat) is not None for x in g):
                f.assume(differs(front, pat), False)
                seen = max(seen, len(pat))
        c0 = ('at', S, front)
        for u in ALPHABET:
            if all(x[0].facts.decide(eq(c0, u)) is False for x in g):
                f.assume(eq(c0, u), False)
        for i in (-1, 0):
            at = add(front, i)
            cs = [value_at(x[0], at) for x in g]
            if all(c is not None for c in cs):
                c = frozenset().union(*cs)
                f.truth[('#in', at)] = c
                f.assume(le(min(c), ('at', S, at)), True)
                f.assume(le(('at', S, at), max(c)), True)
        rs = [x[0].store.get(RLOC, 0) for x in g]
        if len(set(rs)) > 1:
            r = self.fresh('received', 'u')
            m = 0
            while m < 40 and all(x[0].facts.decide(le(add(front, m + 1), x[0].store[RLOC])) is True for x in g):
                m += 1
            f.assume(le(r0, r), True)
            f.assume(le(add(front, m), r), True)
            # what every path knows of the number of bytes received
            for x, rx in zip(g, rs):
                if not (isinstance(rx, tuple) and rx[0] in ('sym', 'v')):
                    continue
                for c in x[0].facts.cons:
                    d = dict(c[1])
                    k = d.pop(rx, 0)
                    if k and all(y[0].facts.entails_le(add(T.mk(c[0], d), scale(ry, k))) for y, ry in zip(g, rs)):
                        f.assume(le(add(T.mk(c[0], d), scale(r, k)), 0), True)
            for w in vals:
                if not isinstance(w, int) and all(
                        x[0].facts.decide(le(add(front, w), x[0].store[RLOC])) is True for x in g):
                    f.assume(le(add(front, w), r), True)
            s.store[RLOC] = r
        for b in self.bufs:
            self.put_raw(s, b, mkseq([('sl', S, front, sub(s.store.get(RLOC, 0), front))]))
        s.facts = f
        covered = {add(front, i) for i in range(-1, max(seen, 1))}
        for x in g:
            lost = [c for c in x[0].facts.cons if c not in f.cons] + [k for k in x[0].facts.truth if k not in f.truth]
            if any(bytes_in(c) - covered for c in lost):
                s.notes = s.notes | {'vague'}
            if any(has_length(self, c) for c in lost):
                s.notes = s.notes | {'lost'}
            s.notes = s.notes | x[0].notes
            if x is not big:
                self.dropped.append(x[1])
        # the events, with what is known of the consumed bytes on every path
        eats = [[e for e in x[1] if e[0] == 'eat'] for x in g]
        s.trace, n = base, 0
        for e in big[1]:
            if e[0] == 'eat':
                es = [x[n] for x in eats]
                n += 1
                vs = mm = None
                if all(y[5] for y in es):
                    vs = tuple(None if None in c else frozenset().union(*c) for c in zip(*[y[5] for y in es]))
                    mm = tuple(None if None in c else c[0] for c in zip(*[y[6] for y in es]))
                e = e[:5] + (vs, mm, any(y[7] for y in es), e[8])
            s.trace = (s.trace, e)
        return s, v

    # -- loops ----------------------------------------------------------------------
    def generic_loop(self, s, st0, fr):
        self.loops.append(st0)
        try:
            return X.Interp.generic_loop(self, s, st0, fr)
        finally:
            self.loops.pop()

    def havoc_loc(self, st, k, old, news, sorts):
        if k == RLOC:
            r = self.fresh('received', 'u')
            st.facts.assume(le(old, r), True)
            st.store[k] = r
            return r
        if k == ELOC:
            st.store.pop(k, None)
            return None
        if k == FLOC:
            a = self.fresh('front', 'u')
            st.facts.assume(le(old, a), True)
            st.facts.assume(le(a, st.store.get(RLOC, 0)), True)
            st.store[k] = a
            return a
        if k in self.bufs and old is not None:
            st0 = self.loops[-1].store if self.loops else st.store
            r0, a0 = st0.get(RLOC, 0), st0.get(FLOC, 0)
            r, a = st.store.get(RLOC, 0), st.store.get(FLOC, 0)
            if one_slice(old) is not None and (r != r0 or a != a0) and fit(self.loops[-1], k):
                v = mkseq([('sl', S, a, sub(r, a))])
                self.windows.add(v)
                self.put_raw(st, k, v)
                return v
        return X.Interp.havoc_loc(self, st, k, old, news, sorts)

    def put_raw(self, st, k, v):
        if v in self.windows:
            a, r = st.store.get(FLOC, 0), st.store.get(RLOC, 0)
            v = mkseq([('sl', S, a, sub(r, a))])
        X.Interp.put_raw(self, st, k, v)

    def link_written(self, st0, h, k, old, heads, links, nolink):
        hs = heads.get(k)
        if k == FLOC:
            return
        if heads.get(RLOC) is not None and k != RLOC and isinstance(hs, tuple) and hs[0] == 'sym' and hs[3] in ('u', 'i') \
                and old is not None and not T.opaque_value(old):
            sign = {0: -1, 1: 1}.get(nolink.get(k, 0))
            if sign is None:
                self.unlinked.add(k)
                return
            r0 = st0.store.get(RLOC, 0)
            c = sub(old, scale(r0, sign))
            x = add(c, scale(heads[RLOC], sign))
            self.put_raw(h, k, x)
            heads[k] = x
            links[k] = (RLOC, c, sign, False)
            if ('nn', k) not in nolink and st0.facts.decide(le(0, old)) is True:
                h.facts.assume(le(0, x), True)
                links[k] += (True,)
            return
        X.Interp.link_written(self, st0, h, k, old, heads, links, nolink)

    def link_holds(self, b, k, link):
        if link[0] == RLOC:
            c, sign = link[1], link[2]
            v = b.store.get(k)
            if v is None or T.opaque_value(v):
                return False
            d = sub(v, add(c, scale(b.store[RLOC], sign)))
            return d == 0 or b.facts.decide(eq(d, 0)) is True
        return X.Interp.link_holds(self, b, k, link)


def head(I, s, st):
    I.headof[id(s)] = dict(st.store)


def back(I, s, st):
    """The effect of an iteration on integers."""
    entry = I.loops[-1].store if I.loops else {}
    rows = []
    for k, h in I.headof.get(id(s), {}).items():
        v = st.store.get(k)
        if v is None or v == h or k[0] not in ('v', 'f', 'o', 't') or not number(h) or not number(v):
            continue
        if isinstance(h, (int, tuple)) and not T.opaque_value(h) and isinstance(v, (int, tuple)) and not T.opaque_value(v):
            ok = st.facts.decide(le(v, 2 ** 64 - 1))
            rows.append((k, entry.get(k), h, v, ok if ok is not None else wraps(I, st, h, v)))
            if T.is_lin(v) and isinstance(h, tuple) and h[0] == 'sym' and abs(T.lin(v)[1].get(h, 0)) > 1:
                I.lengths.add(h)
    for k in I.bufs:
        hd = I.headof.get(id(s), {})
        if hd.get(RLOC) != st.store.get(RLOC) or hd.get(FLOC) != st.store.get(FLOC):
            st.ev('fit', s['p'], k, fit(st, k), st.store.get(k))
    st.ev('lstep', s['p'], tuple(sorted(rows, key=str)))


def dead(k, mark):
    """Local to a call that has returned?"""
    while isinstance(k, tuple) and k and k[0] in ('f', 'e', 'm', 'wl', 'ep', 'cstr', 'dyn', 'elt', 'x', 'init', 'mhas'):
        k = k[1]
    return isinstance(k, tuple) and k[0] in ('v', 't') and isinstance(k[1], int) and k[1] >= mark


LOUD = ('eat', 'icall', 'ucall', 'res', 'mess', 'maybe_empty', 'maybe_oob', 'lib', 'opaque', 'reccall', 'varcall',
        'throw', 'abort', 'nullderef')


def quiet(evs):
    """Nothing but receiving happened."""
    return not shape(evs)


def shape(evs):
    """What happened other than receiving."""
    out = []
    for e in evs:
        if e[0] == 'loop':
            bs = tuple(b for b in (shape(b) for b in e[3]) if b)
            if bs:
                out.append(('loop', e[3]))
        elif e[0] == 'eat':
            out.append(('eat', e[3], e[4]))
        elif e[0] == 'rd' and e[5] == 0:
            out.append(('end',))
        elif e[0] in LOUD:
            out.append(e)
    return tuple(out)


def fit(st, k):
    """Does the container end with the last byte received?"""
    v = st.store.get(k)
    if v is None:
        return None
    x = one_slice(v)
    if x is None:
        return None if any(p[0] == 'sl' and p[1] != S for p in parts_of(v)) else False
    if x[0] is None:
        return True if sub(st.store.get(FLOC, 0), st.store.get(RLOC, 0)) == 0 else st.facts.decide(eq(st.store.get(FLOC, 0), st.store.get(RLOC, 0)))
    return st.facts.decide(eq(add(x[0], x[1]), st.store.get(RLOC, 0)))


def number(v):
    return isinstance(v, int) or isinstance(v, tuple) and (T.is_lin(v) or v[0] in ('sym', 'v') and v[3] in ('u', 'i', 'c'))


def wraps(I, st, h, v):
    """Can the new value exceed the range of size_t? False: it can."""
    f = st.facts.copy()
    if not f.assume(lt(2 ** 64 - 1, v), True):
        return True
    if 'lost' in st.notes or any(isinstance(k, tuple) and k[0] == 'app' for k in st.facts.truth):
        return None
    return False


def value_at(st, x):
    """What is known of a byte: the set of its values, or None."""
    c = ('at', S, x)
    t = st.facts.truth.get(('#in', x))
    for v in ALPHABET:
        if st.facts.decide(eq(c, v)) is True:
            return frozenset((v,))
    if t is None and st.facts.decide(le(48, c)) is True and st.facts.decide(le(c, 57)) is True:
        t = DIGITS
    if t is not None:
        t = frozenset(v for v in t if st.facts.decide(eq(c, v)) is not False)
    return t


def differs(a, pat):
    return eq(mkseq([('sl', S, a, len(pat))]), pat)


def mismatch(st, a, pat):
    """Is it known that the bytes at index a are not pat? The index that differs."""
    if st.facts.decide(differs(a, pat)) is False:
        return 0
    for j, v in enumerate(pat):
        if st.facts.decide(eq(('at', S, add(a, j)), v)) is False:
            return j
    return None


def bytes_in(t, out=None):
    """Indices of the received bytes a fact is about ('?' for a whole slice)."""
    out = set() if out is None else out
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'at' and t[1] == S:
            out.add(t[2])
            return out
        if len(t) == 4 and t[0] == 'sl' and t[1] == S:
            out.add('?')
            return out
        for x in t:
            bytes_in(x, out)
    return out


def vague_fact(k):
    if not isinstance(k, tuple) or k[0] == '#in':
        return False
    if k[0] in ('eq', 'le') and '?' not in bytes_in(k):
        return False
    if k[0] in ('eq', 'app', 'same'):
        for pat in (HEADER, CRLF2):
            if has(k, pat):
                return False
    return bool(bytes_in(k))


def has_length(I, t):
    return isinstance(t, tuple) and (t in I.lengths or any(has_length(I, x) for x in t))


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(y, x) for y in t)


def capacity(I, st, p):
    """Number of bytes at a pointer, None if not known."""
    if not T.is_ptr(p):
        return None
    loc = p[1]
    base, off = (loc[1], loc[2]) if loc[0] == 'e' else (loc, 0)
    t = I.vtypes.get(base) or M.type_of_loc(I, st, base)
    if t and t.endswith(']'):
        return sub(int(t[t.rindex('[') + 1:-1]), off)
    if base[0] in ('f', 'v', 't', 'o') and base in st.store:
        v = st.store[base]
        if isinstance(v, bytes) or isinstance(v, tuple) and v and v[0] == 'seq':
            return sub(seqlen(v), off)
    return None


def fits(I, st, n, cap):
    if cap is None:
        return None
    ok = st.facts.decide(le(n, cap))
    return ok if ok is not None else False if possible(I, st, lt(cap, n)) else None


def reader_read(I, st, fr, e, fn, recv, ops):
    p = I.rv(st, ops[0], 'void *')
    n = I.rv(st, ops[1], 'unsigned long')
    cap = capacity(I, st, p)
    if st.store.get(ELOC):
        st.ev('rd', e['p'], p, n, 0, cap, fits(I, st, n, cap))
        return [(st, 0)]
    got = I.fresh('got', 'u')
    st.facts.assume(le(got, n), True)
    out = []
    for s, b in I.fork(st, eq(got, 0)):
        r = s.store.get(RLOC, 0)
        s.ev('rd', e['p'], p, n, 0 if b else got, cap, fits(I, s, n, cap))
        if b:
            s.store[ELOC] = 1
            out.append((s, 0))
            continue
        M.put_range(I, s, p, mkseq([('sl', S, r, got)]), e['p'])
        s.store[RLOC] = add(r, got)
        out.append((s, got))
    return out


def lib_call(I, st, fr, e, fn, q, cls, name, loc, ops):
    I.pos = e['p']
    if loc is not None and name in ('reserve', 'resize') and ops:
        I.alloc(st, e['p'], I.rv(st, ops[0], 'unsigned long'), loc in I.bufs)
    if q in ('std::equal', 'memcmp', 'std::memcmp') and len(ops) == 3:
        a, n, b = (I.rv(st, o, x['t']) for o, x in zip(ops, e['args']))
        if q == 'std::equal':
            n = sub(n, a) if not (isinstance(a, tuple) and a[0] == 'it') else sub(n[2], a[2]) if n[0] == 'it' and n[1] == a[1] else None
        else:
            n, b = b, n
        if isinstance(n, int) and 0 < n <= 64:
            x, y = M.range_of(I, st, a, n), M.range_of(I, st, b, n)
            if isinstance(x, bytes):
                x, y = y, x
            s = one_slice(x)
            if isinstance(y, bytes) and s is not None and s[0] is not None and s[1] == n == len(y):
                out = []
                for t, same in I.fork(st, eq(x, y)):
                    if same and not all(t.facts.assume(eq(('at', S, add(s[0], i)), c), True) for i, c in enumerate(y)):
                        continue
                    out.append((t, int(same) if q == 'std::equal' else 0 if same else I.fresh('cmp', 'i')))
                    if not same and q != 'std::equal':
                        t.facts.assume(eq(out[-1][1], 0), False)
                return out
    if name in ('front', 'pop_front', 'operator[]', 'at', 'pop') and loc in I.bufs:
        i = I.rv(st, ops[0], 'unsigned long') if ops else 0
        v = st.store.get(loc)
        if v is not None and not isinstance(v, int):
            n = seqlen(v)
            ok = st.facts.decide(lt(i, n))
            if ok is not True:
                ok = False if ok is False or possible(I, st, le(n, i)) else None
            st.ev('need', e['p'], name, i, n, ok)
    return None


def partial(st, a, d):
    """Is the last of the d bytes removed at a the one that ended a partial match
    with the header, d > 1, and nothing else known of it?"""
    k = sub(d, 1)
    if not (isinstance(k, tuple) and k[0] == 'sym'):
        return False
    same, last = [], []
    for t, x in st.facts.truth.items():
        if not (isinstance(t, tuple) and t[0] == 'eq' and T.is_lin(t[1])):
            if has(t, k):
                return False
            continue
        c, m = T.lin(t[1])
        ats = [q for q in m if isinstance(q, tuple) and q[0] == 'at' and has(q, k)]
        if not ats:
            continue
        last.append(t)
        if x is False and c == 0 and len(m) == 2 and len(ats) == 2 and sorted(m.values()) == [-1, 1]:
            lit = [q for q in ats if isinstance(q[1], bytes) and q[1][:15] == bytes(HEADER) and q[2] == k]
            byt = [q for q in ats if q[2] == add(a, k) and q[1] == S or q[2] == k and parts_of(q[1]) and
                   parts_of(q[1])[0][:3] == ('sl', S, a)]
            if lit and byt:
                same.append(t)
    f = st.facts.copy()
    return len(same) == 1 and same == last and f.assume(le(1, k), True)


def beyond(I, st, v):
    """Does the value take bytes of an array past those a read put there?"""
    for q in parts_of(v) if not isinstance(v, int) else ():
        if q[0] == 'sl':
            src, end = q[1], add(q[2], q[3])
        elif q[0] == 'el' and isinstance(q[1], tuple) and q[1][0] == 'at':
            src, end = q[1][1], add(q[1][2], 1)
        else:
            continue
        if not (isinstance(src, tuple) and len(src) == 3 and src[0] == 'wl' and isinstance(src[2], tuple) and src[2][0] != 'mess'):
            continue
        off, w = src[2]
        x = parts_of(w)
        if len(x) == 1 and x[0][0] == 'sl' and x[0][1] == S and possible(I, st, lt(add(off, x[0][3]), end)):
            return True
    return False


def possible(I, st, t):
    """Can t hold here, given that every fact is a linear one?"""
    if I.vague(st) or 'lost' in st.notes or any(isinstance(k, tuple) and k[0] == 'app' for k in st.facts.truth):
        return False
    atoms = T.lin(t[1])[1] if t and isinstance(t, tuple) and t[0] in ('le', 'eq') else ()
    if any(not (isinstance(a, tuple) and (a[0] == 'v' or a[0] == 'sym' and (a[1] in ('received', 'K', 'front', 'got') or a in I.lengths)))
           for a in atoms if a):
        return False
    f = st.facts.copy()
    return f.assume(t, True)
