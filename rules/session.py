"""Rules about the session: correlation, completion, dispatch, storage, framing
of outgoing messages, receive loop, shutdown (C01-C06, C09, C10)."""
from common import *

def DOCF(doc, n):
    return ('app', 'jfield', doc, n if isinstance(n, bytes) else n.encode())


def jv(doc, n, t):
    return ('app', 'jval', DOCF(doc, n), t)


class Model(object):
    """All abstract paths of the session implementation's entry points."""

    def __init__(self, L, backend='nlohmann'):
        self.L = L
        self.P = P = ir.extract(ir.src('session.cpp', 'content_stream.cpp'), backend)
        subs = [r for r in P.subclasses('dap::Session') if not P.recs[r].get('lambda')]
        if len(subs) != 1:
            raise AnalysisError('expected one implementation of dap::Session, found %s' % subs)
        self.cls = subs[0]
        self.cache = {}
        self.tables()

    # -- set-up ---------------------------------------------------------------
    def setup(self, I):
        contracts.install(I)
        I.narrowterms = True

        def read(I, st, fr, e, fn, loc, ops):
            v = I.fresh('frame', 'o')
            st.ev('cread', e['p'], v)
            return [(st, v)]
        I.summ['dap::ContentReader::read'] = read

        def snap(st, f, ops):
            out = []
            for o in ops:
                if isinstance(o, tuple) and o and o[0] == 'L':
                    o = ('ptr', o[1])
                if T.is_ptr(o) and o[1][0] != 'e':
                    out.append(I.load(st, ('f', o[1], 'message'), 'std::string'))
                else:
                    out.append(None)
            return tuple(out)
        I.on_ucall = snap

    def method(self, name, pred=None):
        fs = [f for f in self.P.fns.values() if f.rec == self.cls and f.n == name and f.virt and not f.impl
              and (pred is None or pred(f))]
        if len(fs) != 1:
            raise AnalysisError('session method %s: %d candidates' % (name, len(fs)))
        return fs[0]

    def run(self, name, pred=None):
        f = self.method(name, pred)
        if f.key not in self.cache:
            self.cache[f.key] = run(self.L, self.P, f, self.cls, self.setup)
        return self.cache[f.key]

    def tables(self):
        """Which members hold the error handler and the handler tables: found
        by where the public registration functions store their argument."""
        self.EH = None
        r = self.run('onError')
        if r:
            p = r.fn.params[0]['n']
            for s, _ in r.rs:
                for k, v in s.store.items():
                    if k[0] == 'f' and T.root(k) == SELF and v == pval(p):
                        self.EH = k
        self.maps = {}
        for kind, test in (('request', lambda t: t.count('std::function') == 3 and 'const void *, const std::function' in t),
                           ('event', lambda t: 'void (const void *)>' in t and t.count('std::function') == 1),
                           ('sent', lambda t: t.count('std::function') == 1 and 'const dap::Error *' in t)):
            r = self.run('registerHandler', lambda f, test=test: len(f.params) == 2 and test(f.params[1]['t']))
            self.maps[kind] = self.map_written(r, r.fn.params[1]['n'] if r else None)
        r = self.req_send()
        self.maps['response'] = self.map_written(r, r.fn.params[3]['n'] if r else None)

    def map_written(self, r, p):
        if not r:
            return None
        ms = set()
        for s, _ in r.rs:
            for e in s.events():
                if e[0] in ('mput', 'mkeep') and has_term(e[5], lambda x: x == pval(p)):
                    ms.add(e[3])
                if e[0] == 'set' and has_term(e[4], lambda x: x == pval(p)):
                    l = e[3]
                    while l[0] == 'f':
                        l = l[1]
                    if l[0] == 'm':
                        ms.add(l[1])
        return ms.pop() if len(ms) == 1 else None

    def req_send(self):
        return self.run('send', lambda f: len(f.params) == 4)

    def ev_send(self):
        return self.run('send', lambda f: len(f.params) == 2)

    # -- classification ---------------------------------------------------------
    def from_map(self, f, kind):
        """If f is a value held in the handler table `kind`: its key."""
        m = self.maps.get(kind)
        if m is None:
            return None
        found = []

        def look(x):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == 'm' and x[1] == m:
                found.append(x[2])
                return True
            return False
        has_term(f, look)
        return found[0] if found else None

    def is_eh(self, f):
        return self.EH is not None and isinstance(f, tuple) and f and f[0] == 'v' and f[1] == self.EH

    def reported(self, st, evs):
        """Was the error handler called, or found to be empty, on this path?"""
        if self.EH is None:
            return None
        for e in flat(evs):
            if e[0] == 'ucall' and self.is_eh(e[3]):
                return True
        for k, v in st.facts.truth.items():
            if v and has_term(k, self.is_eh) and k[0] in ('eq',):
                return True
        for c, d in st.facts.cons:
            if c == 0 and len(d) == 1 and self.is_eh(d[0][0]):
                if st.facts.decide(T.eq(d[0][0], 0)):
                    return True
        for n in st.notes:
            return None
        return False

    def recv_paths(self):
        """Paths of getPayload(), continued through the payload it returns."""
        if 'recv' in self.cache:
            return self.cache['recv']
        f = self.method('getPayload')
        r = run(self.L, self.P, f, self.cls, self.setup)
        out = []
        self.dangling = set()
        if r is None:
            self.cache['recv'] = None
            return None
        I = r.I
        for s, v in r.rs:
            v = I.rv(s, v, f.ret)
            n = len(s.events())
            if isinstance(v, tuple) and v and v[0] == 'clo':
                try:
                    I.deadcheck = True
                    for s2, _ in I.call_closure(s, v, [], f.p):
                        out.append(Path(self, I, s2, v, n))
                except X.Undecided as e:
                    self.L.note('payload: %s' % e)
                    out.append(Path(self, I, s, ('unknown',), n))
                finally:
                    I.deadcheck = False
            else:
                out.append(Path(self, I, s, v, n))
        self.dangling |= I.dangling
        self.cache['recv'] = out
        self.L.count('receive_paths', len(out))
        return out

    def callbacks(self):
        """Paths of the success and error callbacks handed to request handlers:
        [(Path of the request, 'success'|'error', state, ti, arg, n0)]"""
        if 'cb' in self.cache:
            return self.cache['cb']
        out = []
        for p in self.recv_paths() or []:
            for e in p.evs:
                if e[0] == 'ucall' and self.from_map(e[3], 'request') is not None:
                    clos = [a[2] if a[0] == 'ref' else a for a in e[4] if isinstance(a, tuple)]
                    clos = [c for c in clos if isinstance(c, tuple) and c and c[0] == 'clo']
                    for c in clos:
                        fn = self.P.fns.get(c[1])
                        if not fn or len(fn.params) != 2:
                            continue
                        kind = 'error' if 'dap::Error' in fn.params[1]['t'] else 'success'
                        ti, arg = ('v', ('o', '$ti'), 0, 'p'), ('v', ('o', '$data'), 0, 'p')
                        op2 = ('L', ('o', '$error')) if kind == 'error' else arg
                        st = p.st.copy()
                        mark = st.trace
                        p.I.deadcheck = True
                        try:
                            rs = p.I.call_closure(st, c, [ti, op2], e[1])
                        except X.Undecided as x:
                            self.L.note('callback: %s' % x)
                            continue
                        finally:
                            p.I.deadcheck = False
                        for s, _ in rs:
                            out.append((p, kind, s, s.events(since=mark), e[1]))
        self.dangling |= {d for p in self.recv_paths() or [] for d in p.I.dangling}
        self.cache['cb'] = out
        self.L.count('callback_paths', len(out))
        return out


class Path(object):
    def __init__(self, m, I, st, ret, n):
        self.m, self.I, self.st, self.ret = m, I, st, ret
        self.evs = st.events()
        self.n = n                      # events before the payload ran
        self.doc = None
        for e in self.evs:
            if e[0] == 'dfield':
                self.doc = e[3]
                break
        if self.doc is None:
            for e in self.evs:
                if e[0] == 'parse':
                    self.doc = ('app', 'parse', e[3])
        self.frame = next((e[3] for e in self.evs if e[0] == 'cread'), None)

    def true(self, t):
        return self.st.facts.decide(t)

    def has(self, name, typ):
        """Was the field seen to be present with the JSON type of typ?"""
        return self.true(('app', 'jis', DOCF(self.doc, name), typ))

    def msgtype(self):
        v = jv(self.doc, 'type', 'std::string')
        for t in (b'request', b'event', b'response'):
            if same(self.st, v, t):
                return t.decode()
        return None

    def calls(self, kind):
        return [e for e in flat(self.evs) if e[0] == 'ucall' and self.m.from_map(e[3], kind) is not None]


# -- outgoing messages -----------------------------------------------------------

def find_dump(x):
    """The JSON content a written byte sequence was dumped from."""
    out = []

    def look(y):
        if isinstance(y, tuple) and len(y) == 2 and y[0] == 'dump':
            out.append(y[1])
            return True
        return False
    has_term(x, look)
    return out


def is_obj(c):
    return isinstance(c, tuple) and c and c[0] == 'jobj'


def fields(c):
    return {k: v for k, v in c[1:]} if is_obj(c) else {}


def scalar(v):
    """Value written for a scalar field."""
    if isinstance(v, tuple) and v and v[0] == 'jv':
        return unwrap(v[2])
    return v


def written(I, st, evs):
    """[(event, byte sequence or None)] for every Writer::write on the path."""
    out = []
    for e in flat(evs):
        if e[0] == 'icall' and e[3] == 'dap::Writer::write':
            out.append(e)
    return out


def wbytes(I, st, e):
    """The byte sequence handed to Writer::write (buffer, n), as a term."""
    a = e[5]
    p, n = a[0], a[1]
    if isinstance(p, tuple) and p and p[0] == 'ref':
        p = p[2]
    if T.is_ptr(p):
        loc = p[1]
        base, off = (loc[1], loc[2]) if loc[0] == 'e' else (loc, 0)
        if base[0] in ('val', 'str'):
            full = base[1]
            if off == 0 and same(st, T.seqlen(full), n):
                return full
            if off == 0 and isinstance(full, bytes) and isinstance(n, int):
                return full[:n]
            d = T.sub(n, T.seqlen(full))
            if off == 0 and isinstance(d, int):
                # one more than the text: its terminator
                return T.concat(full, b'\0' * d) if d > 0 else T.mkseq((('sl', full, 0, n),))
    return None


def messages(I, st, evs):
    """Groups consecutive writes into messages: list of lists of write events.
    A group ends with the write that carries the dumped JSON text."""
    groups, cur = [], []
    for e in written(I, st, evs):
        cur.append(e)
        if is_body(e):
            groups.append(cur)
            cur = []
    return groups, cur


def is_body(e):
    p = e[5][0]
    if isinstance(p, tuple) and p and p[0] == 'ref':
        p = p[2]
    if T.is_ptr(p):
        loc = p[1]
        base = loc[1] if loc[0] == 'e' else loc
        if base[0] == 'val':
            v = base[1]
            for part in T.parts_of(v) if not isinstance(v, bytes) else ():
                if part[0] == 'sl' and isinstance(part[1], tuple) and part[1][0] == 'dump':
                    return True
            if isinstance(v, tuple) and v[0] == 'dump':
                return True
    return False


def group_content(g):
    for e in g:
        if is_body(e):
            d = find_dump(e[5][0])
            # the header mentions the dump through its length; take the body's
            return d[-1] if d else None
    return None


def sends(m):
    """Every way a message leaves the session: (name, I, state, events)."""
    out = []
    for nm, r in (('send(request)', m.req_send()), ('send(event)', m.ev_send())):
        if r:
            for s, v in r.rs:
                out.append((nm, r.I, s, s.events(), v))
    for p, kind, s, evs, pos in m.callbacks():
        out.append(('%s callback' % kind, p.I, s, evs, None))
    return out


def contents(I, st, evs):
    """JSON contents of the messages on the path (also unsent ones)."""
    out = []
    for e in flat(evs):
        if e[0] == 'serobj' and fields(e[3]).get(b'type') is not None:
            out.append((e, e[3]))
    return out


def atomic_width(m, loc):
    t = M.type_of_loc(_I(m), X.St(), loc)
    return t


def _I(m):
    I = X.Interp(m.P)
    I.exact[SELF] = m.cls
    return I


SMALL = ('char', 'unsigned char', 'signed char', 'short', 'unsigned short', 'bool', 'uint8_t', 'uint16_t', 'int8_t', 'int16_t')


def seq_rule(L, m):
    L.rule('seq-unique', 'the "seq" of every outgoing message is the result of one atomic (or lock-protected) '
           'increment of the session counter, used for one message only')
    counters = set()
    for nm, I, st, evs, ret in sends(m):
        evl = list(flat(evs))
        used = {}
        for e, c in contents(I, st, evs):
            fs = fields(c)
            if b'seq' not in fs:
                L.ob('seq-unique', nm, BAD if e[4] else UND, e[1], 'message without a "seq" field: %s' % show(c))
                continue
            v = scalar(fs[b'seq'])
            src = [x for x in evl if x[0] in ('aadd', 'aload', 'axchg', 'acas') and x[-1] == v]
            if src and src[0][0] == 'aadd':
                x = src[0]
                verdict = OK
                if x[4] == 0:
                    verdict = BAD
                t = M.type_of_loc(I, st, x[3]) or ''
                counters.add(x[3])
                if M.targ(t) in SMALL:
                    L.ob('seq-unique', nm, BAD, x[1], 'the counter %s is only %s wide' % (show(x[3]), t))
                if v in used and used[v] is not e:
                    verdict = BAD
                used[v] = e
                L.ob('seq-unique', nm, verdict, e[1], '"seq" is %s' % show(v))
            elif src and src[0][0] == 'aload':
                L.ob('seq-unique', nm, BAD, e[1], '"seq" is a plain load of %s, not an atomic increment' % show(src[0][3]))
            elif isinstance(v, int):
                L.ob('seq-unique', nm, BAD, e[1], '"seq" is the constant %s' % v)
            elif isinstance(v, tuple) and v[:2] in (('app', 'narrow'), ('app', '%'), ('app', '&')) and narrow_bits(v) is not None \
                    and narrow_bits(v) < 31 and has_term(v, lambda x: isinstance(x, tuple) and x and x[0] == 'sym' and x[1] == 'aa'):
                L.ob('seq-unique', nm, BAD, e[1], '"seq" keeps only %s bits of the counter' % narrow_bits(v))
            elif has_term(v, lambda x: isinstance(x, tuple) and len(x) > 2 and x[:2] == ('app', 'jval')):
                L.ob('seq-unique', nm, BAD, e[1], '"seq" is %s, a number the peer chose' % show(v))
            elif isinstance(v, tuple) and T.lin(v)[1] and all(
                    any(x[0] == 'aload' and x[-1] == a for x in evl) for a in T.lin(v)[1]):
                L.ob('seq-unique', nm, BAD, e[1], '"seq" is computed from a plain load of the counter: %s' % show(v))
            elif has_term(v, lambda x: isinstance(x, tuple) and x and x[0] == 'sym' and x[1] == 'aa'):
                # derived from an increment: v = result + constant, injective
                c0, d = T.lin(v)
                if len(d) == 1 and list(d.values())[0] in (1, -1) and any(x[0] == 'aadd' and x[-1] in d for x in evl):
                    for x in evl:
                        if x[0] == 'aadd' and x[-1] in d:
                            counters.add(x[3])
                    a = next(iter(d))
                    if a in used:
                        L.ob('seq-unique', nm, None, e[1], '"seq" %s' % show(v))
                    used[a] = e
                    L.ob('seq-unique', nm, OK, e[1], '"seq" is %s' % show(v))
                else:
                    L.ob('seq-unique', nm, None, e[1], '"seq" is %s' % show(v))
            elif isinstance(v, tuple) and v[0] == 'v' and T.root(v[1]) == SELF:
                sets = [x for x in evl if x[0] == 'set' and x[3] == v[1]]
                if not sets:
                    L.ob('seq-unique', nm, BAD, e[1], '"seq" is the value of %s, which is not advanced' % show(v[1]))
                elif not sets[0][2]:
                    L.ob('seq-unique', nm, BAD, e[1], '"seq" comes from %s, a plain member advanced without a lock' % show(v[1]))
                else:
                    L.ob('seq-unique', nm, OK if T.sub(sets[0][4], v) not in (0,) else BAD, e[1], 'locked counter')
            else:
                L.ob('seq-unique', nm, None, e[1], '"seq" is %s' % show(v))
    return counters


def request_ok(L, m):
    """Registered before it can be answered."""
    L.rule('registered-before-send', 'send(request) stores the response handler and type in the pending table under '
           'the request\'s own "seq" before the first byte of the request is written')
    r = m.req_send()
    if not r:
        return
    ps = [p['n'] for p in r.fn.params]
    rm = m.maps['response']
    if rm is None:
        L.ob('registered-before-send', 'send(request)', None, r.fn.p, 'the pending response table was not recognised')
        return
    n = 0
    for st, ret in r.rs:
        evs = list(flat(st.events()))
        ws = [i for i, e in enumerate(evs) if e[0] == 'icall' and e[3] == 'dap::Writer::write']
        if not ws:
            continue
        if any(e[0] == 'mkeep' and e[3] == rm for e in evs[:ws[0]]):
            continue                # number already in use: excluded by seq-unique
        n += 1
        cs = [c for e, c in contents(r.I, st, st.events())]
        seq = scalar(fields(cs[-1]).get(b'seq')) if cs else None
        puts = [(i, e) for i, e in enumerate(evs) if e[0] == 'mput' and e[3] == rm]
        before = [(i, e) for i, e in puts if i < ws[0]]
        if not before:
            L.ob('registered-before-send', 'send(request) put', BAD, evs[ws[0]][1],
                 'the request is written before its response handler is registered' if puts else
                 'the request is written but its response handler is never registered')
            continue
        i, e = before[-1]
        k = same(st, e[4], seq) if seq is not None else None
        adds = [x[-1] for x in evs if x[0] == 'aadd']
        if k is False or (k is None and isinstance(e[4], tuple) and isinstance(seq, tuple) and
                          (is_const_diff(e[4], seq) or is_narrowed(e[4], seq) or is_narrowed(seq, e[4]) or
                           (unwrap(e[4]) in adds and unwrap(seq) in adds))):
            L.ob('registered-before-send', 'send(request) key', BAD, e[1],
                 'registered under %s but the request carries seq %s' % (show(e[4]), show(seq)))
        else:
            L.ob('registered-before-send', 'send(request) key', k, e[1], 'key %s, seq %s' % (show(e[4]), show(seq)))
        v = e[5]
        okv = has_term(v, lambda x: x == pval(ps[3])) and has_term(v, lambda x: x == pval(ps[1], 'p'))
        wrong = has_term(v, lambda x: x == pval(ps[0], 'p')) and not has_term(v, lambda x: x == pval(ps[1], 'p'))
        L.ob('registered-before-send', 'send(request) value', BAD if wrong else (OK if okv else None), e[1],
             'registered value %s' % show(v))
        er = [x for x in evs[i:ws[0]] if (x[0] == 'merase' and x[3] == rm and same(st, x[4], e[4])) or
              (x[0] == 'mclear' and x[3] == rm)]
        L.ob('registered-before-send', 'send(request) kept', BAD if er else OK, er[0][1] if er else e[1],
             'the handler is removed again before the request is written' if er else '')
    L.count('request_send_paths', n)


def narrow_bits(v):
    if v[1] == 'narrow':
        return X.Interp.WIDTH.get(v[2], (None,))[0]
    for x in v[2:]:
        if isinstance(x, int) and x >= 0:
            return x.bit_length()
    return None


def is_narrowed(a, b):
    """Is a the value b with bits cut off?"""
    a, b = unwrap(a), unwrap(b)
    while isinstance(a, tuple) and a[:2] == ('app', 'narrow'):
        a = unwrap(a[3])
        if a == b:
            return True
    return False


def is_const_diff(a, b):
    d = T.sub(a, b)
    return isinstance(d, int) and d != 0


def counter_reset(L, m, counters):
    L.rule('seq-monotone', 'no entry point sets the sequence counter back')
    for nm in ('startProcessingMessages', 'getPayload', 'onError', 'setOnInvalidData'):
        f = m.method(nm)
        r = m.run(nm) if nm != 'getPayload' else None
        rs = r.rs if r else [(p.st, None) for p in m.recv_paths() or []] if nm == 'getPayload' else []
        bad = None
        for st, _ in rs:
            for e in flat(st.events()):
                if e[0] in ('astore', 'axchg') and e[3] in counters:
                    bad = e
        L.ob('seq-monotone', nm, BAD if bad else OK, bad[1] if bad else f.p, 'the counter is overwritten' if bad else '')
    for nm, I, st, evs, ret in sends(m):
        bad = [e for e in flat(evs) if e[0] in ('astore', 'axchg') and e[3] in counters]
        neg = [e for e in flat(evs) if e[0] == 'aadd' and e[3] in counters and isinstance(e[4], int) and e[4] < 0]
        both = neg and any(e[0] == 'aadd' and e[3] in counters and isinstance(e[4], int) and e[4] > 0 for e in flat(evs))
        L.ob('seq-monotone', nm, BAD if (bad or both) else OK, (bad or neg)[0][1] if (bad or both) else None,
             'the counter is set back' if (bad or both) else '')


def delivery(L, m):
    L.rule('delivered-by-echo', 'a response handler is invoked only if it was found in the pending table under the '
           '"request_seq" of the message, and the entry is removed')
    L.rule('unknown-reported', 'a response whose number is not in the table invokes no handler and is reported')
    ps = m.recv_paths()
    if ps is None or m.maps['response'] is None:
        L.ob('delivered-by-echo', 'responses', None, None, 'receive path not analysable')
        return
    rm = m.maps['response']
    for p in ps:
        calls = p.calls('response')
        want = jv(p.doc, 'request_seq', 'dap::integer') if p.doc else None
        for e in calls:
            k = m.from_map(e[3], 'response')
            k = unwrap(k)
            d = same(p.st, k, want)
            named = has_term(k, lambda x: isinstance(x, tuple) and len(x) > 2 and x[:2] == ('app', 'jval'))
            if d is not True and (isinstance(k, int) or named or any_entry(k)):
                d = False
            L.ob('delivered-by-echo', 'key', d, e[1], 'the handler invoked is the one registered under %s' % show(k))
            er = [x for x in flat(p.evs) if x[0] in ('merase', 'mclear') and x[3] == rm and
                  (x[0] == 'mclear' or unwrap(x[4]) == k or same(p.st, unwrap(x[4]), k))]
            over = [x for x in flat(p.evs) if x[0] == 'mclear' and x[3] == rm]
            L.ob('delivered-by-echo', 'entry removed', BAD if not er else OK, e[1],
                 'the entry stays in the table, so a second response with the same number is delivered too' if not er else '')
            if over:
                L.ob('delivered-by-echo', 'others kept', BAD, over[0][1], 'all pending entries are removed')
        for x in flat(p.evs):
            if x[0] == 'merase' and x[3] == rm and calls:
                k = unwrap(m.from_map(calls[0][3], 'response'))
                if same(p.st, unwrap(x[4]), k) is False or is_const_diff(unwrap(x[4]), k):
                    L.ob('delivered-by-echo', 'others kept', BAD, x[1], 'removes entry %s' % show(x[4]))
        miss = [e for e in flat(p.evs) if e[0] == 'mfind' and e[3] == rm and not e[5]]
        if p.msgtype() == 'response' and miss:
            L.ob('unknown-reported', 'not found: no handler', BAD if calls else OK, miss[0][1],
                 'a response handler is invoked although the number is unknown')
            L.ob('unknown-reported', 'not found: reported', m.reported(p.st, p.evs), miss[0][1],
                 'the error handler is not told about an unknown response')
    L.rule('found-by-atomic-take', 'looking up and removing the pending entry happen in one critical section')
    for p in ps:
        locked = None
        for e in flat(p.evs):
            if e[0] == 'mfind' and e[3] == rm and e[5]:
                locked = e
            if e[0] in ('rel',) and locked is not None and locked != 'gone' and any(l[0] == e[3] for l in locked[2]):
                locked = 'gone'
            if e[0] == 'merase' and e[3] == rm and locked is not None:
                if locked == 'gone' and e[2]:
                    L.ob('found-by-atomic-take', 'take', BAD, e[1], 'the lock is released between finding the entry and '
                         'removing it')
                elif locked != 'gone' and locked[2]:
                    L.ob('found-by-atomic-take', 'take', OK, e[1])


def C01(L):
    m = Model(L)
    c = seq_rule(L, m)
    counter_reset(L, m, c)
    request_ok(L, m)
    delivery(L, m)
    L.assumptions.append('2^32 messages are not sent in one session (the counter wraps)')


# -- C02 ---------------------------------------------------------------------------

def nonempty(st, v):
    """Is the string value certainly non-empty? True / False (can be empty) / None"""
    if v is None or (isinstance(v, tuple) and v and v[0] in ('undef', 'junk')):
        return None
    if isinstance(v, bytes):
        return len(v) > 0
    d = st.facts.decide(T.le(1, T.seqlen(v)))
    if d is True:
        return True
    e = st.facts.decide(T.eq(T.seqlen(v), 0))
    if e is True:
        return False
    if e is False:
        return True
    if has_term(v, lambda x: isinstance(x, tuple) and x and x[0] == 'app' and x[1] == 'fmt'):
        # formatted text: non-empty when the format has literal text
        fm = [x for x in subterms(v) if isinstance(x, tuple) and x[:2] == ('app', 'fmt')][0]
        lits = [x for x in subterms(fm) if isinstance(x, bytes)]
        if lits and lits[0].replace(b'%s', b''):
            return True
        return None
    base = v
    if isinstance(v, tuple) and v[0] == 'app' and v[1] == 'jval':
        return False        # text chosen by the peer
    return None


def subterms(x):
    yield x
    if isinstance(x, tuple):
        for y in x:
            for z in subterms(y):
                yield z


def completion(L, m):
    L.rule('completed-once', 'a response that finds its pending entry invokes that handler exactly once')
    L.rule('outcome-success', 'success: true -> the handler gets the decoded body and no error')
    L.rule('outcome-error', 'success false or missing -> the handler gets no body and an error whose message cannot be empty')
    ps = m.recv_paths()
    if ps is None or m.maps['response'] is None:
        L.ob('completed-once', 'responses', None, None, 'receive path not analysable')
        return
    rm = m.maps['response']
    for p in ps:
        found = [e for e in flat(p.evs) if e[0] == 'mfind' and e[3] == rm and e[5]]
        calls = p.calls('response')
        if not found and not calls:
            continue
        if not calls:
            k = found[0][4]
            # an entry registered without a type is not a usable one
            ti = [x for x in p.st.facts.cons]
            nulls = any(has_term(a, lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] == 'm' and x[1] == rm)
                        and p.st.facts.decide(T.eq(a, 0))
                        for c, d in p.st.facts.cons for a, _ in d)
            if nulls:
                continue
            L.ob('completed-once', 'found', BAD, found[0][1],
                 'a path takes the pending handler out of the table and never calls it (%s)' % why_path(p))
            continue
        L.ob('completed-once', 'found', OK if len(calls) == 1 else BAD, calls[-1][1],
             'the handler is called %d times on one path' % len(calls))
        e = calls[0]
        args = [a[2] if isinstance(a, tuple) and a and a[0] == 'ref' else a for a in e[4]]
        if len(args) != 2:
            L.ob('outcome-error', 'args', None, e[1], 'arguments')
            continue
        data, err = args
        succ = jv(p.doc, 'success', 'dap::boolean')
        hs = p.has('success', 'dap::boolean')
        sv = p.true(succ)
        for t in (succ, ('proj', succ, 'val')):
            if sv is None:
                sv = p.true(t)
            if sv is None:
                sv = decide_truth(p.st, t)
        if hs and sv:
            L.ob('outcome-success', 'no error', isnull(p.st, err), e[1], 'success reported with error argument %s' % show(err))
            n = isnull(p.st, data)
            L.ob('outcome-success', 'body given', None if n is None else not n, e[1], 'success reported with data argument %s' % show(data))
            if not n:
                built = [x for x in flat(p.evs) if x[0] == 'tictor' and x[4] == data]
                L.ob('outcome-success', 'body constructed', OK if built else None, e[1], '')
                hb = p.true(('app', 'hasfield', p.doc, b'body'))
                if hb:
                    dec = [x for x in flat(p.evs) if x[0] == 'tideser' and x[5] == DOCF(p.doc, 'body')]
                    wrong = [x for x in flat(p.evs) if x[0] == 'tideser' and x[5] != DOCF(p.doc, 'body') and x[5] != contracts.NULLDOC]
                    v = OK if dec and dec[0][4] == data else (BAD if (wrong or not dec) else None)
                    L.ob('outcome-success', 'body decoded', v, e[1], 'the body is not decoded into the object handed over')
                hb2 = [x for x in flat(p.evs) if x[0] == 'dfield' and x[4] == b'body']
                if not hb2:
                    others = [x for x in flat(p.evs) if x[0] == 'tideser']
                    L.ob('outcome-success', 'body decoded', BAD, e[1],
                         'success is reported without decoding the "body" of the response')
                ti = [x for x in flat(p.evs) if x[0] == 'tideser']
                for x in ti:
                    k = m.from_map(x[3], 'response')
                    L.ob('outcome-success', 'body type', OK if k is not None else None, x[1], 'decoded with %s' % show(x[3]))
        elif hs is not None and (hs is False or sv is False):
            L.ob('outcome-error', 'error given', neg3(isnull(p.st, err)), e[1], 'failure reported with error argument %s (%s)' % (show(err), why_path(p)))
            L.ob('outcome-error', 'no body', isnull(p.st, data), e[1], 'failure reported with data argument %s (%s)' % (show(data), why_path(p)))
            if len(e) > 6 and e[6] and e[6][1] is not None:
                L.ob('outcome-error', 'message not empty', nonempty(p.st, e[6][1]), e[1],
                     'the error message %s may be empty, which means success (%s)' % (show(e[6][1]), why_path(p)))
            else:
                L.ob('outcome-error', 'message not empty', None, e[1], 'message unknown')
        elif hs is None or p.true(('app', 'hasfield', p.doc, b'success')) is None:
            # the flag was never looked at
            looked = [x for x in flat(p.evs) if x[0] == 'dfield' and x[4] == b'success']
            if not looked:
                L.ob('outcome-success', 'flag read', BAD, e[1], 'the handler is completed without reading "success"')
            else:
                L.ob('outcome-error', 'success missing', neg3(isnull(p.st, err)), e[1],
                     'a response without a usable "success" flag completes its request without an error (%s)' % why_path(p))
                L.ob('outcome-error', 'no body', isnull(p.st, data), e[1], 'data argument %s' % show(data))
                if len(e) > 6 and e[6] and e[6][1] is not None:
                    L.ob('outcome-error', 'message not empty', nonempty(p.st, e[6][1]), e[1],
                         'the error message %s may be empty' % show(e[6][1]))


def decide_truth(st, v):
    for c, d in st.facts.cons:
        pass
    x = st.facts.decide(T.eq(v, 0))
    return None if x is None else not x


def neg3(x):
    return None if x is None else not x


def why_path(p):
    out = []
    for e in flat(p.evs):
        if e[0] == 'dfield':
            out.append('"%s" %s' % (e[4].decode() if isinstance(e[4], bytes) else '?', e[5]))
    return ', '.join(out)


def failed_send(L, m):
    L.rule('failed-send', 'send(request) returns true only after every write succeeded; when it returns false the '
           'pending entry is gone')
    r = m.req_send()
    if not r:
        L.ob('failed-send', 'send(request)', None, None, 'not analysable')
        return
    rm = m.maps['response']
    for st, ret in r.rs:
        ret = r.I.rv(st, ret, 'bool')
        evs = list(flat(st.events()))
        ws = [e for e in evs if e[0] == 'icall' and e[3] == 'dap::Writer::write']
        for s2, b in r.I.fork(st.copy(), ret):
            oks = [s2.facts.decide(e[6]) for e in ws]
            if b:
                bad = not ws or any(o is False for o in oks)
                L.ob('failed-send', 'true means sent', BAD if bad else (OK if all(oks) else BAD), ws[-1][1] if ws else r.fn.p,
                     'send returns true although %s' % ('nothing was written' if not ws else 'a write failed or was not checked'))
            else:
                if ws and all(oks) and len(ws) > 1:
                    L.ob('failed-send', 'false means not sent', BAD, ws[-1][1], 'send returns false although all writes succeeded')
                if rm is None:
                    continue
                if any(e[0] == 'mkeep' and e[3] == rm for e in evs):
                    continue
                last = max([i for i, e in enumerate(evs) if e[0] == 'mput' and e[3] == rm] or [-1])
                if last < 0:
                    continue
                k = evs[last][4]
                gone = [e for e in evs[last:] if e[3:4] == (rm,) and (
                    e[0] == 'mclear' or (e[0] == 'merase' and same(s2, e[4], k)) or
                    (e[0] == 'mfind' and not e[5] and same(s2, e[4], k)))]
                L.ob('failed-send', 'entry removed', OK if gone else BAD, evs[last][1],
                     'send returns false but the response handler stays registered')


def C02(L):
    m = Model(L)
    completion(L, m)
    failed_send(L, m)
    import templates
    templates.send_future(L)


# -- C03 ---------------------------------------------------------------------------

def C03(L):
    m = Model(L)
    L.rule('one-response', 'each use of the success or error callback writes one response message when the writer is open')
    L.rule('response-fields', 'the response echoes request_seq and command of its request and carries the outcome of the callback used')
    L.rule('sent-handler', 'the response-sent handler of the response type runs once, after the write, with the same outcome')
    cbs = m.callbacks()
    kinds = {k for _, k, _, _, _ in cbs}
    for k in ('success', 'error'):
        if k not in kinds:
            L.ob('one-response', k, None, None, 'callback not recognised')
    for p, kind, st, evs, pos in cbs:
        I = p.I
        evl = list(flat(evs))
        ws = written(I, st, evs)
        groups, rest = messages(I, st, evs)
        cont = contents(I, st, evs)
        okc = [c for e, c in cont if e[4]]
        opened = any(e[0] == 'icall' and e[3].endswith('::isOpen') and st.facts.decide(e[6]) for e in evl)
        if opened and not ws:
            L.ob('one-response', kind, BAD if okc or not cont else None, pos, 'a path of the %s callback writes no response' % kind)
        if ws:
            allw = all(st.facts.decide(e[6]) for e in ws)
            if len(groups) > 1:
                L.ob('one-response', kind, BAD, groups[1][0][1], 'the %s callback writes %d messages' % (kind, len(groups)))
            elif allw and not groups:
                L.ob('one-response', kind, None, ws[0][1], 'message text not recognised')
            else:
                L.ob('one-response', kind, OK, ws[0][1])
        for g in groups:
            c = group_content(g)
            if not is_obj(c):
                L.ob('response-fields', kind, None, g[0][1], 'content %s' % show(c))
                continue
            if not any(c == x for x in okc):
                continue        # encoding failed: the message is cut short
            fs = fields(c)
            names = [k for k, v in c[1:]]
            dup = [k for k in names if names.count(k) > 1]
            if dup:
                L.ob('response-fields', '%s duplicate' % kind, BAD, g[0][1], 'field %s written twice' % dup[0])

            def chk(name, want, what):
                if name not in fs:
                    L.ob('response-fields', '%s.%s' % (kind, name.decode()), BAD, cont[0][0][1], 'the response has no "%s"' % name.decode())
                    return
                v = scalar(fs[name])
                d = same(st, v, want)
                if d is None and definitely_other(v, want):
                    d = False
                L.ob('response-fields', '%s.%s' % (kind, name.decode()), d, cont[0][0][1],
                     '"%s" is %s, expected %s' % (name.decode(), show(v), what))
            chk(b'type', b'response', '"response"')
            chk(b'request_seq', jv(p.doc, 'seq', 'dap::integer'), 'the seq of the request')
            chk(b'command', jv(p.doc, 'command', 'std::string'), 'the command of the request')
            chk(b'success', 1 if kind == 'success' else 0, str(kind == 'success'))
            if kind == 'success':
                b = fs.get(b'body')
                if b is None:
                    L.ob('response-fields', 'success.body', BAD, cont[0][0][1], 'the response has no "body"')
                else:
                    want = ('ti', pval('$ti', 'p'), pval('$data', 'p'))
                    L.ob('response-fields', 'success.body', OK if b == want else (BAD if b[0] == 'ti' else None), cont[0][0][1],
                         'body is %s' % show(b))
            else:
                b = fs.get(b'message')
                if b is None:
                    L.ob('response-fields', 'error.message', BAD, cont[0][0][1], 'the response has no "message"')
                else:
                    v = scalar(b)
                    want = ('v', ('f', ('o', '$error'), 'message'), 0, 'o')
                    okm = v == want or has_term(v, lambda x: x == want) and same(st, v, want)
                    L.ob('response-fields', 'error.message', OK if v == want or okm else (BAD if definitely_other(v, want) else None),
                         cont[0][0][1], 'message is %s' % show(v))
        # response-sent handler
        sm = m.maps['sent']
        if sm is None:
            L.ob('sent-handler', kind, None, pos, 'table not recognised')
            continue
        calls = [e for e in evl if e[0] == 'ucall' and m.from_map(e[3], 'sent') is not None]
        found = [e for e in evl if e[0] == 'mfind' and e[3] == sm]
        for e in found:
            d = same(st, e[4], pval('$ti', 'p'))
            if d is None and definitely_other(e[4], pval('$ti', 'p')):
                d = False
            L.ob('sent-handler', kind + ' key', d, e[1], 'looked up under %s' % show(e[4]))
        if not found:
            other = [e for e in evl if e[0] == 'mfind']
            L.ob('sent-handler', kind + ' looked up', BAD if not st.notes else None, pos,
                 'a path of the %s callback never looks for a response-sent handler' % kind)
            continue
        hit = [e for e in found if e[5]]
        if hit and not calls:
            empty = any(has_term(a, lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] == 'm' and x[1] == sm)
                        for c, d in st.facts.cons for a, _ in d)
            L.ob('sent-handler', kind + ' called', OK if empty else BAD, hit[0][1], 'a registered response-sent handler is not called')
        if calls:
            L.ob('sent-handler', kind + ' called', OK if len(calls) == 1 else BAD, calls[-1][1], 'called %d times' % len(calls))
            e = calls[0]
            wi = [i for i, x in enumerate(evl) if x[0] == 'icall' and x[3] == 'dap::Writer::write']
            ci = evl.index(e)
            if wi:
                L.ob('sent-handler', kind + ' after write', OK if max(wi) < ci else BAD, e[1],
                     'the response-sent handler runs before the response is written')
            args = [a[2] if isinstance(a, tuple) and a and a[0] == 'ref' else a for a in e[4]]
            if len(args) == 2:
                if kind == 'success':
                    L.ob('sent-handler', 'success data', OK if args[0] == pval('$data', 'p') else (BAD if args[0] == 0 else None), e[1], 'data %s' % show(args[0]))
                    L.ob('sent-handler', 'success error', isnull(st, args[1]), e[1], 'error %s' % show(args[1]))
                else:
                    L.ob('sent-handler', 'error data', isnull(st, args[0]), e[1], 'data %s' % show(args[0]))
                    L.ob('sent-handler', 'error error', neg3(isnull(st, args[1])), e[1], 'error %s' % show(args[1]))


def definitely_other(v, want):
    """Two terms that certainly can differ: both are inputs or constants."""
    def inp(x):
        return isinstance(x, (int, bytes)) or (isinstance(x, tuple) and x and (
            x[0] in ('v', 'sym') or x[:2] == ('app', 'jval') or x[:2] == ('app', 'name')))
    if v == want:
        return False
    if is_narrowed(v, want):
        return True
    if isinstance(v, tuple) and v[:1] == ('proj',):
        v = v[1]
    if inp(v) and inp(want):
        return True
    d = T.sub(v, want) if not isinstance(v, bytes) and not isinstance(want, bytes) else None
    return isinstance(d, int) and d != 0


# -- C04 ---------------------------------------------------------------------------

def C04(L):
    m = Model(L)
    L.rule('handler-preconditions', 'a request or event handler runs only for a message whose type, seq and name are '
           'present and well-typed, and it is the one registered under that name')
    L.rule('handler-argument', 'the handler gets the object constructed and successfully decoded with the registered type')
    L.rule('others-reported', 'every message that invokes no handler is reported to the error handler')
    L.rule('registration', 'registering stores the handler under its type once; a second registration keeps the first and is reported')
    ps = m.recv_paths()
    if ps is None:
        L.ob('handler-preconditions', 'getPayload', None, None, 'not analysable')
        ps = []
    for p in ps:
        handled = False
        for kind, namef, bodyf in (('request', 'command', 'arguments'), ('event', 'event', 'body')):
            calls = p.calls(kind)
            if not calls:
                continue
            handled = True
            e = calls[0]
            L.ob('handler-preconditions', kind + ' once', OK if len(calls) == 1 else BAD, calls[-1][1], 'handler called %d times' % len(calls))
            if p.doc is None:
                L.ob('handler-preconditions', kind + ' message', BAD, e[1], 'handler called without looking at the message')
                continue
            for f, t in (('type', 'std::string'), ('seq', 'dap::integer'), (namef, 'std::string')):
                L.ob('handler-preconditions', '%s needs %s' % (kind, f), BAD if p.has(f, t) is not True else OK, e[1],
                     'the %s handler is called although "%s" is missing or not of type %s (%s)' % (kind, f, t, why_path(p)))
            mt = p.msgtype()
            L.ob('handler-preconditions', kind + ' type', BAD if mt != kind else OK, e[1],
                 'the %s handler is called for a message of type %s' % (kind, mt or 'not checked'))
            k = m.from_map(e[3], kind)
            want = jv(p.doc, namef, 'std::string')
            d = same(p.st, k, want)
            if d is None and (definitely_other(k, want) or any_entry(k) or proper_part(p.st, k, want)):
                d = False
            L.ob('handler-preconditions', kind + ' name', d, e[1], 'the handler registered under %s is called' % show(k))
            # argument
            args = [a[2] if isinstance(a, tuple) and a and a[0] == 'ref' else a for a in e[4]]
            data = args[0] if args else None
            idx = p.evs.index(e) if e in p.evs else len(p.evs)
            before = p.evs[:idx]
            ct = [x for x in flat(before) if x[0] == 'tictor' and x[4] == data]
            L.ob('handler-argument', kind + ' constructed', OK if ct else (BAD if isnull(p.st, data) else None), e[1],
                 'the %s handler is given %s' % (kind, show(data)))
            ds = [x for x in flat(before) if x[0] == 'tideser' and x[4] == data]
            for x in ds:
                okd = x[5] in (DOCF(p.doc, bodyf), contracts.NULLDOC)
                L.ob('handler-argument', kind + ' decoded from ' + bodyf, OK if okd else BAD, x[1], 'decoded from %s' % show(x[5]))
                L.ob('handler-argument', kind + ' decode checked', OK if x[6] else (BAD if x[5] != contracts.NULLDOC or kind == 'request' else None), x[1],
                     'the %s handler is called although decoding its %s failed' % (kind, bodyf))
                ki = m.from_map(x[3], kind)
                L.ob('handler-argument', kind + ' type', OK if ki is not None and same(p.st, ki, k) else None, x[1], 'decoded with %s' % show(x[3]))
            if not ds:
                # no decode on this path: only when an optional body is absent
                present = p.true(('app', 'hasfield', p.doc, bodyf.encode()))
                looked = [x for x in flat(before) if x[0] == 'dfield' and x[4] == bodyf.encode()]
                if kind == 'request' or present or not looked:
                    L.ob('handler-argument', kind + ' decoded from ' + bodyf, BAD, e[1],
                         'the %s handler is called although its %s were not decoded' % (kind, bodyf))
        for x in flat(p.evs):
            if (x[0] in ('movefrom', 'merase', 'mclear', 'mput') or x[0] == 'set' and isinstance(x[3], tuple)) and any(
                    mp is not None and (T.under(x[3], mp) or in_map(x[3], mp)) for mp in (m.maps['request'], m.maps['event'])):
                L.ob('registration', 'kept', BAD, x[1], 'receiving a message changes the table of registered handlers')
        resp = p.calls('response')
        nomsg = p.frame is None or not any(e[0] == 'parse' for e in p.evs)
        if handled and p.msgtype() != 'response' and resp:
            L.ob('handler-preconditions', 'one handler', BAD, resp[0][1], 'a response handler is called for a request or event')
        if not handled and not resp and not nomsg:
            if isinstance(p.ret, tuple) and p.ret and p.ret[0] in ('unknown', 'sym', 'v'):
                L.ob('others-reported', path_class(p), None, None, 'payload %s' % show(p.ret))
                continue
            rep = m.reported(p.st, p.evs)
            if rep is False and None in m.maps.values():
                rep = None
            L.ob('others-reported', path_class(p), rep, p.evs[-1][1],
                 'a message is dropped without being reported (%s)' % why_path(p))
        if resp and p.msgtype() != 'response':
            L.ob('handler-preconditions', 'response type', BAD, resp[0][1], 'a response handler is called for a message of another type')
    # registration
    for kind, test in (('request', lambda t: t.count('std::function') == 3), ('event', lambda t: 'void (const void *)>' in t and t.count('std::function') == 1),
                       ('sent', lambda t: t.count('std::function') == 1 and 'const dap::Error *' in t)):
        r = m.run('registerHandler', lambda f, test=test: len(f.params) == 2 and test(f.params[1]['t']))
        mp = m.maps[kind]
        if not r or mp is None:
            L.ob('registration', kind, None, None, 'not recognised')
            continue
        ti, h = r.fn.params[0]['n'], r.fn.params[1]['n']
        want = ('app', 'name', pval(ti, 'p')) if kind != 'sent' else pval(ti, 'p')
        for st, _ in r.rs:
            evl = list(flat(st.events()))
            hits = [e for e in evl if e[0] == 'mfind' and e[3] == mp]
            puts = [e for e in evl if e[0] == 'mput' and e[3] == mp and e[5] != 0]
            puts += [('mput', e[1], e[2], mp, e[3][1][2], e[4]) for e in evl
                     if e[0] == 'set' and e[3][0] == 'f' and e[3][1][:2] == ('m', mp)]
            dup = any(e[5] for e in hits)
            if dup:
                over = [e for e in puts]
                L.ob('registration', kind + ' keeps first', BAD if over else OK, (over or hits)[0][1],
                     'a second registration replaces the first handler')
                L.ob('registration', kind + ' second reported', m.reported(st, st.events()), hits[0][1],
                     'a second registration for the same type is not reported')
            else:
                L.ob('registration', kind + ' stored', OK if len(puts) == 1 else (BAD if hits and not puts else None), r.fn.p, 'the handler is not stored')
                for e in puts:
                    k = same(st, e[4], want)
                    if k is None and definitely_other(e[4], want):
                        k = False
                    L.ob('registration', kind + ' key', k, e[1], 'stored under %s' % show(e[4]))
                    okv = has_term(e[5], lambda x: x == pval(h))
                    L.ob('registration', kind + ' value', OK if okv else None, e[1], 'stored %s' % show(e[5]))
                    if kind != 'sent':
                        okt = has_term(e[5], lambda x: x == pval(ti, 'p'))
                        L.ob('registration', kind + ' type', OK if okt else None, e[1], 'stored %s' % show(e[5]))


def in_map(loc, mp):
    while isinstance(loc, tuple) and loc[0] == 'f':
        loc = loc[1]
    return isinstance(loc, tuple) and loc[0] == 'm' and loc[1] == mp


def any_entry(k):
    """The key of whatever entry an iteration over the table came to."""
    return isinstance(k, tuple) and len(k) > 2 and k[0] == 'sym' and k[1] == 'key'


def proper_part(st, k, want):
    """A piece of the text that is not decided to be all of it."""
    ps = T.parts_of(k) if isinstance(k, tuple) and k[0] == 'seq' else ()
    return len(ps) == 1 and ps[0][0] == 'sl' and ps[0][1] == want and st.facts.decide(T.eq(ps[0][3], T.seqlen(want))) is not True


def path_class(p):
    """A stable name for the class of a receive path."""
    t = p.msgtype() or 'no usable type'
    last = [e for e in flat(p.evs) if e[0] in ('dfield', 'mfind', 'tideser')]
    if last:
        e = last[-1]
        if e[0] == 'dfield':
            return '%s: %s %s' % (t, e[4].decode() if isinstance(e[4], bytes) else '?', e[5])
        if e[0] == 'mfind':
            return '%s: %s' % (t, 'registered' if e[5] else 'not registered')
        return '%s: decode %s' % (t, 'ok' if e[6] else 'failed')
    return t


# -- C05 ---------------------------------------------------------------------------

def can_be_less(t, size):
    """Is t, a function of `size` and constants only, less than it for some size?"""
    def ev(x, n):
        if x == size:
            return n
        if isinstance(x, int):
            return x
        if T.is_lin(x) if isinstance(x, tuple) else False:
            c, d = T.lin(x)
            return c + sum(k * ev(a, n) for a, k in d.items())
        if isinstance(x, tuple) and x[0] == 'app' and len(x) == 4:
            a, b = ev(x[2], n), ev(x[3], n)
            if x[1] == '/' and b > 0:
                return a // b
            if x[1] == '%' and b > 0:
                return a % b
            if x[1] == '&':
                return a & b
            if x[1] == '>>':
                return a >> b
            if x[1] == '<<':
                return a << b
            if x[1] == '*':
                return a * b
        raise ValueError
    try:
        return any(ev(t, n) < n for n in (1, 2, 3, 5, 8, 24, 31, 100, 1000))
    except (ValueError, TypeError):
        return False


def ptr_base(p):
    if T.is_ptr(p):
        l = p[1]
        while l[0] == 'e':
            l = l[1]
        return l
    return None


def C05(L):
    m = Model(L)
    L.rule('storage-size', 'message storage is allocated with the size of the type that is constructed in it')
    L.rule('construct-first', 'storage is constructed before it is decoded into or handed to a handler')
    L.rule('destruct-once-then-free', 'on every path the object is destructed once, with its own type, and then the '
           'storage is freed once, and nothing touches it afterwards')
    L.rule('no-dangling-capture', 'code that runs after the receiving function returned refers to none of its locals')
    ps = m.recv_paths()
    if ps is None:
        L.ob('storage-size', 'getPayload', None, None, 'not analysable')
        return
    sites = 0
    for p in ps:
        evs = list(flat(p.evs))
        # later use of the callbacks included
        for i, e in enumerate(evs):
            if e[0] != 'new' or T.root(e[3][1]) != e[3][1]:
                continue
            base = e[3][1]
            later = evs[i + 1:]
            uses = [x for x in later if x[0] in ('tictor', 'tidtor', 'tideser', 'ticopy') and ptr_base(x[4]) == base]
            if not uses:
                continue            # not message storage
            sites += 1
            what = '%s:%d' % (m.cls.split('::')[-1], e[1][1])
            inst = 'storage of a ' + (p.msgtype() or 'message')
            ct = [x for x in uses if x[0] == 'tictor']
            esz = 1
            # size
            if ct:
                want = ('app', 'size', ct[0][3])
                d = same(p.st, e[5], want)
                if d is None:
                    dd = T.sub(e[5], want)
                    if isinstance(dd, int):
                        d = dd >= 0
                    elif isinstance(e[5], int) or can_be_less(e[5], want) or (isinstance(e[5], tuple) and e[5][:2] in (('app', 'size'), ('app', 'align'), ('app', 'name'))):
                        d = False
                elif d is False:
                    dd = T.sub(e[5], want)
                    d = isinstance(dd, int) and dd >= 0
                L.ob('storage-size', inst, d, e[1], 'allocates %s for an object of size %s' % (show(e[5]), show(want)))
            else:
                L.ob('construct-first', inst, BAD, uses[0][1], 'storage is used without being constructed (%s)' % why_path(p))
            state = 'raw'
            ti = None
            for x in later:
                ptrs = []
                if x[0] in ('tictor', 'tidtor', 'tideser', 'ticopy', 'tiser'):
                    ptrs = [x[4]]
                elif x[0] == 'ucall':
                    ptrs = [a for a in x[4]]
                elif x[0] == 'free':
                    ptrs = [x[3]]
                elif x[0] == 'doublefree':
                    ptrs = [x[3]]
                if not any(ptr_base(q) == base for q in ptrs):
                    continue
                if state == 'freed':
                    L.ob('destruct-once-then-free', inst, BAD, x[1], 'the storage is %s after it was freed (%s)' % (
                        'freed again' if x[0] in ('free', 'doublefree') else 'used', why_path(p)))
                    continue
                if x[0] == 'tictor':
                    if state != 'raw':
                        L.ob('destruct-once-then-free', inst, BAD, x[1], 'constructed again')
                    state, ti = 'live', x[3]
                elif x[0] == 'tidtor':
                    if state == 'raw':
                        L.ob('construct-first', inst, BAD, x[1], 'destructed without having been constructed')
                    elif state == 'dead':
                        L.ob('destruct-once-then-free', inst, BAD, x[1], 'destructed twice (%s)' % why_path(p))
                    elif same(p.st, x[3], ti) is False or (x[3] != ti and same(p.st, x[3], ti) is None and definitely_other(x[3], ti)):
                        L.ob('destruct-once-then-free', inst, BAD, x[1], 'destructed as a different type')
                    state = 'dead'
                elif x[0] == 'free':
                    if state == 'live':
                        L.ob('destruct-once-then-free', inst, BAD, x[1], 'freed without being destructed (%s)' % why_path(p))
                    if len(x) > 5 and x[5] is False:
                        L.ob('destruct-once-then-free', inst, BAD, x[1], 'array storage freed with delete')
                    state = 'freed'
                else:
                    if state == 'raw':
                        L.ob('construct-first', inst, BAD, x[1], 'storage is used before it is constructed')
                    elif state == 'dead':
                        L.ob('destruct-once-then-free', inst, BAD, x[1], 'the object is used after it was destructed')
            escaped = p.st.store.get(('x', base, 'esc')) or p.st.store.get(('esc', base))
            owners = [x for x in flat(p.evs) if x[0] == 'spown' and x[4] and ptr_base(x[3]) == base]
            shared = bool(owners)
            deleter = any(x[5] for x in owners)
            if isinstance(p.ret, tuple) and p.ret and p.ret[0] == 'unknown':
                v = UND
            elif deleter:
                v = None if state in ('live', 'dead') else (OK if state == 'freed' else BAD)
            elif shared:
                # the last owner frees it, and nobody else
                v = BAD if state in ('live', 'freed') else OK
            else:
                v = OK if state == 'freed' else BAD
            L.ob('destruct-once-then-free', inst, v, e[1], 'the path (%s) ends with the storage %s' % (
                why_path(p), {'live': 'neither destructed nor freed', 'dead': 'not freed', 'raw': 'not freed'}.get(state, state)))
            if state == 'freed':
                L.ob('construct-first', inst, OK, e[1])
    L.count('storage_path_instances', sites)
    # callbacks run after the payload has finished
    for p, kind, st, evs, pos in m.callbacks():
        freed = set(ptr_base(x[3]) for x in flat(p.evs) if x[0] == 'free')
        bad = None
        for x in flat(evs):
            ptrs = []
            if x[0] in ('tictor', 'tidtor', 'tideser', 'ticopy', 'tiser'):
                ptrs = [x[4]]
            elif x[0] in ('free', 'doublefree'):
                ptrs = [x[3]]
            elif x[0] == 'ucall':
                ptrs = list(x[4])
            if any(ptr_base(q) in freed for q in ptrs if ptr_base(q) is not None):
                bad = x
        L.ob('destruct-once-then-free', kind + ' callback', BAD if bad else OK, bad[1] if bad else pos,
             'the %s callback uses the request after it was freed' % kind)
    bad = sorted(m.dangling, key=str)
    if bad:
        (r, k) = bad[0]
        fn = m.P.fns.get(k)
        L.ob('no-dangling-capture', 'payload and callbacks', BAD, fn.p if fn else None,
             'code running after the function returned reads its local variable')
    else:
        L.ob('no-dangling-capture', 'payload and callbacks', OK, None)
    # captures by reference in closures that outlive their creator
    def refs(c, seen=()):
        for d, kind, v in c[3]:
            if kind == 'ref' and T.root(v)[0] in ('v', 't'):
                yield v         # a local, or a member of the closure being run
            if kind != 'ref' and isinstance(v, tuple) and v and v[0] == 'clo':
                for x in refs(v):
                    yield x
    nclo = 0
    for p in ps:
        if isinstance(p.ret, tuple) and p.ret and p.ret[0] == 'clo':
            nclo += 1
            fn = m.P.fns.get(p.ret[1])
            rr = list(refs(p.ret))
            L.ob('no-dangling-capture', 'payload closure (%s)' % (p.msgtype()), BAD if rr else OK, fn.p if fn else None,
                 'the payload captures a local variable by reference')
        for e in p.calls('request'):
            for a in e[4]:
                c = a[2] if isinstance(a, tuple) and a and a[0] == 'ref' else a
                if isinstance(c, tuple) and c and c[0] == 'clo':
                    nclo += 1
                    fn = m.P.fns.get(c[1])
                    rr = list(refs(c))
                    kind = 'error' if fn and len(fn.params) == 2 and 'dap::Error' in fn.params[1]['t'] else 'success'
                    L.ob('no-dangling-capture', '%s callback closure' % kind, BAD if rr else OK, fn.p if fn else None,
                         'a callback that may be called later captures a local variable by reference')
    r = m.run('startProcessingMessages')
    if r:
        for st, _ in r.rs:
            for e in st.events():
                if e[0] == 'thread' and isinstance(e[3], tuple) and e[3][0] == 'clo':
                    rr = list(refs(e[3]))
                    orr = [v for d, kind, v in e[3][3] if kind == 'ref' and T.root(v)[0] == 'o']
                    L.ob('no-dangling-capture', 'thread closure', BAD if rr or orr else OK, e[1],
                         'a thread captures a local variable or parameter by reference')
    L.count('closures', nclo)


# -- C06 ---------------------------------------------------------------------------

def C06(L):
    m = Model(L)
    L.rule('frame-bytes', "the bytes written for one message are 'Content-Length: ' + decimal length + CRLF CRLF + the message")
    L.rule('one-critical-section', 'all writes of one message happen in one uninterrupted hold of one session lock, the '
           'same for every sender')
    L.rule('open-checked', 'the writer was found open, under that lock, before anything is written')
    L.rule('result-reported', 'send returns true only if everything was encoded and written, and false otherwise')
    mutexes = {}
    any_w = False
    for nm, I, st, evs, ret in sends(m):
        evl = list(flat(evs))
        ws = [e for e in evl if e[0] == 'icall' and e[3] == 'dap::Writer::write']
        if ws:
            any_w = True
            allok = all(st.facts.decide(e[6]) for e in ws)
            groups, rest = messages(I, st, evs)
            seqs = [wbytes(I, st, e) for e in ws]
            body = find_dump(ws[0][5][0])
            if not body:
                for e in ws:
                    body = body or find_dump(e[5][0])
            if None in seqs or not body:
                part = [s for s in seqs if s is not None]
                L.ob('frame-bytes', nm, None, ws[0][1], 'bytes not recognised')
            else:
                msg = ('dump', body[0])
                want = T.concat(T.concat(T.concat(b'Content-Length: ', ('app', 'dec', T.seqlen(msg))), b'\r\n\r\n'), msg)
                got = b''
                for s in seqs:
                    got = T.concat(got, s)
                if allok:
                    v = OK if got == want else (BAD if closed_form(got) else None)
                    L.ob('frame-bytes', nm, v, ws[0][1], 'writes %s, expected %s' % (show(got), show(want)))
                else:
                    v = prefix(got, want)
                    L.ob('frame-bytes', nm + ' (write failed)', v, ws[0][1], 'writes %s after a failed write' % show(got))
            # critical section
            idx = [i for i, e in enumerate(evl) if e in ws]
            common_l = None
            for e in ws:
                ls = {l for l in e[2] if l[1] == 'x' and T.root(l[0]) in (SELF,)}
                common_l = ls if common_l is None else common_l & ls
            if not common_l:
                L.ob('one-critical-section', nm, BAD, ws[0][1], 'the writes of one message do not share a lock')
            else:
                broken = None
                for x in evl[idx[0]:idx[-1]]:
                    if x[0] == 'rel':
                        common_l = {l for l in common_l if l[0] != x[3]}
                        broken = x
                L.ob('one-critical-section', nm, OK if common_l else BAD, (broken or ws[0])[1],
                     'the lock is released between the header and the message')
                mutexes[nm] = {l[0] for l in common_l}
            # open
            first = idx[0]
            okopen = None
            for x in evl[:first]:
                if x[0] == 'icall' and x[3].endswith('::isOpen') and x[4] == ws[0][4] and st.facts.decide(x[6]):
                    okopen = x
            if okopen is None:
                L.ob('open-checked', nm, BAD, ws[0][1], 'the message is written without checking that the writer is open')
            else:
                held = any(l in okopen[2] for l in (ws[0][2] or ()))
                L.ob('open-checked', nm, OK if held or not ws[0][2] else BAD, okopen[1],
                     'open is checked outside the lock under which the message is written')
        if nm.startswith('send('):
            ret = I.rv(st, ret, 'bool')
            fail = [e for e in evl if e[0] == 'serobj' and not e[4]]
            if fail:
                L.ob('result-reported', nm + ' encoding failed: nothing written', BAD if ws else OK, (ws or fail)[0][1],
                     'a message that failed to encode is written all the same')
            for s2, b in I.fork(st.copy(), ret):
                oks = [s2.facts.decide(e[6]) for e in ws]
                if b:
                    v = OK if ws and all(oks) and not fail else BAD
                    L.ob('result-reported', nm + ' true', v, (ws[-1] if ws else evl[-1])[1] if evl else None,
                         'send returns true although %s' % ('nothing was written' if not ws else 'a write failed or was not checked'))
                elif not fail and ws and all(oks):
                    groups, rest = messages(I, st, evs)
                    L.ob('result-reported', nm + ' false', BAD if groups else None, ws[-1][1], 'send returns false although the message was written')
                else:
                    L.ob('result-reported', nm + ' false', OK, None)
    if len(mutexes) > 1:
        common_m = set.intersection(*mutexes.values())
        L.ob('one-critical-section', 'all senders', OK if common_m else BAD, None,
             'different senders use different locks: %s' % {k: [show(x) for x in v] for k, v in mutexes.items()})
    if not any_w:
        L.ob('frame-bytes', 'any', None, None, 'no write was found')


def closed_form(s):
    """Only literals, decimal numbers and dumped text: nothing unknown."""
    for p in T.parts_of(s) if not isinstance(s, bytes) else ():
        if p[0] == 'lit':
            continue
        if p[0] == 'sl' and isinstance(p[1], tuple) and (p[1][0] == 'dump' or p[1][:2] == ('app', 'dec')):
            continue
        return False
    return True


def prefix(got, want):
    g, w = list(T.parts_of(got)), list(T.parts_of(want))
    if g == w[:len(g)]:
        return True
    if g and g[:-1] == w[:len(g) - 1] and len(g) <= len(w):
        a, b = g[-1], w[len(g) - 1]
        if a[0] == 'lit' and b[0] == 'lit':
            return b[1].startswith(a[1])
    return False if closed_form(got) else None


# -- C09 ---------------------------------------------------------------------------

def thread_paths(m, summarise=True):
    """[(closure, I, [(state, ret)])] for the threads started by the session."""
    r = m.run('startProcessingMessages')
    out = []
    if not r:
        return out
    seen = set()
    for st, _ in r.rs:
        for e in st.events():
            if e[0] == 'thread' and isinstance(e[3], tuple) and e[3][0] == 'clo' and e[3][1] not in seen:
                seen.add(e[3][1])
                I = new_interp(m.P, m.setup)
                I.exact[SELF] = m.cls
                I.uid = 10 ** 6
                gp = m.method('getPayload')

                def payload(I, st, fr, e2, fn, loc, ops):
                    v = I.fresh('payload', 'o')
                    o = []
                    for s, b in I.fork(st, T.eq(v, 0)):
                        s.ev('payload', e2['p'], 0 if b else v)
                        o.append((s, 0 if b else v))
                    return o

                def copen(I, st, fr, e2, fn, loc, ops):
                    s2 = st.copy()
                    st.ev('copen', e2['p'], True)
                    s2.ev('copen', e2['p'], False)
                    return [(st, 1), (s2, 0)]
                I.summ[X.untemplate(gp.q)] = payload
                I.summ['dap::ContentReader::isOpen'] = copen
                st2 = X.St()
                try:
                    rs = I.call_closure(st2, e[3], [], e[1])
                except X.Undecided as x:
                    m.L.note('thread: %s' % x)
                    rs = None
                m.L.ran(I, rs or [])
                out.append((e[3], I, rs, e[1]))
    return out


def C09(L):
    m = Model(L)
    L.rule('queue-every-payload', 'the receive loop puts every payload it gets into the queue once')
    L.rule('loop-while-open', 'the receive loop goes on only while the stream is open, and stops only when it is not')
    L.rule('close-handler-once', 'a close handler is called exactly once, after the loop, and an empty one is not called')
    L.rule('dispatch-once', 'every item taken from the queue is called once; the dispatch loop ends only when the queue is closed and drained')
    L.rule('end-of-stream-seen', 'once a read reported the end of the stream, reading stops and the stream reports not open')
    r = m.run('startProcessingMessages')
    if not r:
        L.ob('loop-while-open', 'startProcessingMessages', None, None, 'not analysable')
        return
    pn = r.fn.params[0]['n']
    onclose = pval(pn)
    tp = thread_paths(m)
    if not tp:
        L.ob('loop-while-open', 'threads', None, r.fn.p, 'no thread closure recognised')
    recv = disp = recv_close = False
    disp_close = []
    calls_close = 0
    frames_kept(L, m)
    for clo, I, rs, pos in tp:
        if rs is None:
            L.ob('loop-while-open', 'thread', None, pos, 'not analysable')
            continue
        # receive thread: calls getPayload
        kinds = {e[0] for st, _ in rs for e in flat(st.events())}
        if 'payload' in kinds:
            recv = True
            for st, _ in rs:
                evs = st.events()
                allv = list(flat(evs))
                for e in evs:
                    if e[0] == 'loop':
                        for b in e[3]:
                            bl = list(flat(b))
                            pl = [x for x in bl if x[0] == 'payload']
                            if not pl:
                                continue
                            before = [x for x in bl[:bl.index(pl[0])] if x[0] == 'copen']
                            after = [x for x in bl[bl.index(pl[-1]):] if x[0] == 'copen']
                            good = before[-1][3] if before else bool(after)
                            L.ob('loop-while-open', 'continue', OK if good else BAD, pl[0][1],
                                 'the loop goes on without checking that the stream is open')
                            for x in pl:
                                if x[3] == 0:
                                    continue
                                puts = [y for y in bl if y[0] in ('cpush', 'cpushf', 'cinsert') and has_term(y, lambda z: z == x[3])]
                                L.ob('queue-every-payload', 'receive loop', OK if len(puts) == 1 else BAD, x[1],
                                     'a payload is queued %d times' % len(puts))
                            if any(x[0] == 'ucall' and x[3] == onclose for x in bl):
                                L.ob('close-handler-once', 'called in loop', BAD, pl[0][1], 'the close handler is called inside the loop')
                # exit
                tail = []
                for e in evs:
                    if e[0] == 'loop' and any(x[0] == 'payload' for x in flat([e])):
                        tail = []
                    else:
                        tail.append(e)
                tl = list(flat(tail))
                opens = [x for x in tl if x[0] == 'copen']
                lost = [x for x in tl if x[0] == 'payload' and x[3] != 0 and
                        not any(y[0] in ('cpush',) and has_term(y, lambda z: z == x[3]) for y in tl)]
                if lost:
                    L.ob('queue-every-payload', 'at exit', BAD, lost[0][1], 'a payload is dropped when the loop ends')
                carried = any(x[0] == 'copen' for e in evs if e[0] == 'loop' for b in e[3]
                              for x in list(flat(b))[max([i for i, y in enumerate(flat(b)) if y[0] == 'payload'] or [10 ** 9]):])
                L.ob('loop-while-open', 'exit', OK if (opens and not opens[-1][3]) or (not opens and carried) else BAD, pos,
                     'the receive loop ends although the stream is open')
                wiped = [x for x in allv if queue_wiped(m, x)]
                L.ob('queue-every-payload', 'kept', BAD if wiped else OK, wiped[0][1] if wiped else pos,
                     'the receive thread throws queued messages away')
                cc = [x for x in allv if x[0] == 'ucall' and x[3] == onclose]
                recv_close = recv_close or bool(cc)
                empty = st.facts.decide(T.eq(onclose, 0))
                maybe = [x for x in allv if x[0] == 'maybe_emptycall' and x[3] == onclose]
                if empty:
                    L.ob('close-handler-once', 'empty', BAD if cc else OK, pos, 'an empty close handler is called')
                else:
                    calls_close += len(cc)
                    if maybe:
                        L.ob('close-handler-once', 'empty', BAD, maybe[0][1], 'the close handler is called although it may be empty')
                    L.ob('close-handler-once', 'receive thread', OK if len(cc) == 1 else BAD, cc[-1][1] if cc else pos,
                         'the close handler is called %d times on one path' % len(cc))
                    if cc:
                        ci = allv.index(cc[0])
                        after = [x for x in allv[ci:] if x[0] in ('cpush', 'payload')]
                        L.ob('close-handler-once', 'after the last message', BAD if after else OK, cc[0][1],
                             'messages are still queued after the close handler was called')
        elif 'cpop' in kinds or 'wait' in kinds:
            disp = True
            for st, _ in rs:
                oc = [x for x in flat(st.events()) if x[0] == 'ucall' and x[3] == onclose]
                if oc:
                    disp_close.append(oc[0])
                for e in st.events():
                    if e[0] != 'loop':
                        continue
                    for b in e[3]:
                        bl = list(flat(b))
                        pops = [x for x in bl if x[0] == 'cpop']
                        calls = [x for x in bl if x[0] == 'ucall']
                        if pops:
                            L.ob('dispatch-once', 'dispatch loop', OK if len(calls) == 1 else BAD, (calls or pops)[-1][1],
                                 'an item taken from the queue is called %d times' % len(calls))
                        elif calls:
                            L.ob('dispatch-once', 'dispatch loop', None, calls[0][1], 'call without a take')
                # exit path: nothing taken and dropped
                tail = []
                for e in st.events():
                    if e[0] == 'loop':
                        tail = []
                    else:
                        tail.append(e)
                tp2 = [x for x in flat(tail) if x[0] == 'cpop']
                tc = [x for x in flat(tail) if x[0] == 'ucall']
                L.ob('dispatch-once', 'at exit', BAD if tp2 and not tc else OK, tp2[0][1] if tp2 else pos,
                     'an item is taken from the queue and dropped when the loop ends')
                tl = list(flat(tail))
                if tp2 and tc and not any(x[0] in ('wait', 'waited') for x in tl[tl.index(tp2[-1]):]):
                    L.ob('dispatch-once', 'until drained', BAD, tp2[0][1],
                         'the dispatch thread ends after an item although the queue was not found closed and empty')
        else:
            L.ob('dispatch-once', 'thread', None, pos, 'thread not recognised')
    if disp_close and recv_close:
        L.ob('close-handler-once', 'dispatch thread', BAD, disp_close[0][1],
             'the close handler is called by the dispatch thread as well as by the receive thread')
    if tp and not recv:
        L.ob('loop-while-open', 'receive thread', None, r.fn.p, 'not recognised')
    if tp and not disp:
        L.ob('dispatch-once', 'dispatch thread', None, r.fn.p, 'not recognised')
    # end of stream
    P = m.P
    CR = 'dap::ContentReader'
    rd = [f for f in P.fns.values() if f.rec == CR and calls_direct(f, 'dap::Reader::read')]
    if not rd:
        L.ob('end-of-stream-seen', CR, None, None, 'no call of Reader::read found')
    isopen = [f for f in P.fns.values() if f.rec == CR and f.n == 'isOpen']
    for f in rd:
        spins = []

        def on_loop(I, s, st0, h, backs, lev, fr):
            for b in backs:
                for x in flat(b.events(since=h.trace)):
                    if x[0] == 'icall' and x[3] == 'dap::Reader::read':
                        if b.facts.decide(T.eq(x[6], 0)) is not False:
                            spins.append(x)
        I = new_interp(P)
        I.loop_hook = on_loop
        rr = run(L, P, f, CR, I=I)
        if rr is None:
            L.ob('end-of-stream-seen', f.q, None, f.p, 'not analysable')
            continue
        L.ob('end-of-stream-seen', f.q + ' no spinning', BAD if spins else OK, spins[0][1] if spins else f.p,
             'the loop goes on after a read returned 0')
        for st, ret in rr.rs:
            reads = [x for x in flat(st.events()) if x[0] == 'icall' and x[3] == 'dap::Reader::read']
            ended = [x for x in reads if st.facts.decide(T.eq(x[6], 0))]
            if not ended or not isopen:
                continue
            try:
                for s2, v in rr.I.invoke(isopen[0].key, SELF, [], st.copy(), f.p):
                    v = rr.I.rv(s2, v, 'bool')
                    closed_evs = [x for x in flat(st.events()) if x[0] == 'icall' and x[3] == 'dap::Closable::close']
                    d = s2.facts.decide(v)
                    if closed_evs:
                        d = False
                    L.ob('end-of-stream-seen', f.q + ' then isOpen', OK if d is False else BAD, ended[0][1],
                         'after a read returned 0 the reader may still report open, so the receive loop spins')
            except X.Undecided:
                pass


def frames_kept(L, m):
    L.rule('frame-processed', 'every frame that was read is decoded, unless it is empty')
    for p in m.recv_paths() or []:
        rd = [e for e in flat(p.evs) if e[0] == 'cread']
        if not rd or any(e[0] == 'parse' for e in flat(p.evs)):
            continue
        z = p.st.facts.decide(T.eq(T.seqlen(rd[-1][3]), 0))
        L.ob('frame-processed', 'getPayload', OK if z else (None if p.st.notes or p.ret == ('unknown',) else BAD), rd[-1][1],
             'a message that was read is dropped without being decoded')


def queue_wiped(m, e):
    """Does the event empty the queue of messages?"""
    if e[0] not in ('cclear', 'cset', 'set') or not isinstance(e[3], tuple):
        return False
    fs = [f['n'] for f in m.P.recs[m.cls]['fields'] if X.untemplate(X.noref(f['t'])) == 'dap::Chan']
    if not any(T.under(e[3], ('f', SELF, n)) for n in fs):
        return False
    return e[0] == 'cclear' or (e[0] in ('cset', 'set') and e[4] in (b'', ('seq', ())))


def calls_direct(f, q):
    found = []

    def walk(o):
        if isinstance(o, dict):
            if o.get('k') == 'call' and o.get('fn') and o['fn'].get('q') == q:
                found.append(o)
            for v in o.values():
                if isinstance(v, (dict, list)):
                    walk(v)
        elif isinstance(o, list):
            for v in o:
                if isinstance(v, (dict, list)):
                    walk(v)
    walk(f.body)
    return found


# -- C10 ---------------------------------------------------------------------------

def chan_mark(L, P, cls):
    """The members (and values) by which closing a channel marks it closed."""
    out = {}
    for f in P.fns.values():
        if f.rec == cls and f.q.split('::')[-1] == 'close' and f.body is not None:
            r = run(L, P, f, cls)
            for st, _ in (r.rs if r else ()):
                for e in flat(st.events()):
                    if e[0] == 'set' and T.root(e[3]) == SELF and isinstance(e[4], int):
                        out[e[3]] = e[4]
    return out


def C10(L):
    m = Model(L)
    L.rule('unblock-before-join', 'the destructor closes the queue, the reader and the writer before it joins a thread')
    L.rule('join-all', 'every thread the session may have started is joined before the destructor body ends')
    L.rule('second-call-inert', 'a second connect or start changes no member, starts no thread and is reported')
    L.rule('atomic-guard', 'the first-call test of connect and start is one atomic read-modify-write or under a lock')
    P = m.P
    threads = set()
    r = m.run('startProcessingMessages')
    if r:
        for st, _ in r.rs:
            for e in flat(st.events()):
                if e[0] == 'thrset' and T.root(e[3]) == SELF:
                    threads.add(e[3])
                if e[0] == 'detach':
                    L.ob('join-all', 'detach', BAD, e[1], 'a session thread is detached')
    dt = [f for f in P.fns.values() if f.rec == m.cls and f.kind == 'dtor']
    if not dt:
        if threads:
            L.ob('join-all', 'destructor', BAD, P.recs[m.cls]['p'], 'the session has no destructor that joins its threads')
    rd = run(L, P, dt[0], m.cls, m.setup) if dt else None
    if not threads:
        L.ob('join-all', 'threads', None, None, 'thread members not recognised')
    fs = {f['n']: f['t'] for f in P.recs[m.cls]['fields']}
    # what the thread bodies block on
    if rd:
        for st, _ in rd.rs:
            evl = list(flat(st.events()))
            joins = [i for i, e in enumerate(evl) if e[0] == 'join']
            first = joins[0] if joins else len(evl)
            for t in sorted(threads, key=str):
                v = ('v', t, 0, 'o')
                j = [e for e in evl if e[0] == 'join' and e[3] == t]
                nj = st.facts.decide(('app', 'joinable', v))
                if nj is None:
                    cand = [k for k, b in st.facts.truth.items() if k[:2] == ('app', 'joinable') and has_term(k, lambda x: x == t)]
                    nj = st.facts.truth[cand[0]] if cand else None
                L.ob('join-all', show(t), OK if j or nj is False else BAD, dt[0].p,
                     'the destructor can finish without joining %s' % show(t))
                if j and nj is None:
                    L.ob('join-all', show(t) + ' joinable', BAD, j[0][1],
                         'joins %s without checking that it was started' % show(t))
            for e in evl:
                if e[0] == 'thrdtor' and T.root(e[3]) == SELF:
                    L.ob('join-all', show(e[3]), BAD, e[1], 'a running thread is destroyed')
                if e[0] == 'detach':
                    L.ob('join-all', 'detach', BAD, e[1], 'a session thread is detached')
            if joins:
                # close() of reader and writer (when present) precede
                for what, mem in (('reader', 'dap::ContentReader'), ('writer', 'dap::ContentWriter')):
                    locs = [('f', SELF, n) for n, t in fs.items() if X.noref(t) == mem]
                    for l in locs:
                        cl = [i for i, e in enumerate(evl) if e[0] == 'icall' and e[3] == 'dap::Closable::close' and
                              has_term(e[4], lambda x: x == l)]
                        inner = closable_field(P, mem)
                        nullv = inner and st.facts.decide(T.eq(('v', ('f', l, inner), 0, 'p'), 0))
                        if nullv is None and inner:
                            nullv = st.facts.decide(T.eq(('v', ('f', l, inner), 0, 'o'), 0))
                        if what == 'writer' and False:
                            continue
                        if nullv:
                            continue
                        v = OK if cl and cl[0] < first else BAD
                        L.ob('unblock-before-join', what, v, evl[first][1] if joins else dt[0].p,
                             'a thread is joined although the %s was not closed before' % what)
                qs = [n for n, t in fs.items() if X.untemplate(X.noref(t)) == 'dap::Chan']
                for n in qs:
                    q = ('f', SELF, n)
                    st0 = [i for i, e in enumerate(evl) if e[0] in ('set', 'notify') and T.under(e[3], q)]
                    mark = chan_mark(L, P, X.noref(fs[n]))
                    clo = [i for i in st0 if evl[i][0] == 'set' and (evl[i][3], evl[i][4]) in
                           {(T.rebase(l, SELF, q), c) for l, c in mark.items()}]
                    v = OK if clo and clo[0] < first else BAD
                    L.ob('unblock-before-join', 'queue', v, evl[first][1], 'a thread is joined although the queue was not closed before')
                    reop = [i for i in st0 if clo and i > clo[0] and evl[i][0] == 'set' and evl[i][3] == evl[clo[0]][3]
                            and isinstance(evl[i][4], int) and evl[i][4] != evl[clo[0]][4]]
                    if reop:
                        L.ob('unblock-before-join', 'queue', BAD, evl[reop[0]][1], 'the queue is opened again')
    elif dt:
        L.ob('join-all', 'destructor', None, dt[0].p, 'not analysable')
    for nm in ('connect', 'startProcessingMessages'):
        f = m.method(nm)
        r = m.run(nm)
        if not r:
            L.ob('second-call-inert', nm, None, f.p, 'not analysable')
            continue
        guards = {e[3] for st, _ in r.rs for e in flat(st.events()) if e[0] in ('axchg', 'acas') and T.root(e[3]) == SELF}
        for what, evs in others(m, nm):
            undo = [e for e in flat(evs) if e[0] in ('astore', 'axchg') and e[3] in guards and e[4] in (0, False)]
            if undo:
                L.ob('second-call-inert', nm + ' stays done', BAD, undo[0][1],
                     '%s makes %s possible a second time' % (what, nm))
        inert = active = 0
        for st, _ in r.rs:
            evl = list(flat(st.events()))
            chg = [e for e in evl if (e[0] in ('set', 'cset', 'mput', 'merase', 'thrset') and T.root(e[3]) == SELF) or e[0] == 'thread']
            rmw = [e for e in evl if e[0] in ('axchg', 'acas') and T.root(e[3]) == SELF]
            loads = [e for e in evl if e[0] == 'aload' and T.root(e[3]) == SELF]
            if rmw:
                g = rmw[0]
                was = st.facts.decide(g[-1]) if g[0] == 'axchg' else None
                if g[0] == 'axchg' and was is True:
                    inert += 1
                    L.ob('second-call-inert', nm + ' changes nothing', BAD if chg else OK, chg[0][1] if chg else g[1],
                         'a second call of %s still has an effect' % nm)
                    L.ob('second-call-inert', nm + ' reported', m.reported(st, st.events()), g[1], 'a second call of %s is not reported' % nm)
                elif g[0] == 'axchg' and was is False:
                    active += 1
                elif g[0] == 'axchg' and chg:
                    L.ob('second-call-inert', nm + ' changes nothing', BAD, chg[0][1], 'the result of the first-call test is not used')
                if g[0] == 'axchg':
                    L.ob('atomic-guard', nm, OK if g[4] in (1, True) else BAD, g[1], 'the guard is set to %s' % show(g[4]))
            elif chg:
                stores = [e for e in evl if e[0] == 'astore' and T.root(e[3]) == SELF]
                if loads and not loads[0][2]:
                    L.ob('atomic-guard', nm, BAD, loads[0][1], 'test and set of %s are separate: two calls can both pass' % show(loads[0][3]))
                elif not loads:
                    plain = [k for k in list(st.facts.truth) if has_term(k, lambda x: isinstance(x, tuple) and len(x) == 4 and x[0] == 'v' and T.root(x[1]) == SELF)] if True else []
                    locked = any(e[2] for e in chg)
                    L.ob('atomic-guard', nm, None if (plain or locked) else BAD, chg[0][1], 'no first-call test')


def others(m, nm):
    """Events of everything that runs besides the entry point nm."""
    for o in ('connect', 'startProcessingMessages', 'onError', 'setOnInvalidData'):
        if o != nm:
            r = m.run(o)
            for st, _ in (r.rs if r else ()):
                yield o, st.events()
    for c, I, rs, pos in thread_paths(m):
        for st, _ in rs or ():
            yield 'a thread of the session', st.events()
    for p in m.recv_paths() or ():
        yield 'receiving a message', p.evs
    for n, I, st, evs, ret in sends(m):
        yield n, evs


def closable_field(P, rec):
    r = P.recs.get(rec)
    for f in (r or {}).get('fields', []):
        if 'std::shared_ptr' in f['t'] or 'std::unique_ptr' in f['t']:
            return f['n']
    return None
