"""C07, C08: what ContentReader::read takes from the stream and returns.

read() is interpreted with all its helpers over a ghost input stream
(engine/frames.py), once per policy. Every path yields a regular expression over
consumed bytes (loops are closures over their bodies); a small automaton for the
frame grammar decides whether the bytes consumed on it are those of a frame."""
import re
from common import *
import frames as F
from frames import S, RLOC, FLOC, HEADER, CRLF2, DIGITS, one_slice
from terms import add, sub, eq, le, lt, seqlen, parts_of

WS = frozenset(b' \t')
CLS = 'dap::ContentReader'


class Bad(Exception):
    pass


class Unsure(Exception):
    pass


# -- the reader ---------------------------------------------------------------------
class Reader(object):
    def __init__(self, L):
        self.P = ir.extract(ir.src('content_stream.cpp'))
        rec = self.P.recs.get(CLS)
        if rec is None:
            raise AnalysisError('no class ' + CLS)
        self.fields = rec['fields']
        self.bufs = [f for f in self.fields if is_bytes(f['t'])]
        self.policy = [f for f in self.fields if f['t'].split('::')[-1] == 'OnInvalidData']
        self.other = [f for f in self.fields if f not in self.bufs and f not in self.policy
                      and re.match(r'(const )?(unsigned |signed )?(int|long|short|char|size_t)\b', f['t'])]
        self.read = next((f for f in self.P.fns.values() if f.q == CLS + '::read' and f.body), None)
        self.values = enum_values(self.P)

    def simple(self):
        return len(self.bufs) == 1 and len(self.policy) == 1 and not self.other and self.read is not None

    def run(self, policy):
        I = F.FInterp(self.P)
        I.exact[SELF] = CLS
        b = ('f', SELF, self.bufs[0]['n'])
        I.bufs = (b,)
        st = X.St()
        n0 = ('v', ('o', 'buffered'), 0, 'u')
        st.store[b] = T.mkseq([('sl', S, 0, n0)])
        st.store[RLOC], st.store[FLOC] = n0, 0
        st.store[('f', SELF, self.policy[0]['n'])] = self.values[policy]
        for f in self.fields:
            if f['t'] == 'bool' and f.get('init', {}).get('v') in (0, '0', False):
                st.store[('f', SELF, f['n'])] = 0
        return I, I.invoke(self.read.key, SELF, params(self.read), st, self.read.p)


def is_bytes(t):
    return bool(re.match(r'(const )?(std::)?(__cxx11::)?(deque|vector|list|basic_string)<(unsigned char|char|signed char|uint8_t)\b', t)) \
        or t in ('std::string',)


def enum_values(P):
    out = {}

    def walk(x):
        if isinstance(x, dict):
            if x.get('dk') == 'enum' and x.get('q', '').split('::')[-1] in ('kClose', 'kIgnore'):
                out[x['q'].split('::')[-1]] = int(x['cv'])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    for f in P.fns.values():
        walk(f.body)
        walk(getattr(f, 'params', None))
    out.setdefault('kIgnore', 0)
    out.setdefault('kClose', 1)
    return out


# -- the grammar ----------------------------------------------------------------------
# states: 0 seeking, 1..14 inside the header name, 'ws', 'dig', 'cr1'..'cr3', 'pay'
class Walk(object):
    def __init__(self, skip):
        self.skip = skip                # bytes before a header may be dropped
        self.payload = None             # index of the first payload byte
        self.digits = []                # loops and bytes that make up the length
        self.seen = 0

    def byte(self, q, vals, miss, vague, a, pos, loop):
        self.seen += 1
        if q == 'pay':
            return q

        def fail(msg):
            if vague and vals is None:
                raise Unsure(msg)
            raise Bad((pos, msg))
        what = 'a byte that can be anything' if vals is None else 'byte %s' % '/'.join(repr(chr(v)) for v in sorted(vals))
        if q == 0:
            if miss is not None:
                if self.skip:
                    return 0
                fail('drops %s although invalid data has to close the stream' % what)
            if vals == {HEADER[0]}:
                return 1
            if self.skip:
                if vals is None and vague:
                    raise Unsure(what)
                raise Bad((pos, 'skips %s although a header can start there' % what))
            fail('takes %s as the start of a header' % what)
        if isinstance(q, int):
            if vals == {HEADER[q]}:
                return q + 1 if q + 1 < len(HEADER) else 'ws'
            fail('takes %s where the header has %r' % (what, chr(HEADER[q])))
        if q == 'ws' and vals is not None and vals <= WS:
            return q
        if q in ('ws', 'dig') and vals is not None and vals <= DIGITS:
            self.digits.append((a, vals, loop))
            return 'dig'
        if q in ('dig', 'cr1', 'cr2', 'cr3'):
            i = 0 if q == 'dig' else int(q[2])
            if vals == {CRLF2[i]}:
                if i == 3:
                    self.payload = add(a, 1)
                    return 'pay'
                return 'cr%d' % (i + 1)
        fail('takes %s %s' % (what, {'ws': 'after the header name', 'dig': 'after the length'}.get(q, 'inside the blank line')))

    def step(self, Q, f):
        """Apply f to every state; what no state admits is an error."""
        out, bad, unsure = set(), None, None
        for q in sorted(Q, key=str):
            try:
                out |= f(q)
            except Bad as x:
                bad = bad or x
            except Unsure as x:
                unsure = unsure or x
        if out:
            return out
        raise unsure or bad

    def seq(self, Q, evs, loop=None):
        for e in evs:
            if e[0] == 'eat':
                a, d, vals, miss, vague, flush = e[3:9]
                if vals is None:
                    if flush == 'partial' and self.skip and Q == {0}:
                        raise Bad((e[1], 'skips the byte that ended a partial match, although a header can start there'))
                    if flush and flush != 'partial' and self.skip and 'pay' not in Q:
                        raise Bad((e[1], 'drops everything that was received, read or not'))
                    if Q == {'pay'}:
                        self.seen += 1
                        continue
                    raise Unsure('a number of bytes that is not constant is removed')
                for i in range(d):
                    Q = self.step(Q, lambda q: {self.byte(q, vals[i], miss[i], vague, add(a, i), e[1], loop)})
            elif e[0] == 'mess':
                raise Unsure('the buffer is given a value the analysis cannot follow')
            elif e[0] == 'loop':
                Q = self.step(Q, lambda q: self.loop(q, e))
        return Q

    def loop(self, q, e):
        bodies = [b for b in e[3] if any(x[0] in ('eat', 'mess') for x in flat(b))]
        states, todo = {q}, [q]
        while todo:
            s = todo.pop()
            for b in bodies:
                try:
                    ts = self.seq({s}, b, e)
                except Bad as x:
                    if modes(bodies):
                        raise Unsure(x.args[0][1])
                    raise
                todo += [t for t in ts if t not in states]
                states |= ts
        return states


def modes(bodies):
    """Does a variable select what an iteration does?"""
    for b in bodies:
        for x in b:
            if x[0] == 'lstep':
                for loc, entry, h, back, ok in x[3]:
                    if loc not in (RLOC, FLOC) and isinstance(back, int):
                        return True
    return False


def analyse(L, R, policy):
    """[(state, result, walk, grammar states, error)] for every path."""
    I, rs = R.run(policy)
    L.ran(I, rs)
    out = []
    for s, v in rs:
        w = Walk(policy == 'kIgnore')
        err = Q = None
        try:
            Q = w.seq({0}, s.events())
        except (Bad, Unsure) as x:
            err = x
        out.append((s, v, w, Q, err))
    return I, out


def ended(evs):
    return any(e[0] == 'rd' and e[5] == 0 for e in flat(evs))


def closed(evs):
    return any(e[0] == 'icall' and e[3].split('::')[-1] == 'close' for e in flat(evs))


def null_reader(s):
    """The path on which there is no reader to close."""
    for k, v in s.facts.truth.items():
        if v is True and isinstance(k, tuple) and k[0] == 'eq' and has_term(k, lambda t: isinstance(t, tuple) and len(t) == 3
                                                                            and t[0] == 'f' and t[1] == SELF):
            return True
    return False


# -- the length -----------------------------------------------------------------------
def length_rows(evs):
    """Loop variables that an iteration multiplies: (row, loop, body)."""
    for e in evs:
        if e[0] != 'loop':
            continue
        for b in e[3]:
            for x in b:
                if x[0] == 'lstep':
                    for row in x[3]:
                        loc, entry, h, back, ok = row
                        if loc in (RLOC, FLOC) or not T.is_lin(back):
                            continue
                        c, d = T.lin(back)
                        hc, hd = T.lin(h)
                        if len(hd) == 1 and abs(d.get(next(iter(hd)), 0)) > 1:
                            yield row, e, b, x[1]
            for y in length_rows(b):
                yield y


def step_ok(row, body):
    """Is the effect of the iteration 10 * h + digit for the digit it consumed?"""
    loc, entry, h, back, ok = row
    eats = [x for x in body if x[0] == 'eat']
    if len(eats) != 1 or eats[0][4] != 1 or eats[0][5] is None or eats[0][5][0] is None:
        return None
    a, vals = eats[0][3], eats[0][5][0]
    rest = sub(back, T.scale(h, 10))
    if rest == sub(('at', S, a), 48):
        return True
    if isinstance(rest, int):
        return rest == min(vals) - 48 if len(vals) == 1 else False
    c, d = T.lin(rest)
    if set(d) <= {('at', S, a)} | set(T.lin(h)[1]):
        return False
    return None


def policies(L, R):
    for p in ('kIgnore', 'kClose'):
        try:
            I, out = analyse(L, R, p)
        except X.Undecided as e:
            L.note('ContentReader::read under %s: %s' % (p, e))
            yield p, None, None
            continue
        yield p, I, out


def prepare(L):
    R = Reader(L)
    L.assumptions.append('dap::Reader::read(p, n) stores between 1 and n bytes at p and returns their number, or returns 0 '
                         'once the stream has ended')
    L.assumptions.append('an object is used by one thread at a time; bytes already buffered are a part of the stream')
    return R


def C07(L):
    R = prepare(L)
    L.rule('order', 'At every back edge of a loop that receives, the buffer is the part of the stream from the first byte not '
                    'removed to the last byte received: received bytes are appended in order, once, and none is lost.')
    L.rule('grammar', 'The bytes removed on every path are those of SKIP* "Content-Length:" [ \\t]* [0-9]+ CR LF CR LF PAYLOAD '
                      'or of a prefix (no SKIP when invalid data closes the stream); SKIP is a byte at which the header name is known not to start.')
    L.rule('length', 'An iteration that consumes the digit d replaces the length h by 10 * h + d, starting from 0.')
    L.rule('payload', 'A result that is not empty is the part of the stream that follows the blank line, as long as the length says, '
                      'and exactly that part is removed.')
    L.rule('reject', 'An empty result is returned only at the end of the stream or when the bytes that come next are known not to '
                     'continue a frame.')
    L.rule('policy', 'When invalid data has to close the stream, the reader is closed on every path that returns nothing before the '
                     'end of the stream; when it is ignored, it is not closed.')
    L.rule('transfer', 'Construction keeps the reader and the policy; assignment transfers every member.')
    if not R.simple():
        for r in ('order', 'grammar', 'length', 'payload', 'reject', 'policy'):
            L.ob(r, 'ContentReader::read', None, None, 'the members of the reader are not those the analysis understands')
    else:
        for p, I, out in policies(L, R):
            inst = 'ContentReader::read, ' + p
            if out is None:
                for r in ('order', 'grammar', 'length', 'payload', 'reject', 'policy'):
                    L.ob(r, inst, None)
                continue
            decide_paths(L, R, p, I, out)
    transfer(L, R)


def decide_paths(L, R, p, I, out):
    buf = I.bufs[0]
    for evs in [s.events() for s, v, w, Q, err in out] + I.dropped:
        for e in flat(evs):
            if e[0] == 'fit':
                L.ob('order', 'loop at %s, %s' % (posn(e[1]), p), True if e[4] is True else wrong_order(e[5]), e[1],
                     'the bytes received in an iteration are not appended as they are: %s' % show(e[5]))
            elif e[0] == 'mess':
                L.ob('order', 'buffer, %s' % p, False if e[5] else wrong_order(e[4]), e[1],
                     'the buffer becomes %s%s' % (show(e[4]), ', which has bytes no read delivered' if e[5] else ''))
    rows = {}
    for n, (s, v, w, Q, err) in enumerate(out):
        inst = 'path %d, %s' % (n, p)
        evs = s.events()
        L.count('paths')
        if isinstance(err, Bad):
            L.ob('grammar', inst, False, err.args[0][0], err.args[0][1])
            continue
        if err is not None:
            L.note('%s: %s' % (inst, err))
            for r in ('grammar', 'payload', 'reject'):
                L.ob(r, inst, None)
        else:
            L.ob('grammar', inst, True)
        for row, lp, body, pos in length_rows(evs):
            if any(x[0] == 'eat' for x in body):
                rows[row[2]] = row
                ok = step_ok(row, body)
                if ok and row[1] != 0:
                    ok = False if isinstance(row[1], int) else None
                L.ob('length', 'loop at %s, %s' % (posn(pos), p), ok, pos,
                     'the length becomes %s (entered with %s) for the digit at %s' % (show(row[3]), show(row[1]), show([x for x in body if x[0] == 'eat'][0][3])))
        end, cl = ended(evs), closed(evs)
        if err is None and v != b'' and not end:
            payload(L, inst, s, v, w, Q, rows, p)
        if v == b'' and not end:
            if p == 'kClose':
                ok = True if cl else None if null_reader(s) else False
                if ok is not None:
                    L.ob('policy', inst, ok, R.read.p, 'returns nothing on invalid data without closing the reader')
            else:
                L.ob('policy', inst, not cl, R.read.p, 'closes the reader although invalid data is to be ignored')
            if err is None:
                reject(L, inst, R, s, w, Q, rows, I)
        elif v == b'' and end:
            L.ob('policy', inst, True)
            if err is None:
                L.ob('reject', inst, True)


def wrong_order(v):
    """False if the value is built from received bytes but not a run of them."""
    ps = parts_of(v) if not isinstance(v, int) and v is not None else ()
    if not ps or not all(q[0] in ('sl', 'el') for q in ps):
        return None
    at = None
    for q in ps:
        if q[0] == 'sl':
            if q[1] != S:
                return None
            a, n = q[2], q[3]
        else:
            if not (isinstance(q[1], tuple) and q[1][0] == 'at' and q[1][1] == S):
                return None
            a, n = q[1][2], 1
        if at is not None and isinstance(sub(a, at), int) and a != at:
            return False
        at = add(a, n)
    return False if at is not None else None


def payload(L, inst, s, v, w, Q, rows, p):
    if Q != {'pay'} or w.payload is None:
        L.ob('payload', inst, None if w.seen == 0 else False, None, 'returns bytes before a frame header was consumed')
        return
    x = one_slice(v)
    if x is None or x[0] is None:
        L.ob('payload', inst, wrong_order(v), None, 'the result is %s' % show(v))
        return
    a, n = x
    d = sub(a, w.payload)
    ok = True if d == 0 else s.facts.decide(eq(d, 0))
    L.ob('payload', inst, ok, None, 'the payload starts %s bytes after the blank line' % show(d))
    # how long?
    hs = [h for h in rows if s.facts.decide(eq(n, h)) is True]
    if hs:
        L.ob('payload', inst + ', length', True)
    else:
        bad = [h for h in rows if isinstance(sub(n, h), int)]
        if len(rows) and not bad and isinstance(n, int):
            # a constant length: the path must know that the length says so
            L.ob('payload', inst + ', length', None)
        else:
            L.ob('payload', inst + ', length', False if bad else None, None,
                 'the result has %s bytes, the length of the frame is %s' % (show(n), show(bad[0]) if bad else '?'))
    f = s.store.get(FLOC, 0)
    d = sub(f, add(a, n))
    ok = True if d == 0 else s.facts.decide(eq(d, 0))
    if ok is not True and isinstance(d, int):
        ok = False
    L.ob('payload', inst + ', removed', ok, None, 'the result ends at %s of the stream, bytes are removed up to %s' % (show(add(a, n)), show(f)))


def reject(L, inst, R, s, w, Q, rows, I):
    f = s.store.get(FLOC, 0)
    c = ('at', S, f)
    why, ok = '', None
    vague = I.vague(s)

    def never(vals):
        return all(s.facts.decide(eq(c, v)) is False for v in vals)
    if Q == {0}:
        if w.skip:
            ok, why = False, 'gives up before a header was found and before the stream ended'
        else:
            ok = F.mismatch(s, f, HEADER) is not None
            why = 'gives up although a header can follow'
            if not ok and vague:
                ok = None
    elif any(isinstance(q, int) for q in Q):
        ok, why = False, 'gives up inside a header name that was removed'
        if vague:
            ok = None
    elif Q <= {'ws', 'dig'}:
        zero = [h for h in rows if s.facts.decide(eq(h, 0)) is True]
        if F.mismatch(s, f, CRLF2) is not None or never(DIGITS) and never(CRLF2[:1]) or zero:
            ok = True
        else:
            # the length is too large?
            big = [h for h in rows if s.facts.decide(le(2 ** 60, h)) is True]
            if big:
                ok = True
            elif 'dig' not in Q and not (never(WS) and not any(never([v]) for v in DIGITS)):
                ok = None               # what follows was not looked at, or the analysis lost it
            elif not vague and 'lost' not in s.notes and rows and not undecided_facts(s):
                small = s.facts.copy()
                h = list(rows)[-1]
                ok = False if small.assume(le(h, 2 ** 31), True) and small.assume(le(1, h), True) else None
            why = 'rejects a frame although its header can be valid'
    else:
        ok = None
    L.ob('reject', inst, ok, R.read.p, why)


def undecided_facts(s):
    return any(isinstance(k, tuple) and k[0] == 'app' for k in s.facts.truth)


def transfer(L, R):
    P = R.P
    for f in P.fns.values():
        if not f.body or f.rec != CLS:
            continue
        if f.q == CLS + '::operator=' and f.params and f.params[0]['t'].endswith('&&'):
            rhs = ('o', 'rhs')
            r = run(L, P, f, CLS, ops=[('L', rhs)])
            for m in R.fields:
                ok = None
                if r:
                    ok = True
                    for s, v in r.rs:
                        x = s.store.get(('f', SELF, m['n']))
                        if x is None:
                            ok = False if not any(k[:2] == ('f', ('f', SELF, m['n'])) for k in s.store if isinstance(k, tuple)) else None
                        elif not has_term(x, lambda t: t == ('f', rhs, m['n'])):
                            ok = False if isinstance(x, int) or has_term(x, lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == 'f' and t[1] == rhs) else None
                L.ob('transfer', 'ContentReader::operator=, ' + m['n'], ok, f.p, 'member %s is not taken over' % m['n'])
        elif f.kind == 'ctor' and len(f.params) >= 2 if hasattr(f, 'kind') else f.q == CLS + '::ContentReader' and len(f.params) >= 2:
            r = run(L, P, f, CLS)
            pol = R.policy[0]['n'] if R.policy else None
            pn = next((q['n'] for q in f.params if q['t'].split('::')[-1].endswith('OnInvalidData')), None)
            if r and pol and pn:
                for s, v in r.rs:
                    x = s.store.get(('f', SELF, pol))
                    L.ob('transfer', 'ContentReader::ContentReader, policy',
                         None if x is None else True if has_term(x, lambda t: t == ('o', pn)) else False if isinstance(x, int) else None,
                         f.p, 'the policy is not the one given')


# -- C08 --------------------------------------------------------------------------------
def C08(L):
    R = prepare(L)
    L.rule('destination', 'The number of bytes asked of the reader is at most the size of the memory they go to.')
    L.rule('received', 'No byte of the buffer is read or removed that is not there.')
    L.rule('wrap', 'The length does not wrap around: 10 * h + d is representable on every path that computes it.')
    L.rule('reserve', 'Memory is set aside for n bytes only where n bytes were received.')
    if not R.simple():
        for r in ('destination', 'received', 'wrap', 'reserve'):
            L.ob(r, 'ContentReader::read', None, None, 'the members of the reader are not those the analysis understands')
        return
    for p, I, out in policies(L, R):
        if out is None:
            for r in ('destination', 'received', 'wrap', 'reserve'):
                L.ob(r, 'ContentReader::read, ' + p, None)
            continue
        sts = [(s.events(), s) for s, v, w, Q, err in out] + [(e, None) for e in I.dropped]
        L.ob('received', 'ContentReader::read, ' + p, True)
        for evs, s in sts:
            for e in flat(evs):
                at = '%s, %s' % (posn(e[1]) if e[1] else '?', p)
                if e[0] == 'rd':
                    cap, ok = e[6], e[7]
                    if ok is None and cap is not None and isinstance(cap, int):
                        ok = False if isinstance(e[4], int) else None
                    L.ob('destination', 'read at ' + at, ok, e[1], 'asks for %s bytes, %s fit' % (show(e[4]), show(cap)))
                elif e[0] == 'res':
                    L.ob('reserve', 'at ' + at, True if e[4] is True else False if unbounded(e[3]) and e[4] is not True else None, e[1],
                         'memory for %s bytes is set aside before they arrived' % show(e[3]))
                elif e[0] == 'need':
                    L.ob('received', '%s at %s' % (e[3], at), e[6], e[1],
                         'byte %s of a buffer that can hold %s' % (show(e[4]), show(e[5])))
            for row, lp, body, pos in length_rows(evs):
                if any(x[0] == 'eat' for x in body):
                    L.ob('wrap', 'loop at %s, %s' % (posn(pos), p), row[4], pos,
                         'the length %s can exceed the range of its type' % show(row[3]))


def unbounded(n):
    return isinstance(n, int) and n > 1 << 20 or isinstance(n, tuple) and (n[0] == 'sym' or T.is_lin(n))
