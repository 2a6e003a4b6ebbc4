"""C15 and C31: the in-memory and file streams, and the stream adaptors."""
from common import *
import conc
import prims
from prims import program, methods, sig, flag_sets, assumable

READ, WRITE, CLOSE, OPEN = 'dap::Reader::read', 'dap::Writer::write', 'dap::Closable::close', 'dap::Closable::isOpen'


# -- sequences -------------------------------------------------------------------

def lossy(v):
    return has_term(v, lambda x: isinstance(x, tuple) and x and x[0] in ('sym', 'app', 'opq', 'undef', 'gen')
                    and x[:2] != ('sym', 'K'))


def seq_same(st, a, b):
    """Are two sequences the same on this path? Also why not."""
    if a == b:
        return True, ''
    und = lossy(a) or lossy(b)
    d = T.sub(T.seqlen(a), T.seqlen(b))
    z = st.facts.decide(T.eq(d, 0)) if d != 0 else True
    if z is not True:
        return (None if und and z is None else False), 'the lengths differ'
    pa = [p for p in T.parts_of(a) if st.facts.decide(T.eq(T.partlen(p), 0)) is not True]
    pb = [p for p in T.parts_of(b) if st.facts.decide(T.eq(T.partlen(p), 0)) is not True]
    # join neighbours that meet only under the path's facts
    pa, pb = merge(st, pa), merge(st, pb)
    if len(pa) == len(pb):
        rs = []
        for p, q in zip(pa, pb):
            if p == q:
                continue
            if p[0] == q[0] == 'sl' and p[1] == q[1]:
                o = st.facts.decide(T.eq(p[2], q[2])) if p[2] != q[2] else True
                n = st.facts.decide(T.eq(p[3], q[3])) if p[3] != q[3] else True
                if o is True and n is True:
                    continue
                rs.append(False)
            else:
                rs.append(False)
        if not rs:
            return True, ''
    return (None if und else False), 'the contents differ'


def merge(st, ps):
    out = []
    for p in ps:
        if out and p[0] == 'sl' and out[-1][0] == 'sl' and out[-1][1] == p[1]:
            q = out[-1]
            d = T.sub(T.add(q[2], q[3]), p[2])
            if d == 0 or st.facts.decide(T.eq(d, 0)) is True:
                out[-1] = ('sl', q[1], q[2], T.add(q[3], p[3]))
                continue
        out.append(p)
    return out


def stripped(w0, w1):
    """X with w1 == w0 ++ X, or None."""
    if w0 == b'':
        return w1
    p0, p1 = list(T.parts_of(w0)), list(T.parts_of(w1))
    n = len(p0)
    if p1[:n] == p0:
        return T.mkseq(p1[n:])
    if n and p1[:n - 1] == p0[:-1] and len(p1) >= n:
        a, b = p0[-1], p1[n - 1]
        if a[0] == b[0] == 'sl' and a[1] == b[1] and a[2] == b[2]:
            return T.mkseq([('sl', a[1], T.add(a[2], a[3]), T.sub(b[3], a[3]))] + p1[n:])
        if a[0] == b[0] == 'lit' and b[1].startswith(a[1]):
            return T.mkseq([('lit', b[1][len(a[1]):])] + p1[n:])
    return None


def hooks(I):
    prims.hooks(I)

    def back(I, s, st):
        pre = None
        for e in conc.trace_list(st.trace):
            if e[0] == 'snap':
                pre = e[4]
                break
            if e[0] == 'lhead':
                break
        st.ev('lback', s['p'], None, pre, st.copy())
    I.back_hook = back
    I.peel = 2
    I.entry_state = None


def segments(st, entry, backs=True):
    """(pre, post, pos) of the stretches of a path in which nobody else can
    change the guarded state: lock sections, or the whole path without a lock."""
    out = []
    evs = list(flat(st.events()))
    locked = any(e[0] == 'acq' for e in evs)
    for e in evs:
        if e[0] == 'section':
            out.append((e[4], e[5], e[1]))
        elif e[0] == 'lback' and backs and e[4] is not None:
            out.append((e[4], e[5], e[1]))
    if not locked:
        pre = entry
        out.append((pre, st, st.pos if hasattr(st, 'pos') else None))
    return out


def do(L, P, f, cls=None, setup=hooks, this=SELF, st=None, I=None, ops=None):
    st = st or X.St()
    entry = st.copy()
    I = I or new_interp(P, setup)
    r = run(L, P, f, cls or f.rec, None, ops=ops, st=st, I=I, this=this)
    if r is not None:
        r.entry = entry
        r.I.acq_post = r.I.rel_hook = r.I.head_hook = r.I.back_hook = None
    return r


def virtual(P, cls, q):
    """The function a call of the interface method q reaches on class cls."""
    rec, n = q.rsplit('::', 1)
    for m in P.recs.get(rec, {}).get('methods', ()):
        if m['key'].split('(')[0].split('@')[0] and m.get('n') == n:
            k = P.overrider(cls, m['key'])
            f = P.fns.get(k)
            if f is not None and f.body is not None:
                return f
    return None


def made(L, P, q, npar=None, pt=None):
    """Runs a factory: [(run, class or None, location)] of the objects it returns."""
    out = []
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.q != q or f.body is None or f.impl or (npar is not None and len(f.params) != npar):
            continue
        if pt is not None and pt not in f.params[0]['t']:
            continue
        r = do(L, P, f, None)
        out.append((f, r))
    return out


def made_class(P, r):
    cs = set()
    for st, v in (r.rs if r else ()):
        v = r.I.rv(st, v, 'std::shared_ptr<x>')
        if T.is_ptr(v) and v[1][0] == 'h':
            cs.add(v[1][2])
    return cs.pop() if len(cs) == 1 else None


def altered(seq, buf):
    """A byte value that an element computed from one byte of the sequence at buf does not keep."""
    import net
    for p in T.parts_of(seq):
        if p[0] not in ('el', 'gen') or not isinstance(p[1], tuple) or p[1][0] == 'at':
            continue
        ats = set()

        def walk(t):
            if isinstance(t, tuple):
                if t and t[0] == 'at':
                    ats.add(t)
                    return
                for y in t:
                    walk(y)
        walk(p[1])
        if len(ats) != 1:
            continue
        a = ats.pop()
        if not (isinstance(a[1], tuple) and a[1][0] == 'v' and a[1][1] == buf):
            continue
        try:
            for x in range(256):
                if net.ev(p[1], {a: x}) % 256 != x:
                    return x
        except net.Cannot:
            continue
    return None


def buf_loc(f):
    return ('d', ('v', ('o', f.params[0]['n']), 0, 'p'))


def arg(f, i):
    return ('v', ('o', f.params[i]['n']), 0, X.sort_of(f.params[i]['t']))


def truth(st, I, v):
    v = I.rv(st, v, 'bool')
    if isinstance(v, int):
        return bool(v)
    return st.facts.decide(T.neg(T.eq(v, 0)))


def forks(I, st, v):
    """(state, True/False) for a returned bool."""
    v = I.rv(st, v, 'bool')
    return I.fork(st.copy(), v)


def written_by(st, f):
    return st.store.get(('wl', buf_loc(f)))


def content(st, f):
    """What has been stored through the buffer argument: (sequence or None, start)"""
    w = written_by(st, f)
    if w is None:
        return b'', 0
    if w[0] == 'mess':
        return None, None
    return w[1], w[0]


# -- C15 ------------------------------------------------------------------------

def C15(L):
    L.rule('append', 'a write that reports success appended exactly buffer[0, n), in order, at the back of the stored '
                     'bytes; one that reports failure stored nothing')
    L.rule('read', 'each stretch of a read stores, behind what it stored before, a prefix of the stored bytes and '
                   'removes exactly that prefix, and never more than n bytes in total')
    L.rule('count', 'a read returns the number of bytes it stored')
    L.rule('zero', 'a read of n > 0 bytes returns 0 only when the stream is closed (or, without blocking, empty)')
    L.rule('closed', 'close marks the stream closed, nothing clears the mark, isOpen reports it, and writes then fail')
    L.rule('chunks', 'the recorded chunk lengths change by exactly the number of bytes stored or removed')
    L.rule('file-use', 'the file is used only while a lock is held and the stream was seen open under that lock, which '
                       'close takes before it closes the file')
    L.rule('file-close', 'the file is closed at most once, only after the closed mark was set by this call, and only '
                         'if the stream owns it')
    L.rule('file-read', 'a file read stores exactly the bytes the file delivered before its end')
    L.rule('file-write', 'a file write reports success only if the file accepted all n bytes of the buffer, and flushes')
    L.rule('open', 'opening a path yields a stream on the opened file, or nothing if it cannot be opened')
    P = program()
    pipes = made(L, P, 'dap::pipe')
    pc = made_class(P, pipes[0][1]) if pipes else None
    if pc is None:
        L.ob('read', 'pipe', None, None, 'the class of dap::pipe() is not known')
    else:
        buffer_class(L, P, pc, 'pipe', True)
    sb = 'dap::StringBuffer'
    if sb in P.recs:
        buffer_class(L, P, sb, 'string buffer', False)
    else:
        L.ob('read', 'string buffer', None, None, 'dap::StringBuffer not found')
    fs = made(L, P, 'dap::file', npar=2)
    fc = made_class(P, fs[0][1]) if fs else None
    if fc is None:
        L.ob('file-read', 'file', None, None, 'the class of dap::file() is not known')
    else:
        file_class(L, P, fc, fs[0])
    opened(L, P, fc, owner_flag(L, P, fs[0], None) if fs else None)


def vmethods(L, P, cls, what):
    out = {}
    for q in (READ, WRITE, CLOSE, OPEN):
        f = virtual(P, cls, q)
        out[q] = (f, do(L, P, f, cls) if f else None)
        if out[q][1] is None:
            L.ob('read', what + ' ' + q, None, f.p if f else None, 'not analysed')
    return out


def storage(f, r):
    """The member container that write stores the bytes of its buffer in."""
    b = buf_loc(f)
    cs = {}
    for st, _ in (r.rs if r else ()):
        for e in flat(st.events()):
            if e[0] in ('cset', 'cpush', 'cpushf', 'cinsert') and e[3][0] == 'f' and e[3][1] == SELF:
                if has_term(e[4], lambda x: x == b):
                    cs[e[3]] = cs.get(e[3], 0) + 1
    return max(cs, key=lambda k: cs[k]) if cs else None


def buffer_class(L, P, cls, what, blocking):
    ms = vmethods(L, P, cls, what)
    wf, wr = ms[WRITE]
    rf, rr = ms[READ]
    flag = closed_rules(L, P, cls, what, ms)
    c = storage(wf, wr) if wr else None
    if c is None:
        L.ob('append', what, None if wr is None or any(st.notes for st, _ in wr.rs) else False, wf.p if wf else None,
             'write stores the bytes of its buffer in no container')
        return
    side = side_list(wf, wr, c)
    n = arg(wf, 1)
    for st, ret in wr.rs:
        segs = segments(st, wr.entry, False)
        for s2, b in forks(wr.I, st, ret):
            C0 = C1 = None
            add = b''
            ok, why = True, ''
            # compose the sections
            for pre, post, pos in segs:
                if pre is None:
                    ok = None
                    break
                a, z = M.cval(wr.I, pre.copy(), c), M.cval(wr.I, post.copy(), c)
                x = stripped(a, z)
                if x is None:
                    e, _ = seq_same(post, a, z)
                    if e is True:
                        x = b''
                    else:
                        ok = None if lossy(z) and not keeps_front(z, a) else False
                        why = 'the bytes stored before are not kept in front'
                        break
                add = T.concat(add, x)
            if b and flag and segs and ok:
                v0 = flag_value(wr.I, flag, segs[0][0], s2)
                if v0 is not None and assumable(s2, T.eq(v0, flag[1]), True):
                    L.ob('closed', what + ': write after close', False, wf.p, 'a write can succeed although the stream is closed')
                else:
                    L.ob('closed', what + ': write after close', True if v0 is not None else None, wf.p)
            if ok is None or ok is False:
                L.ob('append', what, None if st.notes else ok, wf.p, why)
                continue
            x = altered(add, buf_loc(wf))
            if x is not None and b:
                L.ob('append', what + ': bytes', False, wf.p, 'a byte of value %d of the buffer is stored as another' % x)
                continue
            if has_loop(st) and lossy(add):
                L.ob('append', what, None, wf.p, 'the loop is not understood')
                continue
            if b:
                ok, why = seq_same(s2, add, T.mkseq([('sl', ('v', buf_loc(wf), 0, 'o'), 0, n)]))
                L.ob('append', what + ': success', None if ok is False and st.notes else ok, wf.p,
                     'reports success without appending exactly the bytes given (%s)' % why)
            else:
                z = s2.facts.decide(T.eq(T.seqlen(add), 0)) if add != b'' else True
                L.ob('append', what + ': failure', z if z is True or not st.notes else None, wf.p, 'reports failure after storing bytes')
        if side is not None:
            side_rule(L, what + ' write', wr, st, c, side, +1, segs)
    if rr is None:
        return
    n = arg(rf, 1)
    for st, ret in rr.rs:
        segs = segments(st, rr.entry)
        bad = None
        for pre, post, pos in segs:
            if pre is None:
                L.ob('read', what, None, rf.p)
                continue
            w0, s0 = content(pre, rf)
            w1, s1 = content(post, rf)
            c0, c1 = M.cval(rr.I, pre.copy(), c), M.cval(rr.I, post.copy(), c)
            if w0 is None or w1 is None:
                ow = [e for e in flat(post.events()) if e[0] == 'overwrite' and e[3] == buf_loc(rf)]
                mem = any(e[0] == 'memset' for e in flat(post.events()))
                L.ob('read', what, False if ow and not mem and not post.notes else None, rf.p,
                     'overwrites what it stored before' if ow else 'writes to the buffer not understood')
                continue
            if w1 != b'' and s1 != 0 and post.facts.decide(T.eq(s1, 0)) is not True:
                L.ob('read', what, None if lossy(s1) else False, rf.p, 'does not store from the start of the buffer')
                continue
            x = stripped(w0, w1)
            if x is None:
                L.ob('read', what, None if lossy(w1) else False, rf.p, 'overwrites what it stored before')
                continue
            y = altered(x, c)
            if y is not None:
                L.ob('read', what + ': bytes', False, rf.p, 'a byte of value %d of the stream is stored as another' % y)
            ok, why = seq_same(post, c0, T.concat(x, c1))
            L.ob('read', what, None if (ok is False and post.notes) else ok, rf.p,
                 'the bytes stored are not the front of the stream, or not exactly those are removed (%s)' % why)
            if x != b'':
                f2 = post.copy()
                if w0 != b'':
                    f2.facts.assume(T.le(T.seqlen(w0), n), True)
                if side is not None:
                    f2.facts.assume(T.le(('at', M.cval(rr.I, pre.copy(), side), 0), T.seqlen(c0)), True)
                m = f2.facts.decide(T.le(T.seqlen(w1), n))
                L.ob('read', what + ': bound', m if m is True else (None if post.notes else False), rf.p,
                     'can store more than n bytes')
                m = f2.facts.decide(T.le(T.seqlen(x), T.seqlen(c0)))
                L.ob('read', what + ': available', m if m is True else (None if post.notes or side is None or has_loop(post) else False), rf.p,
                     'can store more bytes than the stream holds')
        if side is not None:
            side_rule(L, what + ' read', rr, st, c, side, -1, segs)
        rv = rr.I.rv(st, ret, 'unsigned long')
        w, s0 = content(st, rf)
        if w is None:
            L.ob('count', what, None, rf.p)
        else:
            d = T.sub(T.seqlen(w), rv)
            z = True if d == 0 else st.facts.decide(T.eq(d, 0))
            L.ob('count', what, z if z is True else (None if z is None and (st.notes or undef(d) or widened(d)) else False), rf.p,
                 'returns %s after storing %s bytes' % (show(rv), show(T.seqlen(w))))
        # 0 only when closed or exhausted
        s2 = st.copy()
        if s2.facts.assume(T.eq(rv, 0), True) and s2.facts.assume(T.eq(n, 0), False) and flag and segs:
            pre = segs[-1][0]
            if pre is None:
                L.ob('zero', what, None, rf.p)
                continue
            v0 = flag_value(rr.I, flag, pre, s2)
            if v0 is None:
                L.ob('zero', what, None, rf.p)
                continue
            ok = s2.facts.assume(T.eq(v0, flag[1]), False)
            if ok and blocking and segs and unread(s2):
                # an arbitrary number of earlier rounds: only the last one is known
                pass
            if ok and not blocking:
                ok = s2.facts.assume(T.eq(T.seqlen(M.cval(rr.I, pre.copy(), c)), 0), False)
                if ok and side is not None:
                    ok = s2.facts.assume(T.eq(T.seqlen(M.cval(rr.I, pre.copy(), side)), 0), False)
                    v = ('at', M.cval(rr.I, pre.copy(), side), 0)
                    ok = ok and s2.facts.assume(T.eq(v, 0), False)
            L.ob('zero', what, None if ok and st.notes else not ok, rf.p,
                 'can return 0 although the stream is open' + ('' if blocking else ' and holds bytes'))
        elif flag:
            L.ob('zero', what, True, rf.p)


def keeps_front(z, a):
    return T.parts_of(z)[:1] == T.parts_of(a)[:1]


def unread(st):
    return True


def undef(d):
    return has_term(d, lambda x: isinstance(x, tuple) and x and x[0] in ('undef', 'opq'))


def widened(d):
    return has_term(d, lambda x: isinstance(x, tuple) and x[:2] in (('sym', 'h'), ('sym', 'idx'), ('sym', 'w')))


def has_loop(st):
    return any(e[0] == 'loop' for e in st.events())


def side_list(f, r, c):
    """A second member container to which write appends (a function of) the length."""
    n = arg(f, 1)
    out = set()
    for st, _ in r.rs:
        for e in flat(st.events()):
            if e[0] in ('cpush',) and e[3][0] == 'f' and e[3][1] == SELF and e[3] != c \
                    and not T.opaque_value(e[4]) and has_term(e[4], lambda x: x == n):
                out.add(e[3])
    return out.pop() if len(out) == 1 else None


def side_rule(L, inst, r, st, c, side, sign, segs):
    if len(segs) != 1 or segs[0][0] is None or has_loop(st):
        L.ob('chunks', inst, None, r.fn.p)
        return
    pre, post, _ = segs[0]
    dn = T.sub(T.seqlen(M.cval(r.I, post.copy(), c)), T.seqlen(M.cval(r.I, pre.copy(), c)))
    d = 0
    front = ('at', M.cval(r.I, pre.copy(), side), 0)
    popped = 0
    for e in st.events():
        if e[0] == 'cpush' and e[3] == side:
            d = T.add(d, e[4])
        elif e[0] == 'set' and e[3][0] == 'e' and e[3][1] == side:
            if e[5] is None or T.opaque_value(e[4]):
                L.ob('chunks', inst, None, r.fn.p)
                return
            d = T.add(d, T.sub(e[4], e[5]))
            if e[3][2] == 0:
                front = e[4]
        elif e[0] == 'cpop' and e[3] == side:
            if popped:
                L.ob('chunks', inst, None, r.fn.p)
                return
            d = T.sub(d, front)
            popped += 1
        elif e[0] in ('cpushf', 'cinsert', 'cpopb', 'cclear') and e[3] == side:
            L.ob('chunks', inst, None, r.fn.p)
            return
    x = T.sub(dn, d)
    z = True if x == 0 else st.facts.decide(T.eq(x, 0))
    L.ob('chunks', inst, z if z is True else (None if st.notes or lossy(x) else False), r.fn.p,
         'the stored bytes change by %s, the recorded chunk lengths by %s' % (show(dn), show(d)))


def flag_value(I, flag, pre, st):
    """The value of the closed mark at the start of a stretch, as seen on the path."""
    loads = [e for e in st.events() if e[0] in ('aload', 'axchg') and e[3] == flag[0]]
    if loads:
        return loads[0][4] if loads[0][0] == 'aload' else loads[0][5]
    return I.load(pre.copy(), flag[0], 'bool')


def closed_rules(L, P, cls, what, ms):
    cf, cr = ms[CLOSE]
    if cr is None:
        return None
    fl = closing_flag(cr)
    if fl is None:
        sets = any(e[0] in ('set', 'astore', 'axchg', 'acas') for st, _ in cr.rs for e in flat(st.events()))
        L.ob('closed', what + ': close', None if sets or any(st.notes for st, _ in cr.rs) else False, cf.p,
             'close does not mark the stream closed on every path')
        return None
    loc, on, off = fl
    for st, _ in cr.rs:
        evs = list(flat(st.events()))
        if any(e[0] in ('set', 'astore', 'axchg') and e[3] == loc and e[4] == on for e in evs) or \
                any(e[0] == 'acas' and e[3] == loc for e in evs):
            L.ob('closed', what + ': close', True, cf.p)
            continue
        v = flag_value(cr.I, fl, first_state(st, cr.entry), st)
        if decided(st, v, on):
            L.ob('closed', what + ': close', True, cf.p)
        elif what != 'file':
            L.ob('closed', what + ': close', None if st.notes else False, cf.p, 'close does not mark the stream closed on every path')
    # nothing reopens
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.rec != cls or f.body is None or f.impl or f.kind not in ('method',) or f.static:
            continue
        q = [k for k in ms if ms[k][0] is not None and ms[k][0].key == f.key]
        r = ms[q[0]][1] if q else do(L, P, f, cls)
        for st, _ in (r.rs if r else ()):
            for e in flat(st.events()):
                if e[0] in ('set', 'astore', 'axchg') and e[3] == loc:
                    v = e[4]
                    bad = isinstance(v, (int, bool)) and int(v) != on
                    L.ob('closed', what + ': stays closed: ' + f.n, False if bad else (True if v == on else None), e[1],
                         'a closed stream is opened again')
    of, orr = ms[OPEN]
    for st, ret in (orr.rs if orr else ()):
        x = flag_value(orr.I, fl, first_state(st, orr.entry), st)
        for s2, b in forks(orr.I, st, ret):
            want = T.eq(x, on) if not b else T.eq(x, off)
            bad = assumable(s2, want, False)
            L.ob('closed', what + ': isOpen', None if bad and (st.notes or lossy_flag(s2, orr)) else not bad, of.p,
                 'isOpen is %s although the stream is %s' % (b, 'closed' if b else 'open'))
    return fl


def lossy_flag(st, r):
    return any(e[0] == 'icall' for e in st.events())


def first_state(st, entry):
    for e in st.events():
        if e[0] == 'snap':
            return e[4]
    return entry


def closing_flag(cr):
    d = flag_sets([(cr.fn, cr)])
    if not d:
        # exchange, or a path that finds it closed already
        cand = {}
        for st, _ in cr.rs:
            for e in flat(st.events()):
                if e[0] in ('axchg', 'astore', 'set') and isinstance(e[4], int) and e[3][0] == 'f' and e[3][1] == SELF:
                    cand.setdefault(e[3], set()).add(int(e[4]))
                if e[0] == 'acas' and isinstance(e[5], int) and e[3][0] == 'f' and e[3][1] == SELF:
                    cand.setdefault(e[3], set()).add(int(e[5]))
        cand = {k: v for k, v in cand.items() if len(v) == 1}
        if len(cand) != 1:
            return None
        loc, v = cand.popitem()
        on = v.pop()
        return (loc, on, 1 - on)
    for l, v in d.items():
        return (l, int(v), 1 - int(v))
    return None


# -- files ---------------------------------------------------------------------

FILE_FNS = ('fgetc', 'getc', 'fread', 'fgets', 'fwrite', 'fputc', 'putc', 'fputs', 'fflush', 'feof', 'ferror', 'ungetc',
            'fclose', 'fileno', 'fprintf', 'setvbuf', 'fseek', 'ftell')


def file_member(P, cls, ms):
    for f, r in ms.values():
        for st, _ in (r.rs if r else ()):
            for e in flat(st.events()):
                if e[0] == 'sys' and e[3].split('::')[-1] in FILE_FNS:
                    for a in e[4]:
                        if isinstance(a, tuple) and a[0] == 'v' and a[1][0] == 'f' and a[1][1] == SELF and a[3] == 'p':
                            return a[1]
    return None


def uses(evs, fm):
    return [(i, e) for i, e in enumerate(evs) if e[0] == 'sys' and e[3].split('::')[-1] in FILE_FNS
            and any(has_term(a, lambda x: x == fm) for a in e[4])]


def file_class(L, P, cls, fac):
    ms = vmethods(L, P, cls, 'file')
    cf, cr = ms[CLOSE]
    if cr is None:
        return
    fm = file_member(P, cls, ms)
    if fm is None:
        L.ob('file-use', 'file', None, None, 'no member is used as the file')
        return
    fl = closing_flag(cr)
    if fl is None:
        L.ob('closed', 'file: close', None if any(st.notes for st, _ in cr.rs) else False, cf.p,
             'close does not mark the stream closed')
        return
    closed_rules(L, P, cls, 'file', ms)
    loc, on, off = fl
    # the locks close holds at fclose
    clocks = None
    for st, _ in cr.rs:
        evs = list(flat(st.events()))
        for i, e in uses(evs, fm):
            if e[3].split('::')[-1] == 'fclose':
                ls = {m for m, md in e[2]}
                clocks = ls if clocks is None else clocks & ls
    owned = owner_flag(L, P, fac, fm)
    closers = [ms[CLOSE]] + [(f, do(L, P, f, cls)) for f in P.fns.values() if f.rec == cls and f.kind == 'dtor' and f.body is not None]
    for f, r in closers:
        closes = False
        for st, _ in (r.rs if r else ()):
            evs = list(flat(st.events()))
            us = uses(evs, fm)
            fc = [(i, e) for i, e in us if e[3].split('::')[-1] == 'fclose']
            if not fc:
                continue
            closes = True
            L.ob('file-close', f.n + ': once', len(fc) == 1, fc[-1][1][1], 'the file is closed %d times' % len(fc))
            late = [e for i, e in us if i > fc[0][0] and e[3].split('::')[-1] != 'fclose']
            L.ob('file-close', f.n + ': not used after', not late, (late or [fc[0][1]])[0][1], 'the file is used after it was closed')
            i0, e0 = fc[0]
            before = [x for x in evs[:i0] if x[0] in ('axchg', 'acas', 'astore', 'set', 'aload') and x[3] == loc]
            ok = None
            for x in before:
                if x[0] == 'axchg' and x[4] == on:
                    ok = decided(st, x[5], off)
                    if ok is None and assumable(st, T.eq(x[5], on), True):
                        ok = False
                elif x[0] == 'acas' and x[5] == on:
                    ok = ok or (x[6] is True and x[4] == off)
            if ok is None and not any(x[0] in ('axchg', 'acas') for x in before):
                sets = [x for x in before if x[0] in ('astore', 'set') and x[4] == on]
                tests = [x for x in before if x[0] == 'aload' and decided(st, x[4], off)]
                if any(x[0] == 'set' for x in before) and not tests:
                    v0 = r.I.load(first_state(st, r.entry).copy(), loc, 'bool')
                    tests = [None] if decided(st, v0, off) else []
                    ok = bool(sets) and bool(tests) and bool(e0[2])
                elif not tests or not sets:
                    ok = False
                else:
                    # test and set: needs a lock around both
                    ok = any({m for m, _ in t[2]} & {m for m, _ in s[2]} for t in tests if t for s in sets)
            L.ob('file-close', f.n + ': guarded', None if ok is False and st.notes else ok, e0[1],
                 'the file can be closed twice: closing is not guarded by taking the closed mark')
            if owned is not None:
                o = decided(st, ('v', owned[0], 0, 'b'), owned[1])
                L.ob('file-close', f.n + ': only if owned', o if o is True else (None if st.notes else False), e0[1],
                     'a file the stream does not own is closed')
        L.ob('file-close', f.n + ': closes', closes or (None if r is None or any(st.notes for st, _ in r.rs) else False), f.p,
             'never closes the file')
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.rec != cls or f.body is None or f.kind != 'method' or f.impl or f.n == cf.n:
            continue
        q = [k for k in ms if ms[k][0] is not None and ms[k][0].key == f.key]
        r = ms[q[0]][1] if q else (do(L, P, f, cls) if f.params == [] else None)
        for st, _ in (r.rs if r else ()):
            evs = list(flat(st.events()))
            for i, e in uses(evs, fm):
                held = {m for m, md in e[2]}
                seen = [x for x in evs[:i] if x[0] == 'aload' and x[3] == loc and decided(st, x[4], off)
                        and {m for m, md in x[2]} & held]
                plain = decided(st, r.I.load(first_state(st, r.entry).copy(), loc, 'bool'), off)
                ok, why = True, ''
                if not seen and not plain:
                    ok, why = False, 'the file is used without having seen the stream open under the lock held'
                elif clocks is not None and not (clocks & held):
                    ok, why = False, 'the file is used without a lock that close holds when it closes the file'
                L.ob('file-use', '%s: %s' % (f.n, e[3]), None if not ok and st.notes else ok, e[1], why)
    file_read(L, P, ms, fm)
    file_write(L, P, ms, fm)
    # the factory hands over its arguments
    f, r = fac
    for st, v in (r.rs if r else ()):
        v = r.I.rv(st, v, 'p')
        if T.is_ptr(v) and v[1][0] == 'h':
            got = st.store.get(('f', v[1], fm[2]))
            L.ob('open', 'file(FILE*)', got == arg(f, 0) if got is not None else None, f.p, 'the stream does not use the file it was given')


def decided(st, v, want):
    if isinstance(v, (int, bool)):
        return int(v) == want
    return st.facts.decide(T.eq(v, want)) is True


def owner_flag(L, P, fac, fm):
    """The member that holds the factory's closable argument: (location, owning value)."""
    f, r = fac
    if r is None or len(f.params) < 2:
        return None
    p = arg(f, 1)
    for st, v in r.rs:
        v = r.I.rv(st, v, 'p')
        if not (T.is_ptr(v) and v[1][0] == 'h'):
            continue
        for k, x in st.store.items():
            if k[0] == 'f' and k[1] == v[1]:
                if x == p:
                    return (('f', SELF, k[2]), 1)
                if x in (('not', p), T.neg(p)):
                    return (('f', SELF, k[2]), 0)
    return None


def file_read(L, P, ms, fm):
    f, r = ms[READ]
    if r is None:
        return
    n = arg(f, 1)
    for st, ret in r.rs:
        rv = r.I.rv(st, ret, 'unsigned long')
        evs = list(flat(st.events()))
        us = [e for i, e in uses(evs, fm)]
        w, s0 = content(st, f)
        if any(e[3].endswith('fread') for e in us):
            fr = [e for e in us if e[3].endswith('fread')]
            e = fr[-1]
            ok = len(fr) == 1 and not has_loop(st)
            if not ok:
                L.ob('file-read', 'count', None, f.p)
                continue
            a = e[4]
            tot = T.mul(a[1], a[2])
            le = st.facts.decide(T.le(tot, n))
            L.ob('file-read', 'bound', le if le is True else False, e[1], 'asks for more bytes than the buffer holds')
            L.ob('file-read', 'place', a[0] == arg(f, 0), e[1], 'does not read into the start of the buffer')
            L.ob('file-read', 'count', (rv == e[5] and a[1] == 1) or None if rv == e[5] else
                 (True if st.facts.decide(T.eq(rv, e[5])) is True else False), f.p, 'does not return the number of bytes read')
            continue
        if w is None:
            L.ob('file-read', 'count', None, f.p)
            continue
        if w != b'' and s0 != 0:
            L.ob('file-read', 'place', None if lossy(s0) else False, f.p, 'does not store from the start of the buffer')
        d = T.sub(T.seqlen(w), rv)
        z = True if d == 0 else st.facts.decide(T.eq(d, 0))
        L.ob('file-read', 'count', z if z is True else (None if z is None and (st.notes or undef(d) or widened(d)) else False), f.p,
             'returns %s after storing %s bytes' % (show(rv), show(T.seqlen(w))))
        le = st.facts.decide(T.le(T.seqlen(w), n)) if w != b'' else True
        L.ob('file-read', 'bound', le if le is True else (None if st.notes or le is None and lossy(w) else False), f.p, 'can store more than n bytes')
        gets = [e for e in st.events() if e[0] == 'sys' and e[3].split('::')[-1] in ('fgetc', 'getc')]
        for e in gets:
            if st.facts.decide(T.eq(e[5], -1)) is True:
                L.ob('file-read', 'bytes', not has_term(w, lambda y: y == e[5]), e[1], 'stores the end mark as a byte')
        if not has_loop(st) and w == b'' and not gets:
            # nothing read: closed, or nothing asked for
            s2 = st.copy()
            aload = [e for e in st.events() if e[0] in ('aload',)]
            ok = s2.facts.decide(T.eq(n, 0)) is True or any(st.facts.decide(T.neg(T.eq(e[4], 0))) is True for e in aload) or not aload
            L.ob('file-read', 'stops only at the end', ok or None, f.p)
        # leaving before n bytes were stored needs the end of the file
        if s2_short(st, rv, n):
            last = gets[-1] if gets else None
            if last is not None:
                end = st.facts.decide(T.eq(last[5], -1))
                L.ob('file-read', 'stops only at the end', end if end is True else (None if st.notes else False), f.p,
                     'returns early although the file delivered a byte')
        # each iteration: one byte fetched, not the end mark, stored behind the others
        for e in flat(st.events()):
            if e[0] != 'lback':
                continue
            post = e[5]
            hs = [y for y in conc.trace_list(post.trace) if y[0] == 'lhead']
            if not hs:
                continue
            pre = hs[0][4]
            w0, _ = content(pre, f)
            w1, _ = content(post, f)
            if w0 is None or w1 is None:
                L.ob('file-read', 'bytes', None, e[1])
                continue
            x = stripped(w0, w1)
            g = [y for y in post.events() if y[0] == 'sys' and y[3].split('::')[-1] in ('fgetc', 'getc')]
            tail = g[-1:]
            if x is None or not tail:
                L.ob('file-read', 'bytes', None, e[1])
                continue
            sy = tail[0][5]
            if post.facts.decide(T.eq(sy, -1)) is not False:
                L.ob('file-read', 'bytes', False if not post.notes and x != b'' else None, e[1], 'stores the end mark as a byte')
                continue
            ps = T.parts_of(x)
            one = len(ps) == 1 and ps[0][0] == 'el' and has_term(ps[0][1], lambda y: y == sy)
            L.ob('file-read', 'bytes', one or (None if lossy_but(x, sy) else False), e[1],
                 'a byte fetched from the file is not stored exactly once')


def lossy_but(x, sy):
    return has_term(x, lambda y: isinstance(y, tuple) and y and y[0] in ('sym', 'gen') and y != sy)


def s2_short(st, rv, n):
    return assumable(st, T.lt(rv, n), True)


def file_write(L, P, ms, fm):
    f, r = ms[WRITE]
    if r is None:
        return
    n, b = arg(f, 1), arg(f, 0)
    for st, ret in r.rs:
        for s2, ok in forks(r.I, st, ret):
            if not ok:
                continue
            evs = list(flat(s2.events()))
            us = [(i, e) for i, e in uses(evs, fm)]
            ws = [(i, e) for i, e in us if e[3].split('::')[-1] == 'fwrite']
            if has_loop(s2) or len(ws) > 1 or any(e[3].split('::')[-1] in ('fputc', 'putc', 'fputs') for i, e in us):
                L.ob('file-write', 'all bytes', None, f.p, 'written in pieces')
                continue
            if not ws:
                z = s2.facts.decide(T.eq(n, 0)) is True
                L.ob('file-write', 'all bytes', z or (None if s2.notes else False), f.p, 'reports success without writing')
                continue
            i, e = ws[0]
            a = e[4]
            args = a[0] == b and (T.mul(a[1], a[2]) == n)
            L.ob('file-write', 'arguments', args, e[1], 'writes something else than the buffer given')
            full = s2.facts.decide(T.eq(e[5], a[2]))
            L.ob('file-write', 'all bytes', full if full is True else (None if s2.notes else False), e[1],
                 'reports success although the file may not have accepted all bytes')
            fl = [x for j, x in us if j > i and x[3].split('::')[-1] == 'fflush'] or \
                [x for x in evs if x[0] == 'sys' and x[3].split('::')[-1] in ('setvbuf', 'fflush')]
            L.ob('file-write', 'flush', bool(fl) or (None if s2.notes else False), e[1], 'the bytes are not handed on (no flush)')


def opened(L, P, fc, owned):
    for f, r in made(L, P, 'dap::file', npar=1):
        if r is None:
            L.ob('open', 'file(path)', None, f.p)
            continue
        for st, v in r.rs:
            v = r.I.rv(st, v, 'p')
            op = [e for e in flat(st.events()) if e[0] == 'sys' and e[3].split('::')[-1] == 'fopen']
            if len(op) != 1:
                L.ob('open', 'file(path)', None, f.p)
                continue
            e = op[0]
            L.ob('open', 'file(path): path', has_term(e[4][0], lambda x: x == ('o', f.params[0]['n'])), e[1], 'opens another path')
            null = st.facts.decide(T.eq(e[5], 0))
            if T.is_ptr(v) and v[1][0] == 'h':
                got = [k for k, x in st.store.items() if k[0] == 'f' and k[1] == v[1] and x == e[5]]
                L.ob('open', 'file(path): stream', bool(got) or None, f.p)
                L.ob('open', 'file(path): null', null is False, e[1], 'makes a stream on a file that could not be opened')
                x = st.store.get(('f', v[1], owned[0][2])) if owned else None
                if x is not None:
                    L.ob('open', 'file(path): owned', int(x) == owned[1] if isinstance(x, int) else None, e[1],
                         'the stream does not own the file opened for it, so that close does nothing')
            else:
                L.ob('open', 'file(path): failure', null is True or (None if v != 0 else False), e[1], 'yields nothing although the file was opened')


# -- C31 ------------------------------------------------------------------------

def adaptor_hooks(I):
    I.nojoin = True

    def zterm(st, base):
        """Bytes of a caller's buffer, read as a C string, end at the first NUL."""
        s = base[1] if base[0] == 'val' else st.store.get(base)
        if isinstance(s, tuple) and s and s[0] == 'seq' and any(
                q[0] == 'sl' and isinstance(q[1], tuple) and q[1][0] == 'v' and q[1][1][0] == 'd' for q in T.parts_of(s)):
            n = ('app', 'strlen', s)
            st.facts.assume(T.le(n, T.seqlen(s)), True)
            return T.mkseq([('sl', s, 0, n)])
        return None
    I.zterm = zterm

    def read(I, st, fr, e, fn, recv, ops):
        a = I.evargs(st, ops, fn['pt'])
        ret = I.fresh('read', 'u')
        st.ev('icall', e['p'], READ, recv, a, ret)
        p = a[0]
        if isinstance(p, tuple) and p and p[0] == 'v':
            I.havoc(st, ('d', p))
        else:
            I.clobber(st, ops, fn['pt'])
        st.facts.assume(T.le(ret, a[1]), True)
        return [(st, ret)]

    def write(I, st, fr, e, fn, recv, ops):
        a = I.evargs(st, ops, fn['pt'])
        ret = I.fresh('write', 'b')
        try:
            c = M.range_of(I, st, a[0], a[1])
        except (X.Undecided, KeyError, TypeError, IndexError, AssertionError):
            c = None
        st.ev('icall', e['p'], WRITE, recv, a, ret, c)
        return [(st, ret)]
    I.icalls[READ] = read
    I.icalls[WRITE] = write


def ptr_of(f, i):
    """The stream a factory was given as argument i."""
    return ('v', ('o', f.params[i]['n']), 0, 'o')


def is_stream(v, f, i):
    p = f.params[i]['n']
    return has_term(v, lambda x: x == ('o', p)) and not any(
        has_term(v, lambda x, n=q['n']: x == ('o', n)) for j, q in enumerate(f.params) if j != i)


def adapted(L, P, f, what):
    """For each path of the factory: (class, methods on the object it makes)."""
    I = new_interp(P, adaptor_hooks)
    r = run(L, P, f, None, None, I=I)
    if r is None:
        return None
    out = {}
    for st, v in r.rs:
        v = I.rv(st, v, 'p')
        if not (T.is_ptr(v) and v[1][0] == 'h'):
            return v, st
        loc, cls = v[1], v[1][2]
        changed = set()
        for rnd in (0, 1):
            out = {}
            for q in (READ, WRITE, CLOSE, OPEN):
                if not P.derives(cls, q.rsplit('::', 1)[0]):
                    continue
                g = virtual(P, cls, q)
                if g is None:
                    continue
                s = st.copy()
                for k in changed:
                    I.havoc(s, k)
                s.trace = None if rnd == 0 else s.trace
                base = s.trace
                try:
                    rs = I.invoke(g.key, loc, params(g, prefix='a.'), s, g.p)
                except X.Undecided as e:
                    L.note('%s: %s' % (g.q, e))
                    out[q] = (g, None)
                    continue
                L.ran(I, rs)
                out[q] = (g, [(x, y, x.events(base)) for x, y in rs])
                for x, y in rs:
                    for e in flat(x.events(base)):
                        if e[0] in ('set', 'cset') and T.under(e[3], loc):
                            changed.add(e[3])
            if not changed:
                break
        return I, cls, out
    return None


def par(g, i):
    return ('v', ('o', 'a.' + g.params[i]['n']), 0, X.sort_of(g.params[i]['t']))


def C31(L):
    L.rule('forward', 'the adaptor hands each call to the stream it was made from, with the same arguments, exactly once, and '
                      'returns what that returned')
    L.rule('close', 'closing the adaptor closes every stream it forwards to')
    L.rule('open', 'the adaptor is open exactly if the streams it forwards to are')
    L.rule('log', 'after a transfer the log is given the prefix and exactly the bytes transferred; otherwise nothing')
    L.rule('unaltered', 'the spied data is not modified')
    L.rule('null', 'the factory yields an adaptor of the streams it was given')
    L.rule('writef', 'a formatted write sends the text formatted from its arguments, as long as that text is, and returns the '
                     'result of the write')
    P = program()
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.body is None or f.impl:
            continue
        if f.q == 'dap::ReaderWriter::create' and len(f.params) == 2:
            combined(L, P, f)
        elif f.q == 'dap::spy' and len(f.params) == 3:
            spy(L, P, f)
        elif f.q == 'dap::writef':
            writef(L, P, f)


def streams_of(evs, f, n):
    """{argument index: [icalls on it]}, others"""
    by, other = {}, []
    for e in flat(evs):
        if e[0] == 'icall':
            for i in range(n):
                if is_stream(e[4], f, i):
                    by.setdefault(i, []).append(e)
                    break
            else:
                other.append(e)
    return by, other


def opaque_path(st, evs):
    return bool(st.notes) or any(e[0] in ('loop', 'opaque', 'reccall', 'ucall') for e in evs)


def forwards(L, P, what, f, I, g, paths, q, target, nstreams):
    """read/write go to the stream `target` of the factory."""
    if paths is None:
        L.ob('forward', what, None, g.p)
        return
    for st, ret, evs in paths:
        by, other = streams_of(evs, f, nstreams)
        und = opaque_path(st, evs) or bool(other)
        cs = [e for e in by.get(target, ()) if e[3] == q]
        wrong = [e for i, es in by.items() for e in es if e[3] == q and i != target]
        if len(cs) != 1:
            ok = None if und else False
            L.ob('forward', what, ok, g.p, 'the call is made %d times on the stream%s' % (len(cs), ', and on another one' if wrong else ''))
            continue
        e = cs[0]
        a = e[5]
        same_args = len(a) == 2 and a[0] == par(g, 0) and (a[1] == par(g, 1) or st.facts.decide(T.eq(a[1], par(g, 1))) is True)
        L.ob('forward', what + ': arguments', same_args or (None if und else False), e[1], 'the call is not made with the same buffer and length')
        rt = 'bool' if q == WRITE else 'unsigned long'
        v = I.rv(st, ret, rt)
        if v == e[6]:
            ok = True
        elif q == WRITE:
            a1, b1 = truth(st, I, v), truth(st, I, e[6])
            ok = a1 is not None and a1 == b1
        else:
            ok = st.facts.decide(T.eq(v, e[6])) is True
        L.ob('forward', what + ': result', ok or (None if und else False), g.p, 'the result of the call is not returned')


def combined(L, P, f):
    r = adapted(L, P, f, 'combined')
    if r is None or len(r) != 3:
        L.ob('null', 'ReaderWriter::create', None if r is None else (False if r[0] == 0 and not r[1].notes and not r[1].facts.truth else None), f.p, 'yields no stream')
        return
    I, cls, ms = r
    for q, t in ((READ, 0), (WRITE, 1)):
        if q in ms:
            forwards(L, P, 'combined ' + q.split('::')[-1], f, I, ms[q][0], ms[q][1], q, t, 2)
            for st, ret, evs in ms[q][1] or ():
                by, other = streams_of(evs, f, 2)
                x = [e for i, es in by.items() for e in es if e[3] != q and e[3] != OPEN]
                L.ob('forward', 'combined ' + q.split('::')[-1] + ': nothing else', not x, (x[0][1] if x else f.p), 'does something else to the streams')
    closes(L, 'combined', f, ms, (0, 1), 2)
    opens(L, 'combined', f, I, ms, (0, 1), 2)


def closes(L, what, f, ms, want, n):
    g, paths = ms.get(CLOSE, (None, None))
    for st, ret, evs in paths or ():
        by, other = streams_of(evs, f, n)
        und = opaque_path(st, evs) or bool(other)
        for i in want:
            c = [e for e in by.get(i, ()) if e[3] == CLOSE]
            L.ob('close', '%s: closes %s' % (what, f.params[i]['n']), True if c else (None if und else False), g.p,
                 'close does not close the stream ' + f.params[i]['n'])
        for i in by:
            if i not in want:
                c = [e for e in by[i] if e[3] == CLOSE]
                L.ob('close', '%s: leaves %s' % (what, f.params[i]['n']), not c, g.p, 'close closes the log')


def opens(L, what, f, I, ms, want, n):
    g, paths = ms.get(OPEN, (None, None))
    for st, ret, evs in paths or ():
        by, other = streams_of(evs, f, n)
        und = opaque_path(st, evs) or bool(other)
        for s2, b in forks(I, st, ret):
            vals = {}
            for i in want:
                c = [e for e in by.get(i, ()) if e[3] == OPEN]
                vals[i] = truth(s2, I, c[-1][6]) if c else None
            if b:
                ok = all(vals[i] is True for i in want)
                why = 'is open although a stream it forwards to may be closed'
            else:
                ok = any(vals[i] is False for i in want)
                why = 'is not open although its streams may be'
            L.ob('open', what, True if ok else (None if und else False), g.p, why)


def spy(L, P, f):
    rd = 'Reader' in f.params[0]['t']
    what = 'reader spy' if rd else 'writer spy'
    r = adapted(L, P, f, what)
    if r is None or len(r) != 3:
        L.ob('null', what, None if r is None else (False if r[0] == 0 and not r[1].notes and not r[1].facts.truth else None), f.p, 'yields no stream')
        return
    I, cls, ms = r
    q = READ if rd else WRITE
    closes(L, what, f, ms, (0,), 2)
    opens(L, what, f, I, ms, (0,), 2)
    if q not in ms:
        L.ob('forward', what, None, f.p)
        return
    g, paths = ms[q]
    forwards(L, P, what, f, I, g, paths, q, 0, 2)
    prefix = ('app', 'cstr', ('v', ('o', f.params[2]['n']), 0, 'p'), 0)
    buf = ('d', par(g, 0))
    for st, ret, evs in paths or ():
        by, other = streams_of(evs, f, 2)
        und = opaque_path(st, evs) or bool(other)
        cs = [e for e in by.get(0, ()) if e[3] == q]
        logs = [e for e in by.get(1, ()) if e[3] == WRITE]
        if len(cs) != 1:
            continue
        e = cs[0]
        evl = list(flat(evs))
        pos = evl.index(e)
        if rd:
            moved = T.lt(0, e[6])
            cnt = e[6]
        else:
            moved = T.neg(T.eq(e[6], 0))
            cnt = e[5][1]
        ep = st.store.get(('ep', buf), 0)
        wl = st.store.get(('wl', buf))
        L.ob('unaltered', what, True if wl is None else (None if und else False), g.p, 'writes to the buffer of the spied stream')
        if not logs:
            can = assumable(st, moved, True)
            if not rd and can:
                # nothing to log for an empty write
                s2 = st.copy()
                can = s2.facts.assume(moved, True) and s2.facts.assume(T.eq(cnt, 0), False)
            L.ob('log', what + ': every transfer', (None if und else False) if can else True, g.p, 'a transfer may not be logged')
            continue
        if assumable(st, moved, False):
            L.ob('log', what + ': only transfers', None if und else False, logs[0][1], 'logs although nothing may have been transferred')
        else:
            L.ob('log', what + ': only transfers', True, logs[0][1])
        if any(evl.index(x) < pos for x in logs):
            L.ob('log', what + ': after the transfer', False, logs[0][1], 'logs before the transfer took place')
            continue
        parts = [x[7] if len(x) > 7 else None for x in logs]
        if any(p is None for p in parts):
            L.ob('log', what + ': content', None, g.p)
            continue
        got = T.concat(*parts)
        want_data = T.mkseq([('sl', ('v', buf, ep, 'o'), 0, cnt)])
        gp = T.parts_of(got)
        # the prefix, whatever term stands for it, then the data
        pre = member_prefix(gp, f)
        data = T.mkseq(gp[1:]) if pre else got
        if not pre:
            L.ob('log', what + ': prefix', None if und or lossy_prefix(gp) else False, g.p, 'the prefix is not written in front of the data')
        else:
            L.ob('log', what + ': prefix', True, g.p)
        ok, why = seq_same(st, data, want_data)
        # the data must have been taken after the transfer
        if ok is None and not und and not lossy_data(data, cnt):
            ok = False
        L.ob('log', what + ': content', None if ok is False and und else ok, g.p, 'the bytes logged are not those transferred (%s)' % why)


def lossy_data(d, cnt):
    return has_term(d, lambda x: isinstance(x, tuple) and x and x[0] in ('sym', 'app', 'opq') and x != cnt
                    and x[:2] != ('app', 'strlen') and x[:2] != ('app', 'cstr'))


def lossy_prefix(ps):
    return not ps or ps[0][0] != 'sl' or has_term(ps[0][1], lambda x: isinstance(x, tuple) and x and x[0] in ('sym', 'opq'))


def member_prefix(ps, f):
    if not ps or ps[0][0] != 'sl':
        return False
    p = ps[0]
    n = ('o', f.params[2]['n'])
    return has_term(p[1], lambda x: x == n) and p[2] == 0 and p[3] == ('len', p[1])


def writef(L, P, f):
    I = new_interp(P, adaptor_hooks)
    r = run(L, P, f, None, None, I=I)
    if r is None:
        L.ob('writef', 'writef', None, f.p)
        return
    w, msg = f.params[0]['n'], f.params[1]['n']
    for st, ret in r.rs:
        evs = list(flat(st.events()))
        und = opaque_path(st, evs)
        ws = [e for e in evs if e[0] == 'icall' and e[3] == WRITE]
        fm = [e for e in evs if e[0] == 'fmt']
        if len(ws) != 1:
            L.ob('writef', 'writes once', None if und or has_loop(st) else False, f.p, 'the text is written %d times' % len(ws))
            continue
        e = ws[0]
        L.ob('writef', 'to its writer', has_term(e[4], lambda x: x == ('o', w)), e[1], 'writes to another stream')
        v = I.rv(st, ret, 'bool')
        L.ob('writef', 'result', v == e[6] or (truth(st, I, v) is not None and truth(st, I, v) == truth(st, I, e[6])) or
             (None if und else False), f.p, 'does not return the result of the write')
        c = e[7] if len(e) > 7 else None
        if c is None or not fm:
            L.ob('writef', 'text', None, e[1])
            continue
        fmt = has_term(fm[-1][6] if len(fm[-1]) > 6 else fm[-1], lambda x: x == ('o', msg))
        L.ob('writef', 'format', fmt or None, fm[-1][1])
        isf = lambda x: isinstance(x, tuple) and x and x[0] == 'app' and x[1] == 'fmt'
        ps = T.parts_of(c)
        whole = len(ps) == 1 and ps[0][0] == 'sl' and isf(ps[0][1]) and ps[0][2] == 0 and \
            (ps[0][3] == ('len', ps[0][1]) or st.facts.decide(T.eq(ps[0][3], ('len', ps[0][1]))) is True)
        if whole and e[5][1] != T.seqlen(c) and st.facts.decide(T.eq(e[5][1], T.seqlen(c))) is not True:
            ok = False if not und and not has_term(e[5][1], lambda x: isinstance(x, tuple) and x and x[0] == 'sym') else None
        elif whole:
            ok = True
        elif len(ps) == 1 and ps[0][0] == 'sl' and isf(ps[0][1]) and not has_term(ps[0][3], lambda x: isinstance(x, tuple) and x and x[0] == 'sym'):
            ok = False
        else:
            ok = None
        L.ob('writef', 'text', ok, e[1], 'the bytes written are not exactly the formatted text')
