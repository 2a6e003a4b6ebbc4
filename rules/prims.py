"""C14, C16, C17: the synchronisation primitives."""
import os
from common import *
import conc
from conc import rw_summaries, owner_of, trace_list

FILES = ('io.cpp', 'socket.cpp', 'network.cpp', 'typeof.cpp')


def program():
    return ir.extract(ir.src(*FILES) + [os.path.join(VERIF, 'witness', 'conc.cpp')])


def hooks(I):
    """Record the state at the start and the end of every section that holds a lock."""
    I.nojoin = True

    def acq(I, st, mloc, pos, mode):
        st.ev('snap', pos, mloc, st.copy())

    def rel(I, st, mloc, pos, mode):
        pre = conc.section_start(st, mloc)
        st.ev('section', pos, mloc, pre, st.copy())

    def head(I, s, st):
        st.ev('lhead', s['p'], None, st.copy())
    I.acq_post, I.rel_hook, I.head_hook = acq, rel, head


def methods(P, cls, name=None, kinds=('method',)):
    out = []
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.rec != cls or f.body is None or f.kind not in kinds:
            continue
        if name is None or f.q.split('::')[-1] == name:
            out.append(f)
    return out


def do(L, P, f, setup=hooks, ops=None):
    r = run(L, P, f, f.rec, setup, ops=ops)
    if r is not None:
        I = r.I
        I.acq_post = I.rel_hook = I.head_hook = None
    return r


def sections(st):
    return [e for e in flat(st.events()) if e[0] == 'section']


def assumable(st, t, val):
    f = st.facts.copy()
    return f.assume(t, val)


def change(I, pre, post, q):
    """What a section did to the sequence q: same, push v, pop, clear, other, ?"""
    a, b = M.cval(I, pre.copy(), q), M.cval(I, post.copy(), q)
    if a == b:
        return ('same',)
    if b == b'' or post.facts.decide(T.eq(T.seqlen(b), 0)) is True:
        return ('clear',)
    pa, pb = T.parts_of(a), T.parts_of(b)
    if pb[:len(pa)] == pa and len(pb) == len(pa) + 1 and pb[-1][0] == 'el':
        return ('push', pb[-1][1])
    if T.mkseq(pb) == T.mkseq((('sl', a, 1, T.sub(T.seqlen(a), 1)),)):
        return ('pop',)
    if has_term(b, lambda x: isinstance(x, tuple) and x and x[0] == 'sym'):
        return ('?',)
    return ('other',)


# -- C14: channels --------------------------------------------------------------

def C14(L):
    L.rule('put', 'every path of put appends its argument, once, at the back of the queue')
    L.rule('take', 'a path of take that yields an item yields the front of the queue and removes exactly that')
    L.rule('empty', 'take yields nothing only when the queue is empty and the channel closed')
    L.rule('drain', 'close leaves the queued items in place')
    L.rule('reset', 'reset empties the queue and reopens the channel')
    L.rule('initial', 'a new channel is open and empty')
    P = program()
    cls = 'dap::Chan<witness::Item>'
    if cls not in P.recs:
        raise AnalysisError('dap::Chan not found')
    puts = [(f, do(L, P, f)) for f in methods(P, cls, 'put')]
    # the queue: the member container put adds to
    qs = {}
    for f, r in puts:
        for st, _ in (r.rs if r else ()):
            for e in flat(st.events()):
                if e[0] in ('cpush', 'cpushf', 'cinsert') and e[3][0] == 'f' and e[3][1] == SELF:
                    qs[e[3]] = qs.get(e[3], 0) + 1
    if not qs:
        L.ob('put', 'queue', None, None, 'put adds to no known container')
        return
    q = max(qs, key=lambda k: qs[k])
    for f, r in puts:
        inst = sig(f)
        if r is None:
            L.ob('put', inst, None, f.p, 'not analysed')
            continue
        for st, _ in r.rs:
            ch = [change(r.I, e[4], e[5], q) for e in sections(st) if e[4] is not None]
            ch = [c for c in ch if c[0] != 'same']
            if any(c[0] == '?' for c in ch):
                ok = None
            elif not ch:
                ok = None if st.notes else False
            else:
                ok = len(ch) == 1 and ch[0][0] == 'push' and from_param(ch[0][1], f)
            L.ob('put', inst, ok, f.p, 'does not append exactly its argument at the back of the queue (%s)'
                 % (', '.join(c[0] for c in ch) or 'nothing is added'))
    # the open/closed flag: set to a constant by close, to another one by reset
    clo = [(f, do(L, P, f)) for f in methods(P, cls, 'close')]
    res = [(f, do(L, P, f)) for f in methods(P, cls, 'reset')]
    flag = flags(clo, res)
    for f, r in clo:
        if r is None:
            L.ob('drain', sig(f), None, f.p)
            continue
        for st, _ in r.rs:
            for e in sections(st):
                if e[4] is not None:
                    c = change(r.I, e[4], e[5], q)[0]
                    L.ob('drain', sig(f), None if c == '?' else c == 'same', f.p, 'changes the queue (%s)' % c)
    for f, r in res:
        if r is None:
            L.ob('reset', sig(f), None, f.p)
            continue
        for st, _ in r.rs:
            v = M.cval(r.I, st.copy(), q)
            z = st.facts.decide(T.eq(T.seqlen(v), 0))
            L.ob('reset', sig(f) + ': empties the queue', True if z is True else (None if unknown(v) else False), f.p,
                 'leaves items in the queue')
            opened = [l for l, c1 in flag_sets(clo).items() if r.I.load(st.copy(), l, 'bool') not in (c1,)
                      and isinstance(r.I.load(st.copy(), l, 'bool'), int)]
            L.ob('reset', sig(f) + ': reopens', bool(opened) or (None if not flag_sets(clo) else False), f.p,
                 'leaves the channel closed')
    takes = methods(P, cls, 'take')
    for f in takes:
        r = do(L, P, f)
        if r is not None:
            ks = [engaged(L, P, r.I, st, v) for st, v in r.rs]
            if ks and all(k and k[0] for k in ks) and not any(st.notes for st, _ in r.rs):
                L.ob('empty', sig(f) + ': after close', False, f.p, 'never yields nothing: blocks when empty and closed')
        if r is None:
            L.ob('take', sig(f), None, f.p)
            continue
        for st, v in r.rs:
            k = engaged(L, P, r.I, st, v)
            ss = [e for e in sections(st) if e[4] is not None]
            ch = [(e, change(r.I, e[4], e[5], q)) for e in ss]
            eff = [c for e, c in ch if c[0] != 'same']
            if k is None or any(c[0] == '?' for c in eff):
                L.ob('take', sig(f), None, f.p, 'result not understood')
                continue
            if not k[0]:
                ok = not eff
                L.ob('take', sig(f) + ': empty result', ok, f.p, 'yields nothing although it removed an item')
                if not ss:
                    L.ob('empty', sig(f), None if st.notes else False, f.p, 'yields nothing without looking at the queue')
                    continue
                e = ss[-1]
                n = T.seqlen(M.cval(r.I, e[4].copy(), q))
                bad = ''
                if assumable(st, T.eq(n, 0), False):
                    bad = 'can yield nothing although an item is queued'
                elif flag is not None:
                    loc, c1, c0 = flag
                    if assumable(st, T.eq(r.I.load(e[4].copy(), loc, 'bool'), c0), True):
                        bad = 'can yield nothing although the channel is open'
                und = flag is None and not bad
                L.ob('empty', sig(f), None if und or (bad and st.notes) else not bad, f.p, bad)
            else:
                src = [e for e, c in ch if c[0] == 'pop']
                if len(eff) != 1 or not src:
                    L.ob('take', sig(f) + ': item', None if st.notes else False, f.p,
                         'yields an item without removing exactly the front of the queue (%s)' %
                         (', '.join(c[0] for c in eff) or 'nothing removed'))
                    continue
                q0 = M.cval(r.I, src[0][4].copy(), q)
                want = ('at', q0, 0)
                got = k[1]
                ok = got == want or only_from(got, want)
                L.ob('take', sig(f) + ': item', ok if ok else (None if unknown(got) else False), f.p,
                     'yields something else than the item it removes')
    # initial state
    for f in P.fns.values():
        if f.rec == cls and f.kind == 'ctor' and not f.params and f.body is not None:
            r = do(L, P, f)
            if r is None:
                continue
            for st, _ in r.rs:
                v = st.store.get(q)
                L.ob('initial', 'empty', True if v in (None, 0, b'') else None, f.p, 'items in a new channel')
                if flag is not None:
                    x = st.store.get(flag[0])
                    L.ob('initial', 'open', None if x is None else st.facts.decide(T.eq(x, flag[2])), f.p,
                         'a new channel is not open')


def sig(f):
    return '%s(%s)' % (f.q, ', '.join(p['t'] for p in f.params))


def unknown(v):
    return has_term(v, lambda x: isinstance(x, tuple) and x and x[0] in ('sym', 'app', 'opq'))


def has_sym(v):
    return has_term(v, lambda x: isinstance(x, tuple) and x and x[0] == 'sym')


def from_param(v, f):
    ps = {('o', p['n']) for p in f.params}
    return bool(ps) and has_term(v, lambda x: isinstance(x, tuple) and len(x) == 2 and x in ps)


def only_from(v, src):
    """v is src taken apart and put together again."""
    if v == src:
        return True
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'rec':
        return len(v[2]) > 0 and all(x == ('proj', src, n) or only_from(x, ('proj', src, n)) for n, x in v[2])
    return False


def flag_sets(clo):
    """{location: constant} that every path of the given methods stores."""
    out = None
    for f, r in clo:
        for st, _ in (r.rs if r else ()):
            d = {e[3]: e[4] for e in flat(st.events()) if e[0] in ('set', 'astore') and isinstance(e[4], int)
                 and e[3][0] == 'f' and e[3][1] == SELF}
            out = d if out is None else {k: v for k, v in out.items() if d.get(k) == v}
    return out or {}


def flags(clo, res):
    a, b = flag_sets(clo), flag_sets(res)
    for l in a:
        if l in b and a[l] != b[l]:
            return (l, a[l], b[l])
    for l in a:
        return (l, a[l], 0 if a[l] else 1)
    return None


def engaged(L, P, I, st, v):
    """(is a value held, the value) of a returned dap::optional, through its own
    accessors; None if unknown."""
    try:
        s = st.copy()
        loc = I.as_temp(s, v)
        cls = 'dap::optional<witness::Item>'
        hv = [f for f in methods(P, cls, 'has_value')]
        va = [f for f in methods(P, cls, 'value')]
        if not hv or not va:
            return None
        rs = I.invoke(hv[0].key, loc, [], s.copy(), hv[0].p)
        ds = {x.facts.decide(T.neg(T.eq(I.rv(x, t, 'bool'), 0))) if not isinstance(I.rv(x, t, 'bool'), int)
              else bool(I.rv(x, t, 'bool')) for x, t in rs}
        if len(ds) != 1 or None in ds:
            return None
        if not ds.pop():
            return (False, None)
        rs = I.invoke(va[0].key, loc, [], s.copy(), va[0].p)
        if len(rs) != 1:
            return None
        x, t = rs[0]
        return (True, I.rv(x, t, 'witness::Item'))
    except (X.Undecided, KeyError, TypeError, IndexError):
        return None


# -- C17: futures ----------------------------------------------------------------

def C17(L):
    L.rule('set', 'set_value stores its argument as the value and marks it present, before the lock is released')
    L.rule('get', 'get returns the stored value, on paths on which it is known to be present')
    L.rule('wait', 'wait returns only when the value is present')
    L.rule('timed', 'a timed wait returns ready on paths with the value present and timeout on the others, and waits '
                    'as long as asked')
    L.rule('share', 'a promise hands out its own state, and copies share it')
    L.rule('alive', 'promises and futures own the shared state')
    L.rule('initial', 'a new state holds no value')
    P = program()
    pc, fc = 'dap::promise<witness::Item>', 'dap::future<witness::Item>'
    if pc not in P.recs or fc not in P.recs:
        raise AnalysisError('dap::promise/future not found')
    # what set_value does to the state
    val, flagm, first = None, None, True
    sets = []
    for f in methods(P, pc, 'set_value'):
        r = do(L, P, f)
        if r is None:
            L.ob('set', sig(f), None, f.p)
            continue
        for st, _ in r.rs:
            evs = list(flat(st.events()))
            ss = [e for e in evs if e[0] == 'section' and e[4] is not None]
            mine, fl = {}, {}
            for e in evs:
                if e[0] != 'set' or not ss:
                    continue
                o = owner_of(ss[0][3])
                if not T.under(e[3], o) or e[3] == o:
                    continue
                m = member_under(e[3], o)
                if isinstance(e[4], int) and not isinstance(e[4], bool) or e[4] in (True, False):
                    if e[3] == ('f', o, m):
                        fl[m] = int(e[4])
                elif from_param(e[4], f):
                    mine.setdefault(m, evs.index(e))
            sets.append((f, r, st, evs, ss, mine, fl))
    allm = [set(x[5]) for x in sets]
    vm = set.union(*allm) if allm else set()
    allf = [set(x[6].items()) for x in sets]
    fm = set.union(*allf) if allf else set()
    if len(vm) != 1 or len(fm) != 1:
        for f, r, st, evs, ss, mine, fl in sets:
            bad = not st.notes and (not mine or not fl) and len(vm) <= 1 and len(fm) <= 1
            L.ob('set', sig(f), False if bad else None, f.p, 'does not store its argument and mark it present')
        if not (len(vm) == 1 and len(fm) == 1):
            return
    val, (flagm, on) = vm.pop(), fm.pop()
    for f, r, st, evs, ss, mine, fl in sets:
        ok = val in mine and fl.get(flagm) == on
        msg = 'does not store its argument and mark it present'
        if ok:
            # in the section that marks it present, the value is already there
            bad = None
            for e in ss:
                o = owner_of(e[3])
                p = st.facts.decide(T.eq(r.I.load(e[5].copy(), ('f', o, flagm), 'bool'), on))
                if p is True:
                    v = r.I.rv(e[5].copy(), ('L', ('f', o, val)), 'witness::Item')
                    bad = not from_param(v, f)
                    break
            if bad:
                ok, msg = False, 'marks the value present before it is stored'
            elif bad is None:
                ok, msg = False, 'marks the value present outside the lock'
        L.ob('set', sig(f), ok if ok or not st.notes else None, f.p, msg)
    # nothing ever withdraws the value
    mono = True
    for cls in (pc, fc):
        for f in methods(P, cls):
            r = do(L, P, f)
            if r is None or any(e[0] == 'set' and e[3][0] == 'f' and e[3][2] == flagm and e[4] != on
                                for st, _ in r.rs for e in flat(st.events())):
                mono = False
    ready, tout = const_of(L, P, 'witness::ready'), const_of(L, P, 'witness::timeout')
    for name, rule in (('get', 'get'), ('wait', 'wait'), ('wait_for', 'timed'), ('wait_until', 'timed')):
        for f in methods(P, fc, name):
            r = do(L, P, f)
            if r is None:
                L.ob(rule, sig(f), None, f.p)
                continue
            for st, v in r.rs:
                ss = [e for e in sections(st) if e[4] is not None and has_state(r.I, e, flagm)]
                if not ss:
                    L.ob(rule, sig(f), None if st.notes else False, f.p, 'returns without looking at the shared state')
                    continue
                e = ss[-1]
                o = owner_of(e[3])
                pv = T.eq(r.I.load(e[5].copy(), ('f', o, flagm), 'bool'), on)
                if mono and any(st.facts.decide(T.eq(r.I.load(x[5].copy(), ('f', owner_of(x[3]), flagm), 'bool'), on)) is True
                                for x in ss):
                    st = st.copy()
                    st.facts.assume(pv, True)      # once set, it stays set
                if rule == 'timed':
                    rv = r.I.rv(st.copy(), v, 'int')
                    if rv == ready:
                        ok, msg = not assumable(st, pv, False), 'reports ready although no value is present'
                    elif rv == tout:
                        ok, msg = not assumable(st, pv, True), 'reports timeout although the value is present'
                    else:
                        ok, msg = None, 'result not understood'
                    L.ob(rule, sig(f), ok, f.p, msg)
                    for w in flat(st.events()):
                        if w[0] == 'wait':
                            a = w[7]
                            if w[6] and a:
                                hp = any(from_param(x, f) for x in a)
                                L.ob(rule, sig(f) + ': duration', hp or (None if any(has_sym(x) for x in a) else False),
                                     w[1], 'does not wait for the time it was given')
                            elif not w[6]:
                                L.ob(rule, sig(f) + ': duration', False, w[1], 'waits without a limit')
                    if not any(w[0] == 'wait' for w in flat(st.events())) and rv == tout and not st.notes:
                        L.ob(rule, sig(f) + ': duration', False, f.p, 'reports timeout without waiting')
                    continue
                L.ob(rule, sig(f), not assumable(st, pv, False), f.p, 'can return before the value was set')
                if rule == 'get':
                    mv = [x for x in flat(st.events()) if x[0] == 'movefrom' and x[3] == ('f', o, val)]
                    L.ob(rule, sig(f) + ': kept', not mv, mv[0][1] if mv else f.p,
                         'moves the value out of the shared state, so the next call does not get it')
                    got = r.I.rv(st.copy(), v, 'witness::Item')
                    ok = any(read_from(r.I, x, got, ('f', o, val)) for x in (e[5], e[4]))
                    L.ob(rule, sig(f) + ': value', ok if ok else (None if unknown(got) else False), f.p,
                         'does not return the stored value')
    # sharing
    state = [x['n'] for x in P.recs[pc]['fields']]
    for cls in (pc, fc):
        for x in P.recs[cls]['fields']:
            t = x['t']
            if 'promise_state' not in t and 'State' not in t:
                continue
            own = t.startswith('std::shared_ptr<') or t.startswith('const std::shared_ptr<')
            L.ob('alive', '%s::%s' % (cls, x['n']), own if own or t.endswith('*') or t.endswith('&') or 'weak_ptr' in t
                 else None, P.recs[cls]['p'], 'does not own the shared state (%s)' % t)
    sm = [x['n'] for x in P.recs[pc]['fields'] if 'shared_ptr' in x['t']]
    fsm = [x['n'] for x in P.recs[fc]['fields'] if 'shared_ptr' in x['t']]
    if len(sm) == 1 and len(fsm) == 1:
        want = ('v', ('f', SELF, sm[0]))
        for f in methods(P, pc, 'get_future'):
            r = do(L, P, f)
            if r is None:
                L.ob('share', sig(f), None, f.p)
                continue
            for st, v in r.rs:
                v = r.I.rv(st.copy(), v, fc)
                ok = has_term(v, lambda x: isinstance(x, tuple) and x[:2] == want)
                L.ob('share', sig(f), ok if ok else (None if unknown(v) else False), f.p,
                     'hands out a future that does not share the state of the promise')
        for cls, m in ((pc, sm[0]), (fc, fsm[0])):
            for f in P.fns.values():
                if f.rec == cls and f.cm in ('copy', 'move', 'copy=', 'move=') and f.body is not None and f.params:
                    if f.defaulted or f.impl:
                        L.ob('share', sig(f), True, f.p)
                        continue
                    r = do(L, P, f)
                    if r is None:
                        L.ob('share', sig(f), None, f.p)
                        continue
                    w = ('v', ('f', ('o', f.params[0]['n']), m))
                    for st, _ in r.rs:
                        v = r.I.load(st.copy(), ('f', SELF, m), 'std::shared_ptr')
                        ok = isinstance(v, tuple) and v[:2] == w
                        L.ob('share', sig(f), ok if ok else (None if unknown(v) else False), f.p,
                             'does not share the state it was made from')
    # a new state
    for f in P.fns.values():
        if f.rec and 'promise_state<witness::Item>' in f.rec and f.kind == 'ctor' and not f.params and f.body is not None:
            r = do(L, P, f)
            for st, _ in (r.rs if r else ()):
                x = st.store.get(('f', SELF, flagm))
                L.ob('initial', 'no value', None if x is None else st.facts.decide(T.eq(x, on)) is False, f.p,
                     'a new state already claims a value')


def member_under(loc, o):
    while loc[1] != o:
        loc = loc[1]
    return loc[2]


def read_from(I, st, v, loc):
    """v is what a read of loc yields in st, member by member."""
    if isinstance(v, tuple) and v and v[0] == 'rec':
        return len(v[2]) > 0 and all(read_from(I, st, x, ('f', loc, n)) for n, x in v[2])
    for t in ('int', 'witness::Item'):
        if v == I.load(st.copy(), loc, t):
            return True
    return False


def has_state(I, e, m):
    o = owner_of(e[3])
    return o is not None


def const_of(L, P, q):
    for f in P.fns.values():
        if f.q == q:
            r = run(L, P, f)
            if r and len(r.rs) == 1:
                return r.I.rv(r.rs[0][0], r.rs[0][1], 'int')
    return None


# -- C16: the read/write lock -----------------------------------------------------

def C16(L):
    L.rule('reader', 'lockReader adds one reader, unlockReader removes one, each in one section under the mutex')
    L.rule('writer', 'lockWriter returns only with the mutex held and no reader left, unlockWriter releases exactly it')
    L.rule('exclude', 'no reader enters while a writer holds the lock')
    L.rule('scoped', 'a scoped lock acquires in its own mode when made, releases once in that mode when destroyed or '
                     'assigned over, and hands its lock on when moved from')
    P = program()
    cls = 'dap::RWMutex'
    if cls not in P.recs:
        raise AnalysisError('dap::RWMutex not found')
    R = {}
    for n in ('lockReader', 'unlockReader', 'lockWriter', 'unlockWriter'):
        fs = methods(P, cls, n)
        if len(fs) != 1:
            L.ob('reader', n, None, None, 'not found')
            return
        R[n] = do(L, P, fs[0])
        if R[n] is None:
            L.ob('reader', n, None, fs[0].p, 'not analysed')
            return

    def deltas(r, st):
        """{member: net change} of the integer members on a path."""
        out, opaque = {}, False
        for e in flat(st.events()):
            if e[0] == 'set' and e[3][0] == 'f' and e[3][1] == SELF:
                d = T.sub(e[4], e[5]) if len(e) > 5 and not T.opaque_value(e[4]) and e[5] is not None \
                    and not T.opaque_value(e[5]) else None
                if isinstance(d, int) and not (isinstance(e[4], int)):
                    out[e[3][2]] = out.get(e[3][2], 0) + d
                else:
                    out[e[3][2]] = ('=', e[4])
        return out
    ups = [deltas(R['lockReader'], st) for st, _ in R['lockReader'].rs]
    dns = [deltas(R['unlockReader'], st) for st, _ in R['unlockReader'].rs]
    cand = {m for d in ups for m, k in d.items() if isinstance(k, int) and k > 0} | \
           {m for d in dns for m, k in d.items() if isinstance(k, int) and k < 0}
    if len(cand) != 1:
        L.ob('reader', 'reader count', None, R['lockReader'].fn.p, 'the reader count was not identified')
        return
    cnt = cand.pop()
    cl = ('f', SELF, cnt)

    def sec(r, st):
        return [e for e in sections(st) if e[4] is not None]
    for n, want in (('lockReader', 1), ('unlockReader', -1)):
        r = R[n]
        for st, _ in r.rs:
            ss = sec(r, st)
            tot = 0
            und = False
            for e in ss:
                a, b = r.I.load(e[4].copy(), cl, 'int'), r.I.load(e[5].copy(), cl, 'int')
                d = T.sub(b, a)
                if isinstance(d, int):
                    tot += d
                elif unknown(d):
                    und = True
                else:
                    tot = 'an amount that depends on it'
                    break
            ok = None if und or st.notes else tot == want
            L.ob('reader', n, ok, r.fn.p, 'changes the number of readers by %s' % tot)
            L.ob('reader', n + ': mutex', not st.locks, r.fn.p, 'returns with the mutex held: readers exclude each other')
    # writer: by holding the mutex, or by a flag
    r = R['lockWriter']
    held = [any(l[0][0] == 'f' and l[0][1] == SELF for l in st.locks) for st, _ in r.rs]
    if all(held):
        for st, _ in r.rs:
            v = r.I.load(st.copy(), cl, 'int')
            okc = nonzero_refuted(st, v)
            L.ob('writer', 'lockWriter: readers', okc, r.fn.p, 'can return while a reader holds the lock')
            # the count was read after the mutex was last taken
        mus = {l[0] for st, _ in r.rs for l in st.locks}
        mu = next(iter(mus))
        # readers take the same mutex to enter
        for st, _ in R['lockReader'].rs:
            ent = [e for e in flat(st.events()) if e[0] == 'acq' and e[3] == mu]
            L.ob('exclude', 'lockReader', bool(ent), R['lockReader'].fn.p, 'a reader enters without taking the mutex a writer holds')
        u = R['unlockWriter']
        for st, _ in u.rs:
            evs = list(flat(st.events()))
            rel = [e for e in evs if e[0] == 'badrel' and e[3] == mu]
            acq = [e for e in evs if e[0] == 'acq' and e[3] == mu]
            L.ob('writer', 'unlockWriter', len(rel) == 1 and not acq, u.fn.p, 'does not release the mutex exactly once')
            d = deltas(u, st)
            L.ob('writer', 'unlockWriter: readers', cnt not in d, u.fn.p, 'changes the number of readers')
    elif not any(held):
        w = [deltas(r, st) for st, _ in r.rs]
        fl = set.intersection(*[{m for m, k in d.items() if isinstance(k, tuple) and isinstance(k[1], int)} for d in w]) if w else set()
        wr = None
        for m in sorted(fl):
            c1 = w[0][m][1]
            un = [deltas(R['unlockWriter'], st).get(m) for st, _ in R['unlockWriter'].rs]
            if all(d[m][1] == c1 for d in w) and all(isinstance(x, tuple) and isinstance(x[1], int) and x[1] != c1 for x in un):
                wr = (m, c1)
        if wr is None:
            L.ob('writer', 'lockWriter', False if not any(st.notes for st, _ in r.rs) else None, r.fn.p,
                 'returns without holding the mutex and without marking the lock as held')
            return
        m, c1 = wr
        for st, _ in r.rs:
            for e in sec(r, st)[-1:]:
                # state in which the flag was set: the section that sets it
                v = r.I.load(e[5].copy(), cl, 'int')
                L.ob('writer', 'lockWriter: readers', nonzero_refuted(st, v), r.fn.p, 'can return while a reader holds the lock')
                f0 = r.I.load(e[4].copy(), ('f', SELF, m), 'bool')
                L.ob('writer', 'lockWriter: writers', not assumable(st, T.eq(f0, c1), True), r.fn.p,
                     'can return while another writer holds the lock')
        for st, _ in R['lockReader'].rs:
            for e in sec(R['lockReader'], st)[-1:]:
                f0 = R['lockReader'].I.load(e[5].copy(), ('f', SELF, m), 'bool')
                L.ob('exclude', 'lockReader', not assumable(st, T.eq(f0, c1), True), R['lockReader'].fn.p,
                     'a reader can enter while a writer holds the lock')
    else:
        L.ob('writer', 'lockWriter', False if not any(st.notes for st, _ in r.rs) else None, r.fn.p,
             'holds the mutex on some paths only')
    scoped(L, P, 'dap::RLock', 'r')
    scoped(L, P, 'dap::WLock', 'x')


def nonzero_refuted(st, v):
    """v is known to be zero (a count: not positive)."""
    f = st.facts.copy()
    return not f.assume(T.le(1, v), True) if not isinstance(v, int) else v == 0


def scoped(L, P, cls, mode):
    if cls not in P.recs:
        L.ob('scoped', cls, None, None, 'not found')
        return

    def setup(I):
        rw_summaries(I)
        I.nojoin = True

    def ops(st):
        return [(e[0], e[3], e[4]) for e in flat(st.events()) if e[0] in ('acq', 'rel')]
    ptr = None
    ctors = [f for f in P.fns.values() if f.rec == cls and f.kind == 'ctor' and f.body is not None]
    for f in ctors:
        if f.cm in ('copy', 'move') or not f.params:
            continue
        r = do(L, P, f, setup)
        if r is None:
            L.ob('scoped', sig(f), None, f.p)
            continue
        p = ('o', f.params[0]['n'])
        for st, _ in r.rs:
            o = ops(st)
            ok = len(o) == 1 and o[0][0] == 'acq' and o[0][1] == p and o[0][2] == mode
            L.ob('scoped', '%s: made' % cls, ok if ok or not st.notes else None, f.p,
                 'does not acquire the lock once, in its own mode (%s)' % ', '.join('%s %s' % (x[0], x[2]) for x in o))
            for k, v in st.store.items():
                if k[0] == 'f' and k[1] == SELF and isinstance(v, tuple) and v[0] == 'ptr' and v[1] == p:
                    ptr = k[2]
    if ptr is None:
        L.ob('scoped', cls + ': lock', None, None, 'where the lock is kept was not identified')
        return
    me = ('f', SELF, ptr)
    raw = any(x['n'] == ptr and x['t'].rstrip().endswith('*') for x in P.recs[cls]['fields'])
    for m in P.recs[cls]['methods']:
        if m['copy'] in ('copy', 'move', 'copy=', 'move=') and not m['del'] and m['def'] and raw:
            L.ob('scoped', '%s: %s' % (cls, m['copy']), False, P.recs[cls]['p'],
                 'a default copy or move leaves the same lock with two owners')

    def release(f, st, r, label, then=None, other=None):
        own = ('v', me)
        o = ops(st)
        v0 = r.I.load(X.St(), me, 'void *')
        null = st.facts.decide(T.eq(v0, 0))
        if null is True:
            ok, msg = not o, 'releases a lock it does not hold'
        elif null is False:
            ok = len(o) == 1 and o[0][0] == 'rel' and o[0][2] == mode and o[0][1] == ('d', v0)
            msg = 'does not release its lock once, in its own mode (%s)' % (', '.join('%s %s' % (x[0], x[2]) for x in o) or 'nothing')
        else:
            ok, msg = False, 'does not distinguish a lock that was moved from'
        L.ob('scoped', label, ok if ok or not st.notes else None, f.p, msg)
    for f in [f for f in P.fns.values() if f.rec == cls and f.kind == 'dtor' and f.body is not None]:
        r = do(L, P, f, setup)
        for st, _ in (r.rs if r else ()):
            release(f, st, r, cls + ': destroyed')
    if not any(f.rec == cls and f.kind == 'dtor' and not f.impl and f.body is not None for f in P.fns.values()):
        L.ob('scoped', cls + ': destroyed', False, P.recs[cls]['p'], 'has no destructor that releases the lock')
    for f in [f for f in P.fns.values() if f.rec == cls and f.cm in ('move', 'copy', 'move=', 'copy=') and f.params]:
        oth = ('f', ('o', f.params[0]['n']), ptr)
        ctor = f.kind == 'ctor'
        lab = '%s: %s %s' % (cls, f.cm.strip('='), 'constructed' if ctor else 'assigned')
        if f.defaulted or f.impl:
            if f.body is not None:
                L.ob('scoped', lab, False, f.p, 'leaves the same lock with two owners')
            continue
        if f.body is None:
            continue
        r = do(L, P, f, setup)
        if r is None:
            L.ob('scoped', lab, None, f.p)
            continue
        for st, _ in r.rs:
            mine, theirs = r.I.load(st.copy(), me, 'void *'), r.I.load(st.copy(), oth, 'void *')
            was = r.I.load(X.St(), oth, 'void *')
            ok = same(st, mine, was) is True
            L.ob('scoped', lab + ': takes the lock', ok if ok or not st.notes else None, f.p, 'does not take over the lock')
            z = st.facts.decide(T.eq(theirs, 0)) if not isinstance(theirs, int) else theirs == 0
            wz = st.facts.decide(T.eq(was, 0))
            L.ob('scoped', lab + ': one owner', True if z or wz else (None if st.notes else False), f.p,
                 'leaves the same lock with two owners')
            if ctor:
                L.ob('scoped', lab + ': no release', not ops(st), f.p, 'touches the lock')
            else:
                release(f, st, r, lab + ': releases its own')
        if not ctor:
            # assigned to itself
            r = do(L, P, f, setup, ops=[('L', SELF)])
            for st, _ in (r.rs if r else ()):
                v0 = r.I.load(X.St(), me, 'void *')
                keep = same(st, r.I.load(st.copy(), me, 'void *'), v0) is True or st.facts.decide(T.eq(v0, 0)) is True
                L.ob('scoped', lab + ': to itself', (not ops(st) and keep) or (None if st.notes else False), f.p,
                     'loses or releases its lock when assigned to itself')
