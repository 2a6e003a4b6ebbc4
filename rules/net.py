"""C18 - C21: sockets and the TCP server."""
from common import *
import conc
import prims
from prims import program
from streams import virtual, truth, forks, READ, WRITE, CLOSE, OPEN

FDCALLS = {'bind', 'listen', 'accept', 'connect', 'recv', 'send', 'sendto', 'sendmsg', 'writev', 'read', 'write', 'shutdown',
           'close', 'setsockopt', 'getsockopt', 'fcntl', 'ioctl', 'dup'}
EINTR, EAGAIN = 4, 11
F_GETFL, F_SETFL, O_NONBLOCK = 3, 4, 0x800
SO_ERROR = 4
MSG_NOSIGNAL = 0x4000
FD_SETSIZE = 1024


def hooks(I):
    I.narrowterms = 'small'      # lengths of 2 GiB are out of scope
    conc.rw_summaries(I)
    prims.hooks(I)

    def sys(I, st, q, args, ret, pos, phase):
        if phase == 0:
            st.ev('syspre', pos, q, args, ret, st.copy())
            return None
        st.ev('syspost', pos, q, args, ret, st.copy())
        if q not in ('send', 'write'):
            return None
        # remember how much the system has taken
        out = []
        for s, b in I.fork(st, T.le(0, ret)):
            if b:
                g = s.store.get(('wl', X.GHOST))
                w = T.mkseq([('sl', ('v', X.GHOST, 0, 'o'), T.seqlen(g[1]) if g and g[0] != 'mess' else 0, ret)])
                if g is None:
                    s.store[('wl', X.GHOST)] = (0, w)
                elif g[0] != 'mess':
                    s.store[('wl', X.GHOST)] = (0, T.concat(g[1], w))
            out.append((s, ret))
        return out

    def back(I, s, st):
        st.ev('lback', s['p'], None, st.copy())
    I.sys_hook, I.back_hook = sys, back


def do(L, P, f, cls=None, setup=hooks, I=None, ops=None, st=None):
    st = st or X.St()
    I = I or new_interp(P, setup)
    r = run(L, P, f, cls or f.rec, None, ops=ops, st=st, I=I)
    if r is not None:
        I.acq_post = I.rel_hook = I.head_hook = I.back_hook = I.sys_hook = None
    return r


def lroot(loc):
    while loc[0] == 'f':
        loc = loc[1]
    return loc


def fd_kind(v):
    if isinstance(v, tuple) and v:
        if v[0] == 'sym' and v[1] in ('socket', 'accept'):
            return 'fresh'
        if v[0] == 'v' and isinstance(v[1], tuple) and v[1][0] == 'f':
            return 'member'
    return None


def invalid(st, v):
    return st.facts.decide(T.eq(v, -1))


def at(I, st, loc, t='int'):
    return I.rv(st.copy(), ('L', loc), t)


def versions(facts, loc):
    """The values of member loc that a path knows something about, oldest first."""
    vs = set()

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] == 'v' and x[1] == loc:
                vs.add(x)
                return
            for y in x:
                walk(y)
    for t in list(facts.truth) + list(facts.cons):
        walk(t)
    return sorted(vs, key=lambda v: v[2])


def feasible(st, locs):
    """A handle never becomes valid again once it was invalid."""
    for l in locs:
        gone = False
        for v in versions(st.facts, l):
            d = invalid(st, v)
            if d is True:
                gone = True
            elif d is False and gone:
                return False
    return True


def owner_class(P, runs):
    """The class whose objects hold the handles, and the members that do."""
    cls, locs, infos = {}, set(), set()
    for f, r in runs:
        for st, _ in (r.rs if r else ()):
            for k, v in st.store.items():
                if k[0] == 'f' and lroot(k)[0] == 'h' and isinstance(v, tuple) and v and v[0] == 'sym':
                    path = member_path(k)
                    if v[1] in ('socket', 'accept'):
                        cls[lroot(k)[2]] = cls.get(lroot(k)[2], 0) + 1
                        locs.add(path)
                    elif v[1] == 'info':
                        infos.add(path)
    return (max(cls, key=lambda c: cls[c]) if cls else None), locs, infos


def member_path(loc):
    out = []
    while loc[0] == 'f':
        out.append(loc[2])
        loc = loc[1]
    return tuple(reversed(out))


def under(rootloc, path):
    for p in path:
        rootloc = ('f', rootloc, p)
    return rootloc


def reachable(r, st, ret):
    todo, seen = [ret], set()
    for k, v in st.store.items():
        if k[0] in ('f', 'o') and lroot(k) == SELF:
            todo.append(v)
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple):
            continue
        if x and x[0] == 'h':
            if x in seen:
                continue
            seen.add(x)
            for k, v in st.store.items():
                if k[0] in ('f', 'e') and lroot(k) == x:
                    todo.append(v)
            continue
        if x and x[0] == 'L' and len(x) == 2:
            l = x[1]
            for k, v in st.store.items():
                if k == l or (k[0] == 'f' and lroot(k) == l):
                    todo.append(v)
        todo.extend(x)
    return seen


def freed_objects(evs):
    return {e[3][1] for e in evs if e[0] == 'free' and T.is_ptr(e[3])}


def holders(st, v, dead):
    """Live objects that hold value v."""
    out = []
    for k, x in st.store.items():
        if x == v and k[0] == 'f' and lroot(k)[0] in ('h', 'o') and lroot(k) not in dead:
            out.append(lroot(k))
    return out


def opaque(st, evs):
    return bool(st.notes) or any(e[0] in ('opaque', 'varcall', 'reccall') for e in evs)


def runs_of(L, P):
    """The public functions of dap::Socket."""
    out = []
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.rec == 'dap::Socket' and f.body is not None and not f.impl and f.kind in ('ctor', 'method') \
                and f.q.split('::')[-1] in ('Socket', 'accept', 'isOpen', 'close', 'connect'):
            out.append((f, do(L, P, f)))
    return out


def entries(L, P):
    base = runs_of(L, P)
    if not base:
        raise AnalysisError('dap::Socket not found')
    K, locs, infos = owner_class(P, base)
    es = [(f.q.replace('dap::', ''), 'api', f, r) for f, r in base]
    if K is None:
        L.ob('released', 'handle owner', None, None, 'no class was found that keeps the handles')
        return es, None, set(), set()
    for q in (READ, WRITE, CLOSE, OPEN):
        f = virtual(P, K, q)
        if f is not None:
            es.append(('connection ' + q.split('::')[-1], 'method', f, do(L, P, f, K)))
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.rec == K and f.kind == 'dtor' and f.body is not None:
            es.append(('connection destructor', 'dtor', f, do(L, P, f, K)))
    return es, K, locs, infos


def C18(L):
    L.rule('valid', 'a system call is given a handle only where it is known not to be the invalid one')
    L.rule('after-close', 'no handle is used, and no address list read, after it was closed or freed on the path')
    L.rule('locked', "a connection's handle is used only while a lock of the connection is held, with the value read "
                     'under that lock')
    L.rule('close-once', "a connection's handle is closed with the exclusive lock held or after being taken out under it, "
                         'and is marked invalid before that lock is released')
    L.rule('released', 'on every path each handle and address list obtained is closed or freed exactly once, or kept by '
                       'a live object')
    L.rule('wake', 'a handle is shut down in both directions before the exclusive lock for closing it is awaited')
    L.rule('closes', 'closing a connection leaves its handle invalid, and nothing makes it valid again')
    L.rule('open', 'a connection reports open only while its handle is valid')
    P = program()
    es, K, hpaths, ipaths = entries(L, P)
    for name, kind, f, r in es:
        if r is None:
            L.ob('released', name, None, f.p, 'not analysed')
            continue
        for st, ret in r.rs:
            path(L, P, name, kind, f, r, st, ret, K, hpaths, ipaths)


def path(L, P, name, kind, f, r, st, ret, K, hpaths, ipaths):
    I = r.I
    evs = list(flat(st.events()))
    mlocs = {e[4][0][1] for e in evs if e[0] == 'syspre' and e[4] and fd_kind(e[4][0]) == 'member'}
    mlocs |= {under(SELF, p) for p in hpaths} if kind in ('method', 'dtor') else set()
    if not feasible(st, mlocs):
        return
    L.count('paths')
    closed, freed = {}, {}
    secs = [e for e in evs if e[0] == 'section']
    for i, e in enumerate(evs):
        if e[0] != 'syspre':
            continue
        q, args, pre = e[3], e[4], e[6]
        if q == 'freeaddrinfo':
            v = args[0]
            if v in freed:
                L.ob('after-close', '%s: %s' % (name, q), False, e[1], 'an address list is freed twice on this path')
            freed[v] = freed.get(v, 0) + 1
            continue
        for v in freed:
            if has_term(args, lambda x: x == ('d', v)):
                L.ob('after-close', '%s: %s' % (name, q), False, e[1], 'the address list passed to %s was freed before' % q)
        if q not in FDCALLS or not args:
            continue
        v = args[0]
        k = fd_kind(v)
        inst = '%s: %s' % (name, q)
        iv = invalid(pre, v)
        if k is None and iv is None:
            L.ob('valid', inst, None, e[1], 'the handle is not followed (%s)' % show(v))
            continue
        L.ob('valid', inst, iv is False, e[1], '%s may be given the invalid handle' % q if iv is None
             else '%s is given the invalid handle' % q)
        if v in closed:
            L.ob('after-close', inst, False, e[1], '%s uses a handle that was closed before on this path' % q)
        else:
            L.ob('after-close', inst, True)
        own = k == 'member' and kind == 'dtor' and lroot(v[1]) == SELF
        if q == 'close':
            closed[v] = closed.get(v, 0) + 1
            if k == 'member' and not own:
                close_rule(L, name, inst, I, e, v, secs, evs[:i])
        elif k == 'member' and not own:
            held = [m for m, md in pre.locks if lroot(m) == lroot(v[1])]
            cur = at(I, pre, v[1])
            taken = any(taken_out(I, s, v) for s in secs)
            L.ob('locked', inst, bool(held and cur == v) or taken or (None if held and pre.facts.decide(T.eq(cur, v)) is None
                                                                       and lossy(cur) else False),
                 e[1], '%s uses the handle %s' % (q, 'without the lock that keeps it from being closed' if not held else
                                                  'read before the lock was taken'))
    dead = freed_objects(evs)
    reach = None
    for what, syms, gone in (('handle', [e[5] for e in evs if e[0] == 'sys' and e[3] in ('socket', 'accept')], closed),
                             ('address list', infos_of(st, evs), freed)):
        for v in syms:
            inst = '%s: %s' % (name, what)
            iv = invalid(st, v) if what == 'handle' else isnull(st, v)
            n = gone.get(v, 0)
            hs = holders(st, v, dead)
            if iv is True:
                continue
            if n > 1:
                continue          # reported above
            if n == 1:
                ok = not hs
                msg = 'is still kept by an object after it was released'
            else:
                if reach is None:
                    reach = reachable(r, st, ret)
                ok = any(h in reach or h == SELF for h in hs)
                msg = 'obtained on this path is neither released nor kept'
                if not ok and opaque(st, evs):
                    ok = None
            L.ob('released', inst, ok, f.p, 'a %s %s' % (what, msg))
    # the connection's own handle
    if kind in ('method', 'dtor'):
        own_handle(L, name, kind, f, r, st, ret, evs, closed, freed, secs, hpaths, ipaths)


def lossy(x):
    return has_term(x, lambda y: isinstance(y, tuple) and y and y[0] == 'sym')


def taken_out(I, s, v):
    """In section s the member held v and was made invalid, exclusively."""
    if s[4] is None or (s[3], 'x') not in s[2] or lroot(s[3]) != lroot(v[1]):
        return False
    return at(I, s[4], v[1]) == v and invalid(s[5], at(I, s[5], v[1])) is True


def close_rule(L, name, inst, I, e, v, secs, before):
    mine = [s for s in secs if s[4] is not None and lroot(s[3]) == lroot(v[1]) and at(I, s[4], v[1]) == v]
    if not mine:
        L.ob('close-once', inst, False, e[1], 'closes a handle that was not read under the exclusive lock')
        return
    s = mine[0]
    if (s[3], 'x') not in s[2]:
        L.ob('close-once', inst, False, e[1], 'closes the handle while only the shared lock is held: users and other '
                                              'closers are not excluded')
        return
    post = at(I, s[5], v[1])
    iv = invalid(s[5], post)
    L.ob('close-once', inst, True if iv is True else (False if post == v else None), e[1],
         'the handle is closed but not marked invalid before the lock is released')
    # woken before the exclusive lock was awaited
    acqs = [j for j, x in enumerate(before) if x[0] == 'acq' and x[3] == s[3] and x[4] == 'x']
    j = acqs[-1] if acqs else 0
    sh = [x for x in before[:j] if x[0] == 'sys' and x[3] == 'shutdown' and fd_kind(x[4][0]) == 'member'
          and x[4][0][1] == v[1]]
    ok = bool(sh)
    if sh and isinstance(sh[-1][4][1], int):
        ok = any(x[4][1] == 2 for x in sh if isinstance(x[4][1], int))
    L.ob('wake', inst, ok, e[1], 'the exclusive lock is awaited before operations blocked on the handle are woken by '
                                 'shutting it down in both directions')


def infos_of(st, evs):
    out = [v for v in st.store.values() if isinstance(v, tuple) and len(v) == 4 and v[0] == 'sym' and v[1] == 'info']
    out = sorted(set(out), key=T.tid)
    for e in evs:
        if e[0] in ('syspre', 'sys'):
            for x in subterms(e[4]):
                if isinstance(x, tuple) and len(x) == 4 and x[0] == 'sym' and x[1] == 'info' and x not in out:
                    out.append(x)
    return out


def subterms(x):
    if isinstance(x, tuple):
        yield x
        for y in x:
            for z in subterms(y):
                yield z


def own_handle(L, name, kind, f, r, st, ret, evs, closed, freed, secs, hpaths, ipaths):
    I = r.I
    for p in sorted(hpaths):
        loc = under(SELF, p)
        known = [v for v in versions(st.facts, loc)]
        n = sum(c for v, c in closed.items() if fd_kind(v) == 'member' and v[1] == loc)
        was = [v for v in known if invalid(st, v) is False]
        if kind == 'dtor':
            if any(invalid(st, v) is True for v in known):
                ok, msg = n == 0, 'closes an invalid handle'
            else:
                ok, msg = n == 1, 'the handle is closed %d times on destruction' % n
            L.ob('released', name + ': handle', ok or (None if opaque(st, evs) else False), f.p, msg)
        for s in secs:
            if s[4] is None or lroot(s[3]) != SELF:
                continue
            a, b = at(I, s[4], loc), at(I, s[5], loc)
            if a == b:
                continue
            L.ob('closes', name + ': only ever invalidated', True if invalid(s[5], b) is True else
                 (None if lossy(b) else False), s[1], 'the handle of the connection is replaced by a possibly valid one')
            if invalid(st, a) is not True and closed.get(a, 0) == 0:
                L.ob('released', name + ': handle', None if opaque(st, evs) else False, s[1],
                     'the handle is marked invalid without having been closed')
        if f.q.split('::')[-1] == 'close' and kind == 'method':
            last = [s for s in secs if lroot(s[3]) == SELF]
            fin = at(I, last[-1][5] if last else st, loc)
            iv = invalid(st, fin)
            L.ob('closes', name + ': leaves it invalid', True if iv is True else
                 (None if lossy(fin) else False), f.p, 'returns with the handle still valid')
        if f.q.split('::')[-1] == 'isOpen' and kind == 'method':
            for s2, b in forks(I, st, ret):
                if b:
                    ok = any(invalid(s2, v) is False for v in known) and not any(invalid(s2, v) is True for v in known)
                    L.ob('open', name, ok or (None if opaque(st, evs) else False), f.p,
                         'reports open without having seen a valid handle')
    for p in sorted(ipaths):
        loc = under(SELF, p)
        if kind == 'dtor':
            v = [x for x in freed if isinstance(x, tuple) and x[0] == 'v' and x[1] == loc]
            nul = st.facts.decide(T.eq(('v', loc, 0, 'p'), 0))
            n = sum(freed[x] for x in v)
            if nul is True:
                ok = n == 0
            else:
                ok = n == 1
            L.ob('released', name + ': address list', ok or (None if opaque(st, evs) else False), f.p,
                 'the address list is freed %d times on destruction' % n)
        else:
            for x in freed:
                if isinstance(x, tuple) and x[0] == 'v' and x[1] == loc:
                    L.ob('released', name + ': address list', isnull(st, at(I, st, loc, 'void *')) is True, f.p,
                         'frees the address list while the connection still refers to it')


# -- C19 ------------------------------------------------------------------------

def io_hooks(I):
    hooks(I)
    I.peel, I.peel_all = 2, True


def offset(ptr, buf):
    """ptr - buf, or None."""
    if ptr == buf:
        return 0
    if T.is_ptr(ptr):
        l = ptr[1]
        b, i = (l[1], l[2]) if l[0] == 'e' else (l, 0)
        return i if b == ('d', buf) else None
    if T.opaque_value(ptr) and not (isinstance(ptr, tuple) and ptr[0] == 'sym'):
        return None
    return T.sub(ptr, buf)


def sent(st):
    g = st.store.get(('wl', X.GHOST))
    if g is None:
        return 0
    return None if g[0] == 'mess' else T.seqlen(g[1])


def widened(*xs):
    return any(has_term(x, lambda y: isinstance(y, tuple) and len(y) == 4 and y[0] == 'sym' and y[1] in ('h', 'w', 'idx', 'wl', 'K'))
               for x in xs)


def judge(st, t, *terms):
    """Does t hold on every run of this path? Exact terms that leave it open break it."""
    d = st.facts.decide(t)
    if d is None and not widened(*terms) and prims.assumable(st, t, False):
        return False
    return d


def last_call(evs, qs):
    for e in reversed(evs):
        if e[0] == 'syspost' and e[3] in qs:
            return e
    return None


def errno_after(I, e):
    return at(I, e[6], M.ERRNO)


def since_head(st):
    out = []
    for e in conc.trace_list(st.trace):
        if e[0] == 'lhead':
            break
        out.append(e)
    return list(reversed(out))


def C19(L):
    L.rule('send-order', 'every send starts at the first byte of the buffer that the system has not taken yet and ends '
                         'within the buffer')
    L.rule('send-all', 'a write reports success only when the system has taken exactly all bytes')
    L.rule('send-fail', 'a write reports failure only for an invalid handle or a send that failed other than by '
                        'interruption, and tries again only when progress was made or the call was interrupted')
    L.rule('no-signal', 'every send asks not to raise a signal when the peer is gone')
    L.rule('recv-buffer', "every receive stores into the start of the caller's buffer and asks for no more than it holds")
    L.rule('recv-count', 'a read returns the number of bytes received, or 0')
    L.rule('recv-retry', 'a read tries again exactly when the receive was interrupted, and gives up without a receive '
                         'only for an invalid handle or an empty buffer')
    P = program()
    K, locs, infos = owner_class(P, runs_of(L, P))
    if K is None:
        L.ob('recv-count', 'handle owner', None, None, 'no class was found that keeps the handles')
        return
    hl = [under(SELF, p) for p in locs]
    f = virtual(P, K, WRITE)
    r = do(L, P, f, K, io_hooks) if f else None
    if r is None:
        L.ob('send-all', 'write', None, f.p if f else None, 'not analysed')
    else:
        sock_write(L, f, r, hl)
    f = virtual(P, K, READ)
    r = do(L, P, f, K, io_hooks) if f else None
    if r is None:
        L.ob('recv-count', 'read', None, f.p if f else None, 'not analysed')
    else:
        sock_read(L, f, r, hl)


SENDS = ('send', 'write', 'sendto')
RECVS = ('recv', 'read')


def par(f, i):
    return ('v', ('o', f.params[i]['n']), 0, X.sort_of(f.params[i]['t']))


def no_handle(st, hl):
    return any(invalid(st, v) is True for l in hl for v in versions(st.facts, l))


def versions_known(st, hl):
    vs = [v for l in hl for v in versions(st.facts, l)]
    return bool(vs) and all(invalid(st, v) is False for v in vs)


def sock_write(L, f, r, hl):
    I = r.I
    buf, n = par(f, 0), par(f, 1)
    for st, ret in r.rs:
        evs = list(flat(st.events()))
        if opaque(st, evs) or any(e[0] == 'sys' and e[3] in ('sendmsg', 'writev') for e in evs):
            L.ob('send-all', 'write', None, f.p, 'a call is not modelled')
            continue
        for e in evs:
            if e[0] != 'syspre' or e[3] not in SENDS:
                continue
            pre, args = e[6], e[4]
            g = sent(pre)
            o = offset(args[1], buf)
            if g is None or o is None:
                L.ob('send-order', 'first byte', None, e[1], 'the position is not followed')
            else:
                L.ob('send-order', 'first byte', judge(pre, T.eq(o, g), o, g), e[1],
                     'sends from offset %s when %s bytes have been taken' % (show(o), show(g)))
                L.ob('send-order', 'length', judge(pre, T.le(T.add(args[2], g), n), args[2], g), e[1],
                     'sends %s bytes when only %s are left' % (show(args[2]), show(T.sub(n, g))))
            if e[3] == 'write':
                L.ob('no-signal', 'flags', None if any(x[0] == 'sys' and x[3] == 'signal' for x in evs) else False, e[1],
                     'write() on a socket raises SIGPIPE when the peer is gone')
            elif isinstance(args[3], int):
                L.ob('no-signal', 'flags', bool(args[3] & MSG_NOSIGNAL), e[1], 'the send is made without MSG_NOSIGNAL: a '
                     'disconnected peer kills the process')
            else:
                L.ob('no-signal', 'flags', None, e[1])
        for e in evs:
            if e[0] == 'lback':
                c = last_call(since_head(e[4]), SENDS)
                if c is None:
                    continue
                for s2, neg in I.fork(e[4].copy(), T.lt(c[5], 0)):
                    if neg:
                        d = s2.facts.decide(T.eq(errno_after(I, c), EINTR))
                        L.ob('send-fail', 'tries again', d is True, e[1], 'repeats a send that failed for another reason '
                             'than an interruption')
        for s2, ok in forks(I, st, ret):
            g = sent(s2)
            if ok:
                L.ob('send-all', 'success', None if g is None else judge(s2, T.eq(g, n), g, n), f.p,
                     'reports success when the system has taken %s of %s bytes' % (show(g), show(n)))
                continue
            c = last_call(evs, SENDS)
            if c is None:
                L.ob('send-fail', 'failure', no_handle(s2, hl) or None, f.p)
                continue
            for s3, neg in I.fork(s2.copy(), T.lt(c[5], 0)):
                if neg:
                    d = s3.facts.decide(T.eq(errno_after(I, c), EINTR))
                    L.ob('send-fail', 'failure', d is False, c[1], 'reports failure although the send was only interrupted'
                         if d is True else 'reports failure without checking whether the send was only interrupted')
                else:
                    d = s3.facts.decide(T.le(1, c[5]))
                    L.ob('send-fail', 'failure', d is False, c[1], 'reports failure after a send that took only part of the bytes')


def sock_read(L, f, r, hl):
    I = r.I
    buf, n = par(f, 0), par(f, 1)
    for st, ret in r.rs:
        evs = list(flat(st.events()))
        if opaque(st, evs):
            L.ob('recv-count', 'read', None, f.p, 'a call is not modelled')
            continue
        moving = False
        for e in evs:
            if e[0] != 'syspre' or e[3] not in RECVS:
                continue
            pre, args = e[6], e[4]
            o = offset(args[1], buf)
            if o is None or widened(o, args[2]):
                moving = True
            if o is None:
                L.ob('recv-buffer', 'start', None, e[1])
            else:
                L.ob('recv-buffer', 'start', None if moving else judge(pre, T.eq(o, 0), o), e[1], 'receives at offset %s' % show(o))
                L.ob('recv-buffer', 'length', judge(pre, T.le(T.add(o, args[2]), n), o, args[2]), e[1],
                     'asks for %s bytes with room for %s' % (show(args[2]), show(n)))
            if len(args) > 3:
                L.ob('recv-buffer', 'flags', (args[3] & 0x2063) == 0 if isinstance(args[3], int) else None, e[1],
                     'the bytes received are not the next ones of the stream (flags %s)' % show(args[3]))
        for e in evs:
            if e[0] == 'lback':
                c = last_call(since_head(e[4]), RECVS)
                if c is None:
                    continue
                ok = e[4].facts.decide(T.lt(c[5], 0)) is True and e[4].facts.decide(T.eq(errno_after(I, c), EINTR)) is True
                L.ob('recv-retry', 'tries again', ok or (None if moving else False), e[1],
                     'receives again although the last receive was not interrupted')
        c = last_call(evs, RECVS)
        v = I.rv(st.copy(), ret, 'unsigned long')
        if c is None:
            L.ob('recv-count', 'no receive', judge(st, T.eq(v, 0), v), f.p, 'returns %s without having received' % show(v))
            if no_handle(st, hl) or st.facts.decide(T.eq(n, 0)) is True:
                ok = True
            elif versions_known(st, hl) and prims.assumable(st, T.eq(n, 0), False):
                ok = False
            else:
                ok = None
            L.ob('recv-retry', 'no receive', ok, f.p,
                 'returns without receiving although the handle is valid')
            continue
        for s2, pos in I.fork(st.copy(), T.le(1, c[5])):
            if pos:
                L.ob('recv-count', 'received', None if moving else judge(s2, T.eq(v, c[5]), v), c[1],
                     'returns %s when %s bytes were received' % (show(v), show(c[5])))
                continue
            L.ob('recv-count', 'end or error', None if moving else judge(s2, T.eq(v, 0), v), c[1],
                 'returns %s although nothing was received' % show(v))
            for s3, neg in I.fork(s2.copy(), T.lt(c[5], 0)):
                if neg:
                    d = s3.facts.decide(T.eq(errno_after(I, c), EINTR))
                    L.ob('recv-retry', 'gives up', d is False, c[1], 'reports the end of the stream although the receive was '
                         'only interrupted')


# -- C20 ------------------------------------------------------------------------

class Cannot(Exception):
    pass


def ev(t, env):
    """The value of an arithmetic term when its atoms have the given values."""
    if isinstance(t, bool):
        return int(t)
    if isinstance(t, int):
        return t
    if not isinstance(t, tuple):
        raise Cannot()
    if t in env:
        return env[t]
    k = t[0]
    if k == '+':
        return t[1] + sum(c * ev(a, env) for a, c in t[2])
    if k == 'app' and len(t) == 4:
        a, b = ev(t[2], env), ev(t[3], env)
        op = t[1]
        if op in ('/', '%'):
            if b == 0:
                raise Cannot()
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if op == '/' else a - q * b
        if op == '*':
            return a * b
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
        if op == '<<':
            return a << b
        if op == '>>':
            return a >> b
    raise Cannot()


def unknown_atoms(t, known):
    try:
        ev(t, known)
        return False
    except Cannot:
        return True


def is_par(st, x, p):
    """Is x the value of parameter p?"""
    d = same(st, x, p)
    if d is None and not lossy(x) and not has_term(x, lambda y: y == p):
        return False
    return d


def mode_of(arg, gets):
    """Does F_SETFL with this argument set (True) or clear (False) O_NONBLOCK?"""
    out = set()
    for g in (0, 2, O_NONBLOCK, O_NONBLOCK | 2):
        try:
            out.add(bool(ev(arg, {x: g for x in gets}) & O_NONBLOCK))
        except Cannot:
            return None
    return out.pop() if len(out) == 1 else 'kept'


TIMES = (1, 2, 9, 10, 99, 500, 999, 1000, 1001, 1500, 59999, 60000, 65535, 65536, 123456, 999999, 1000000, 1000001,
         2147483, 2147484, 4294967, 4294968, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1)


def C20(L):
    L.rule('established', 'a connection is returned only if connect() succeeded, or the wait reported the socket ready and '
                          'the first pending-error query after it reported none')
    L.rule('blocking', 'a returned connection was put back into blocking mode, successfully')
    L.rule('bounded', 'with a timeout, connect() is called in non-blocking mode and the wait is given exactly the timeout')
    L.rule('wait-arguments', 'the wait covers the handle, for writing, and only handles that fit in the set')
    L.rule('address', 'the connection is made to the address and port given')
    L.rule('nothing-kept', 'a path that returns no connection has closed the handle it opened; one that returns a '
                           'connection returns the one that was connected, still open')
    P = program()
    for q in ('dap::net::connect', 'dap::Socket::connect'):
        fs = [f for f in P.fns.values() if f.q == q and f.body is not None and len(f.params) == 3]
        r = do(L, P, fs[0]) if len(fs) == 1 else None
        name = q.replace('dap::', '')
        if r is None:
            L.ob('established', name, None, None, 'not analysed')
            continue
        for st, ret in r.rs:
            connect_path(L, name, fs[0], r, st, ret, q == 'dap::net::connect')


def connect_path(L, name, f, r, st, ret, net):
    I = r.I
    evs = list(flat(st.events()))
    tmo = par(f, 2)
    v = I.rv(st.copy(), ret, 'std::shared_ptr<x>')
    odd = opaque(st, evs) or any(e[0] == 'sys' and e[3] in ('ioctl', 'dup') for e in evs) \
        or (v != 0 and not T.is_ptr(v))
    calls = [e for e in evs if e[0] == 'syspost']
    pres = {id(e[5]) if False else (e[3], e[5]): e for e in evs if e[0] == 'syspre'}
    gets = [e[5] for e in calls if e[3] == 'fcntl' and e[4][1] == F_GETFL]
    mode, modeok, moded = False, True, False         # non-blocking?, did the change succeed
    for e in calls:
        if e[3] == 'socket' and has_term(e[4], lambda x: x == ('app', '|') or (isinstance(x, int) and x & O_NONBLOCK)):
            mode = None
        if e[3] == 'fcntl' and e[4][1] == F_SETFL:
            m = mode_of(e[4][2], gets)
            mode = mode if m == 'kept' else m
            # what is known by the next call, or at the end
            modeok = st.facts.decide(T.le(0, e[5])) is True
            moded = True
        if e[3] == 'connect':
            tz = e[6].facts.decide(T.eq(tmo, 0))
            if tz is not True:
                ok = mode is True and modeok
                if mode is None or odd:
                    ok = ok or None
                L.ob('bounded', name + ': connect', ok, e[1], 'connect() is called %s although a timeout was given' %
                     ('in blocking mode' if mode is False else 'without knowing that blocking mode was left'))
    waits = [e for e in calls if e[3] in ('select', 'poll')]
    for e in waits:
        pre = pres.get((e[3], e[5]))
        wait_rule(L, name, I, e, pre, tmo, odd or len(waits) > 1)
    # where it connects to
    for e in calls:
        if e[3] == 'connect':
            a = e[4][1]
            src = [x for x in subterms(a) if len(x) == 4 and x[0] == 'sym' and x[1] == 'info']
            L.ob('address', name + ': resolved', True if src and has_term(a, lambda x: x == 'ai_addr') else (None if odd or lossy(a)
                 else False), e[1], 'connects to something else than the resolved address')
    for e in evs:
        if e[0] == 'syspre' and e[3] == 'getaddrinfo':
            L.ob('address', name + ': host', is_par(e[6], e[4][0], par(f, 0)), e[1], 'resolves another address than the one given')
            if net:
                c = M.cstring(I, e[6], e[4][1])
                want = ('app', 'dec', par(f, 1))
                L.ob('address', name + ': port', True if c == want else (None if lossy(c) else False), e[1],
                     'resolves another port than the one given')
            else:
                L.ob('address', name + ': port', is_par(e[6], e[4][1], par(f, 1)), e[1], 'resolves another port than the one given')
    fds = [e[5] for e in calls if e[3] == 'socket']
    closes = [e[4][0] for e in calls if e[3] == 'close']
    if v == 0 or isnull(st, v) is True:
        for d in fds:
            if invalid(st, d) is False:
                L.ob('nothing-kept', name + ': failure', closes.count(d) == 1 or (None if odd else False), f.p,
                     'returns nothing but leaves the handle open')
        return
    # a connection is returned
    done = [e for e in calls if e[3] == 'connect' and st.facts.decide(T.eq(e[5], 0)) is True]
    if done:
        L.ob('established', name, True)
    elif not any(e[3] == 'connect' for e in calls):
        L.ob('established', name, None if odd else False, f.p, 'returns a connection without having connected')
    elif not waits:
        L.ob('established', name, None if odd else False, f.p, 'returns a connection although connect() may have failed')
    else:
        w = waits[-1]
        ready = st.facts.decide(T.le(1, w[5])) is True
        after = [e for e in calls[calls.index(w) + 1:] if e[3] == 'getsockopt' and e[4][2] == SO_ERROR]
        if not ready:
            ok, why = False, 'returns a connection although the wait may have timed out or failed'
        elif not after:
            ok, why = False, 'returns a connection without asking for the pending error'
        else:
            e = after[0]
            p = e[4][3]
            val = at(I, e[6], p[1], 'int') if T.is_ptr(p) else None
            alt = at(I, e[6], p[1], 'char') if T.is_ptr(p) else None
            oks = [st.facts.decide(T.eq(x, 0)) is True for x in (val, alt) if x is not None]
            ok, why = any(oks), 'returns a connection although the pending error may be set'
            if not ok and (not oks or st.facts.decide(T.eq(e[5], 0)) is False):
                ok = None            # the query itself failed
        L.ob('established', name, ok or (None if odd else ok), w[1], why)
    if mode is not False or moded:
        L.ob('blocking', name, True if mode is False and (modeok or not moded) else (None if odd or mode is None else False),
             f.p, 'returns a connection %s' % ('in non-blocking mode' if mode is True else 'without knowing that it is blocking again'))
    else:
        L.ob('blocking', name, True)
    obj = v[1] if T.is_ptr(v) else None
    kept = [d for d in fds if obj in holders(st, d, freed_objects(evs))]
    conn = [e[4][0] for e in calls if e[3] == 'connect']
    L.ob('nothing-kept', name + ': success', (bool(kept) and all(d in conn and d not in closes for d in kept)) or
         (None if odd else False), f.p, 'the connection returned does not hold the connected handle')


def wait_rule(L, name, I, e, pre, tmo, odd):
    args = e[4]
    if e[3] == 'poll':
        L.ob('wait-arguments', name, None, e[1], 'poll() is not followed')
        t = args[2]
        parts = [(t, 1)]
    else:
        fd = [x[5] for x in flat(pre[6].events()) if x[0] == 'sys' and x[3] == 'socket'] if pre else []
        for d in fd:
            L.ob('wait-arguments', name + ': range', judge(pre[6], T.le(T.add(d, 1), args[0]), args[0]), e[1],
                 'the wait covers handles below %s only' % show(args[0]))
            L.ob('wait-arguments', name + ': fits', judge(pre[6], T.lt(d, FD_SETSIZE), d), e[1],
                 'a handle of %d or more is put in the set' % FD_SETSIZE)
        L.ob('wait-arguments', name + ': for writing', False if args[2] == 0 else True, e[1],
             'the wait is not for the socket to become writable')
        p = args[4]
        if p == 0:
            L.ob('bounded', name + ': wait', False, e[1], 'waits without a limit')
            return
        if not T.is_ptr(p) or pre is None:
            L.ob('bounded', name + ': wait', None, e[1])
            return
        sec, us = at(I, pre[6], ('f', p[1], 'tv_sec'), 'long'), at(I, pre[6], ('f', p[1], 'tv_usec'), 'long')
        parts = [(sec, 1000000), (us, 1)]
    bad = None
    try:
        for t in TIMES:
            vals = [ev(x, {tmo: t}) * c for x, c in parts]
            want = t if e[3] == 'poll' else t * 1000
            if sum(vals) != want or any(x < 0 for x in vals) or (e[3] == 'select' and vals[1] >= 1000000):
                bad = t
                break
    except Cannot:
        L.ob('bounded', name + ': wait', None, e[1], 'the limit is not followed')
        return
    L.ob('bounded', name + ': wait', bad is None, e[1], 'for a timeout of %s ms the wait is not limited to it' % bad)
    if odd:
        L.ob('bounded', name + ': one wait', None, e[1], 'more than one wait on a path')


# -- C21 ------------------------------------------------------------------------

def server_hooks(I):
    hooks(I)

    def accept(I, st, fr, e, fn, loc, ops):
        c = I.fresh('conn', 'p')
        s2 = st.copy()
        st.facts.assume(T.eq(c, 0), False)
        st.ev('sk', e['p'], 'accept', loc, c)
        s2.ev('sk', e['p'], 'accept', loc, 0)
        return [(st, c), (s2, 0)]

    def close(I, st, fr, e, fn, loc, ops):
        st.ev('sk', e['p'], 'close', loc, 0)
        return [(st, 0)]

    def isopen(I, st, fr, e, fn, loc, ops):
        c = I.fresh('open', 'b')
        st.ev('sk', e['p'], 'isOpen', loc, c)
        return [(st, c)]
    I.summ['dap::Socket::accept'] = accept
    I.summ['dap::Socket::close'] = close
    I.summ['dap::Socket::isOpen'] = isopen


def sock_of(loc):
    """The member (or new object) of the server through which a socket is used."""
    while isinstance(loc, tuple) and loc:
        if loc[0] == 'd':
            loc = loc[1]
        elif loc[0] == 'v':
            loc = loc[1]
        else:
            return loc
    return loc


def C21(L):
    from streams import made, made_class
    L.rule('serve', 'the accept thread hands every accepted connection to the connect handler exactly once and goes on')
    L.rule('accept-failed', 'after a failed accept the thread ends, and reports an error exactly if the server was not asked '
                            'to stop')
    L.rule('stop', 'stopping a running server closes the listening socket and then joins the accept thread, once; a '
                   'server that is not running is left alone')
    L.rule('restart', 'starting first stops the previous run, and a run is marked before its thread begins')
    L.rule('start', 'start returns true exactly when it started the thread on an open socket; otherwise it reports the '
                    'error once')
    L.rule('address', 'the socket listens on the address and port given, or on localhost')
    L.rule('thread-data', 'the accept thread uses no local variable of the call that started it')
    P = program()
    names = {f.q for f in P.fns.values()}
    if not {'dap::Socket::accept', 'dap::Socket::close', 'dap::Socket::isOpen'} <= names:
        L.ob('serve', 'socket', None, None, 'dap::Socket has another interface')
        return
    fac = made(L, P, 'dap::net::Server::create')
    K = made_class(P, fac[0][1]) if fac else None
    if K is None:
        L.ob('serve', 'server', None, None, 'the class of net::Server::create() is not known')
        return
    ms = {}
    for m in P.recs['dap::net::Server'].get('methods', ()):
        if m.get('n') in ('start', 'stop'):
            g = P.fns.get(P.overrider(K, m['key']))
            if g is not None and g.body is not None:
                ms[(m['n'], len(g.params))] = g
    dts = [f for f in P.fns.values() if f.rec == K and f.kind == 'dtor' and f.body is not None]
    runs = {k: do(L, P, f, K, server_hooks) for k, f in ms.items()}
    for i, f in enumerate(dts):
        ms[('dtor', i)] = f
        runs[('dtor', i)] = do(L, P, f, K, server_hooks)
    for k, r in runs.items():
        if r is None:
            L.ob('stop', str(k), None, ms[k].p, 'not analysed')
    mark = run_mark(runs)
    first = made_state(fac[0][1], mark)
    if mark is not None:
        L.ob('stop', 'a new server is not running', True if first == mark[1] else (None if not isinstance(first, int) else False),
             fac[0][0].p, 'a new server counts as running')
    for k in sorted(runs):
        if runs[k] is not None and k[0] != 'start':
            for st, ret in runs[k].rs:
                stop_path(L, '%s' % ('destructor' if k[0] == 'dtor' else 'stop'), ms[k], runs[k], st, list(flat(st.events())), mark)
    if not dts and any(e[0] == 'thread' for r in runs.values() if r for st, _ in r.rs for e in flat(st.events())):
        L.ob('stop', 'destructor', False, P.recs[K]['p'], 'the server has no destructor that stops it')
    clos = {}
    for k in sorted(runs):
        if k[0] == 'start' and runs[k] is not None:
            start_paths(L, k, ms[k], runs[k], mark, clos)
    for key, (f, r, clo, pos, st) in sorted(clos.items()):
        thread_body(L, P, K, f, clo, pos, st, mark)


def run_mark(runs):
    """(location, value) of the member that says the server is not running."""
    cand = {}
    for k, r in runs.items():
        if r is None or k[0] != 'stop':
            continue
        for st, _ in r.rs:
            for e in flat(st.events()):
                if e[0] == 'axchg' and isinstance(e[4], int) and lroot(e[3]) == SELF:
                    cand[(e[3], e[4])] = cand.get((e[3], e[4]), 0) + 1
                if e[0] == 'acas' and isinstance(e[5], int) and lroot(e[3]) == SELF:
                    cand[(e[3], e[5])] = cand.get((e[3], e[5]), 0) + 1
    return max(cand, key=lambda c: cand[c]) if cand else None


def made_state(r, mark):
    if mark is None or r is None:
        return None
    for st, v in r.rs:
        v = r.I.rv(st, v, 'std::unique_ptr<x>')
        if T.is_ptr(v):
            return r.I.load(st.copy(), T.rebase(mark[0], SELF, v[1]), 'bool')
    return None


def was_running(st, evs, mark):
    """What the path knows about the previous run: True, False, or None."""
    for e in evs:
        if mark and e[0] == 'axchg' and e[3] == mark[0] and e[4] == mark[1]:
            d = st.facts.decide(T.eq(e[5], mark[1]))
            return None if d is None else not d
        if mark and e[0] == 'acas' and e[3] == mark[0] and e[5] == mark[1]:
            return st.facts.decide(e[6]) if not isinstance(e[6], int) else bool(e[6])
        if e[0] == 'join':
            return True
    for k, b in st.facts.truth.items():
        if k[:2] == ('app', 'joinable'):
            return b
    return None


def stop_path(L, name, f, r, st, evs, mark, upto=None):
    """The previous run has been ended by event index upto."""
    evs = evs if upto is None else evs[:upto]
    run_ = was_running(st, evs, mark)
    joins = [i for i, e in enumerate(evs) if e[0] == 'join' and lroot(e[3]) == SELF]
    cl = [i for i, e in enumerate(evs) if e[0] == 'sk' and e[3] == 'close']
    if any(e[0] == 'detach' for e in evs):
        L.ob('stop', name, False, f.p, 'the accept thread is detached')
        return None
    if run_ is False:
        L.ob('stop', name + ': not running', not joins, f.p, 'joins the thread of a server that is not running')
        return False
    if run_ is None:
        if mark is None or opaque(st, evs):
            L.ob('stop', name, None, f.p, 'whether the server runs is not followed')
        else:
            L.ob('stop', name + ': running', False, f.p, 'a running server is not stopped')
        return None
    pos = evs[joins[0]][1] if joins else f.p
    dead = any(k[:2] == ('app', 'joinable') and not b for k, b in st.facts.truth.items())
    L.ob('stop', name + ': joins', len(joins) == 1 or (None if dead or opaque(st, evs) else False), pos,
         'the accept thread of a running server is joined %d times' % len(joins))
    L.ob('stop', name + ': closes first', (bool(cl) and (not joins or cl[0] < joins[0])) or (None if opaque(st, evs) else False),
         pos, 'the accept thread is joined before the listening socket is closed')
    return True


def start_paths(L, k, f, r, mark, clos):
    name = 'start' if k[1] == 4 else 'start (no address)'
    I = r.I
    addr = k[1] - 4
    onerr = ('v', ('o', f.params[-1]['n']), 0, 'o')
    for st, ret in r.rs:
        evs = list(flat(st.events()))
        odd = opaque(st, evs)
        th = [i for i, e in enumerate(evs) if e[0] == 'thread']
        gai = [e for e in evs if e[0] == 'syspre' and e[3] == 'getaddrinfo']
        first = next((i for i, e in enumerate(evs) if e[0] == 'syspre' and e[3] == 'getaddrinfo'), len(evs))
        stop_path(L, name + ', previous run', f, r, st, evs, mark, first)
        L.ob('restart', name, not any(e[0] == 'join' for e in evs[first:]) or None, f.p)
        for e in gai:
            h = e[4][0]
            if k[1] == 4:
                ok = is_par(e[6], h, par(f, 0))
            else:
                c = M.cstring(I, e[6], h)
                ok = c in (b'localhost', b'127.0.0.1') if isinstance(c, bytes) else (False if h == 0 else None)
            L.ob('address', name + ': host', ok, e[1], 'listens on another address than the one given' if k[1] == 4 else
                 'listens on other interfaces than the local host')
            c = M.cstring(I, e[6], e[4][1])
            L.ob('address', name + ': port', True if c == ('app', 'dec', par(f, k[1] - 3)) else (None if lossy(c) else False), e[1],
                 'listens on another port than the one given')
        opens = [e for e in evs if e[0] == 'sk' and e[3] == 'isOpen']
        errs = [e for e in evs if e[0] == 'ucall' and e[3] == onerr]
        stores = [(i, e) for i, e in enumerate(evs) if mark and e[3:4] == (mark[0],) and e[0] in ('astore', 'axchg')]
        for s2, ok in forks(I, st, ret):
            seen = [s2.facts.decide(e[5]) if not isinstance(e[5], int) else bool(e[5]) for e in opens]
            if ok:
                L.ob('start', name + ': true', (len(th) == 1 and bool(seen) and seen[-1] is True and not errs) or (None if odd else False),
                     f.p, 'returns true %s' % ('without having started the accept thread' if not th else
                                               'after reporting an error' if errs else 'without having seen the socket open'))
                if th and mark:
                    before = [e for i, e in stores if i < th[0]]
                    last = before[-1] if before else None
                    fin = [e for i, e in stores]
                    if fin:
                        good = isinstance(fin[-1][4], int) and fin[-1][4] != mark[1]
                        L.ob('restart', name + ': marked', (good and last is fin[-1]) or (None if not isinstance(fin[-1][4], int) else False),
                             f.p, 'the thread begins before the server is marked as running' if good else
                             'a started server is not marked as running')
                    else:
                        L.ob('restart', name + ': marked', None, f.p)
            else:
                L.ob('start', name + ': false', (not th and len(errs) == 1) or (None if odd else False), f.p,
                     'returns false after starting the accept thread' if th else 'reports %d errors for a failed start' % len(errs))
                if mark and stores:
                    e = stores[-1][1]
                    L.ob('start', name + ': false, not running', e[4] == mark[1] if isinstance(e[4], int) else None, f.p,
                         'a failed start leaves the server marked as running')
        for i in th:
            e = evs[i]
            tset = [x for x in evs[i:] if x[0] == 'thrset' and x[4] == e[4] and lroot(x[3]) == SELF]
            L.ob('stop', name + ': thread kept', bool(tset) or (None if odd else False), e[1],
                 'the accept thread is not kept where stop can join it')
            c = e[3]
            if isinstance(c, tuple) and c and c[0] == 'clo':
                clos[(c[1], name)] = (f, r, c, e[1], st)
                for cap in c[3]:
                    local = isinstance(cap, tuple) and len(cap) == 3 and cap[1] == 'ref' and isinstance(cap[2], tuple) and \
                        (T.root(cap[2])[0] in ('v', 't') or T.root(cap[2])[0] == 'o' and T.root(cap[2]) != SELF)
                    L.ob('thread-data', '%s: captures' % name, not local, e[1],
                         'the accept thread refers to a variable of start, which has returned by then')
            else:
                L.ob('serve', name, None, e[1], 'the thread function is not followed')


def thread_body(L, P, K, f, clo, pos, st0, mark):
    I = new_interp(P, server_hooks)
    I.uid = 10 ** 6
    I.exact[SELF] = K
    try:
        rs = I.call_closure(X.St(), clo, [], pos)
    except X.Undecided as x:
        L.ob('serve', 'thread', None, pos, str(x))
        return
    L.ran(I, rs)
    conn_h = ('v', ('o', f.params[-2]['n']), 0, 'o')
    err_h = ('v', ('o', f.params[-1]['n']), 0, 'o')

    def stopped(st, evs):
        """The last value of the mark the thread saw: True = asked to stop."""
        for e in reversed(evs):
            if e[0] == 'aload' and mark and e[3] == mark[0]:
                d = st.facts.decide(T.eq(e[4], mark[1]))
                return d
        return None

    def deliveries(evs, c):
        return [e for e in evs if e[0] == 'ucall' and e[3] == conn_h and has_term(e[4], lambda x: x == c)]

    backs = [e for st, _ in rs for e in flat(st.events()) if e[0] == 'lback']
    for e in backs:
        evs = since_head(e[4])
        acc = [x for x in evs if x[0] == 'sk' and x[3] == 'accept']
        hs = [x for x in evs if x[0] == 'ucall' and x[3] == conn_h]
        if opaque(e[4], evs):
            L.ob('serve', 'each connection', None, e[1])
            continue
        for a in acc:
            if a[5] == 0:
                L.ob('accept-failed', 'ends', None if len(acc) > 1 else False, a[1], 'the thread goes on after a failed accept')
            else:
                n = len(deliveries(evs, a[5]))
                L.ob('serve', 'each connection', n == 1, a[1], 'an accepted connection is handed to the handler %d times' % n)
        extra = [h for h in hs if not any(a[5] != 0 and has_term(h[4], lambda x: x == a[5]) for a in acc)]
        if extra:
            L.ob('serve', 'only connections', None if lossy(extra[0][4]) else False, extra[0][1],
                 'the handler is called without a connection')
    if not backs:
        one = [1 for st, _ in rs for e in flat(st.events()) if e[0] == 'sk' and e[3] == 'accept']
        L.ob('serve', 'goes on', False if one and not any(opaque(st, list(flat(st.events()))) for st, _ in rs) else None, pos,
             'the thread accepts at most once')
    for st, _ in rs:
        evs = st.events()
        if opaque(st, list(flat(evs))):
            L.ob('accept-failed', 'thread', None, pos)
            continue
        # the last, leaving iteration
        i = max([j for j, e in enumerate(evs) if e[0] == 'loop'] or [-1])
        tail = list(evs[i + 1:])
        if i < 0:
            tail = list(flat(evs))
        acc = [x for x in tail if x[0] == 'sk' and x[3] == 'accept']
        errs = [x for x in tail if x[0] == 'ucall' and x[3] == err_h]
        for a in acc[:-1] if acc and acc[-1][5] == 0 else acc:
            if a[5] != 0:
                n = len(deliveries(tail, a[5]))
                L.ob('serve', 'each connection', n == 1, a[1], 'an accepted connection is handed to the handler %d times' % n)
        if acc and acc[-1][5] != 0:
            L.ob('serve', 'goes on', stopped(st, tail) is True, acc[-1][1],
                 'the thread ends after a successful accept although the server was not asked to stop')
        if acc and acc[-1][5] == 0:
            after = tail[tail.index(acc[-1]):]
            s = stopped(st, after)
            if s is True:
                ok, why = not errs, 'reports an error although the server was asked to stop'
            elif s is False:
                ok, why = len(errs) == 1, 'reports a failed accept %d times' % len(errs)
            else:
                ok, why = False, 'does not ask, after a failed accept, whether the server was asked to stop'
                if not errs and stopped(st, tail) is not None:
                    ok = None
            L.ob('accept-failed', 'reported', ok, acc[-1][1], why)
            L.ob('accept-failed', 'ends', True)
    # the socket accepted from is the one stop closes
    socks = {sock_of(x[4]) for st, _ in rs for x in flat(st.events()) if x[0] == 'sk' and x[3] == 'accept'}
    L.ob('serve', 'listening socket', True if socks and all(lroot(s) == SELF for s in socks if isinstance(s, tuple)) else None, pos)
