"""Concurrency rules over every public entry point: lock discipline (C12),
data races (C11), wake-ups (C13)."""
import session as S
from common import *


def rw_summaries(I):
    """Treat dap::RWMutex as a lock primitive (its own code is checked by C16)."""
    def prim(acq, mode):
        def h(I, st, fr, e, fn, loc, ops):
            (M.acquire if acq else M.release)(I, st, loc, e['p'], mode)
            return [(st, 0)]
        return h
    I.summ['dap::RWMutex::lockReader'] = prim(True, 'r')
    I.summ['dap::RWMutex::unlockReader'] = prim(False, 'r')
    I.summ['dap::RWMutex::lockWriter'] = prim(True, 'x')
    I.summ['dap::RWMutex::unlockWriter'] = prim(False, 'x')


class Entry(object):
    def __init__(self, name, kind, cls, I, paths, fn=None, pos=None):
        self.name, self.kind, self.cls, self.I, self.fn, self.pos = name, kind, cls, I, fn, pos
        self.paths = paths            # [(state, events)]
        self.accs = []


LIFE = ('ctor', 'dtor')


def referenced(P):
    """Functions that some analysed function calls."""
    out = set()
    for f in P.fns.values():
        todo = [f.body, f.inits]
        while todo:
            o = todo.pop()
            if isinstance(o, list):
                todo.extend(o)
            elif isinstance(o, dict):
                fn = o.get('fn')
                if isinstance(fn, dict) and 'key' in fn:
                    out.add(fn['key'])
                todo.extend(v for v in o.values() if isinstance(v, (dict, list)))
    return out


class Cat(object):
    """All entry points: public functions of the library, the bodies of the
    threads it starts, and the callbacks it hands out."""

    def __init__(self, L, rw=True, session=True):
        self.L, self.rw = L, rw
        self.entries = []
        self.lib()
        if session:
            self.session()

    def setup(self, I):
        contracts.install(I)
        I.log = True
        if self.rw:
            rw_summaries(I)

    # -- the library outside the session ------------------------------------------
    def lib(self):
        P = self.P = ir.extract(ir.src('io.cpp', 'socket.cpp', 'network.cpp', 'typeof.cpp')
                                + [os.path.join(VERIF, 'witness', 'conc.cpp')])
        self.refs = referenced(P)
        for f in sorted(P.fns.values(), key=lambda f: f.key):
            if not self.eligible(P, f):
                continue
            r = run(self.L, P, f, f.rec, self.setup)
            if r is None:
                self.L.note('%s: not analysed' % f.q)
                continue
            kind = 'ctor' if f.kind == 'ctor' else 'dtor' if f.kind == 'dtor' else 'method' if f.rec else 'function'
            en = Entry(f.q, kind, f.rec, r.I, [(s, s.events()) for s, _ in r.rs], f, f.p)
            en.accs = list(r.I.accs)
            self.entries.append(en)
            self.threads(P, en)

    def eligible(self, P, f):
        if f.impl or not f.body:
            return False
        if f.rec:
            rec = P.recs.get(f.rec)
            if rec is None or rec.get('lambda'):
                return False
            if f.acc not in (0, None) and not f.virt and (f.key in self.refs or f.kind in LIFE):
                return False
            if rec['p'] and rec['p'][0].endswith('.cpp') and '/witness/' not in rec['p'][0] and not f.virt and f.key in self.refs:
                return False              # a helper of a class no other file can name
            if f.cm in ('copy', 'move') and f.defaulted:
                return False
        elif f.internal or f.q.startswith('witness::'):
            return False
        if any('(lambda' in p['t'] or 'anonymous class' in p['t'] or '(unnamed class' in p['t'] for p in f.params):
            return False
        return True

    def threads(self, P, en):
        seen = set()
        for st, evs in en.paths:
            for e in flat(evs):
                if e[0] == 'thread' and isinstance(e[3], tuple) and e[3] and e[3][0] == 'clo' and e[3][1] not in seen:
                    seen.add(e[3][1])
                    I = new_interp(P, self.setup)
                    I.uid = 10 ** 6
                    I.exact[SELF] = en.cls
                    try:
                        rs = I.call_closure(X.St(), e[3], [], e[1])
                    except X.Undecided as x:
                        self.L.note('thread started at %s: %s' % (posn(e[1]), x))
                        continue
                    self.L.ran(I, rs)
                    t = Entry('thread started by ' + en.name, 'thread', en.cls, I,
                              [(s, s.events()) for s, _ in rs], None, e[1])
                    t.accs = list(I.accs)
                    self.entries.append(t)

    # -- the session ------------------------------------------------------------
    def session(self):
        L = self.L
        base = self

        class SM(S.Model):
            def setup(self, I):
                S.Model.setup(self, I)
                I.log = True
                if base.rw:
                    rw_summaries(I)
        m = self.m = SM(L)
        P = m.P
        for f in sorted(P.fns.values(), key=lambda f: f.key):
            if f.rec != m.cls or f.impl or not f.body:
                continue
            if not (f.virt or f.kind in LIFE):
                continue
            if f.key in m.cache:
                r = m.cache[f.key]
            elif f.n == 'getPayload':
                continue
            else:
                r = run(L, P, f, m.cls, m.setup)
                m.cache[f.key] = r
            if r is None:
                continue
            kind = f.kind if f.kind in LIFE else 'method'
            en = Entry(f.q, kind, m.cls, r.I, [(s, s.events()) for s, _ in r.rs], f, f.p)
            en.accs = list(r.I.accs)
            self.entries.append(en)
        ps = m.recv_paths()
        if ps:
            f = m.method('getPayload')
            n0 = len(ps[0].I.accs)
            en = Entry(f.q, 'method', m.cls, ps[0].I, [(p.st, p.evs) for p in ps], f, f.p)
            en.accs = list(ps[0].I.accs)
            self.entries.append(en)
            cbs = m.callbacks()
            cb = Entry('response callbacks', 'callback', m.cls, ps[0].I, [(s, evs) for _, _, s, evs, _ in cbs], None, f.p)
            cb.accs = list(ps[0].I.accs)[n0:]
            self.entries.append(cb)
        for clo, I, rs, pos in S.thread_paths(m):
            if rs is None:
                continue
            t = Entry('thread at %s' % posn(pos), 'thread', m.cls, I, [(s, s.events()) for s, _ in rs], None, pos)
            t.accs = list(I.accs)
            self.entries.append(t)


def lockname(I, st, mloc):
    """(class, member) of a lock, or the lock itself for globals and locals."""
    if mloc is None:
        return None
    if mloc[0] == 'f':
        own = mloc[1]
        t = M.type_of_loc(I, st, own)
        if t is None and own[0] == 'f':
            # a member of unknown type: name it by its place
            base = lockname(I, st, own)
            return (base, mloc[2]) if base else None
        return (X.cls_of(t) if t else ('?', show(own)), mloc[2])
    if mloc[0] == 'g':
        return ('::', mloc[1])
    return None


def lname(n):
    if isinstance(n, tuple) and len(n) == 2:
        return '%s.%s' % (lname(n[0]), n[1]) if isinstance(n[0], tuple) else '%s::%s' % (n[0].split('::')[-1] if isinstance(n[0], str) else n[0], n[1])
    return str(n)


def wrappers(cat):
    """Classes that are locks or scoped locks themselves."""
    out = set()
    hold, give = {}, {}
    for en in cat.entries:
        if not en.cls or not en.paths:
            continue
        if en.kind == 'ctor' and en.fn and not en.fn.cm in ('copy', 'move') and all(s.locks for s, _ in en.paths):
            out.add(en.cls)
        if en.kind == 'method':
            if all(s.locks for s, _ in en.paths):
                hold.setdefault(en.cls, set()).update(l[0] for s, _ in en.paths for l in s.locks)
            if all(any(e[0] == 'badrel' for e in evs) for _, evs in en.paths):
                give.setdefault(en.cls, set()).update(e[3] for _, evs in en.paths for e in evs if e[0] == 'badrel')
    for c in hold:
        if hold[c] & give.get(c, set()):
            out.add(c)
    return out


def local_fn(f):
    return isinstance(f, tuple) and f and f[0] == 'clo'


def C12(L):
    L.rule('balance', 'every path of every entry point, thread body and callback releases each lock it took, once')
    L.rule('relock', 'no path takes a lock it already holds (shared locks may be nested only in shared mode)')
    L.rule('order', 'the graph of (lock held -> lock taken) over all entry points has no cycle')
    L.rule('callback', 'no caller-supplied function is invoked while a lock is held')
    L.rule('blocking', 'no thread is joined, no condition awaited and no stream read while holding a lock that the '
                       'awaited party needs')
    cat = Cat(L)
    wrap = wrappers(cat)
    edges = {}
    taken = {}                  # entry -> set of lock names
    for en in cat.entries:
        ns = taken.setdefault(id(en), set())
        for st, evs in en.paths:
            for e in flat(evs):
                if e[0] == 'acq':
                    ns.add(lockname(en.I, st, e[3]))
    # what other threads do under each lock
    writers = set()             # locks taken by entries that write to a stream
    for en in cat.entries:
        for st, evs in en.paths:
            if any(e[0] == 'icall' and e[3] == 'dap::Writer::write' for e in flat(evs)):
                writers |= taken[id(en)]
    notifiers = {}              # cv name -> locks that the notifying entry takes
    for en in cat.entries:
        for st, evs in en.paths:
            for e in flat(evs):
                if e[0] == 'notify':
                    notifiers.setdefault(lockname(en.I, st, e[3]), set()).update(
                        lockname(en.I, st, x[3]) for x in flat(evs) if x[0] == 'acq')
    thr = {}                    # class -> locks its threads (and the handlers they run) may take
    for en in cat.entries:
        if en.kind == 'thread':
            s = thr.setdefault(en.cls, set())
            s |= taken[id(en)]
            if any(e[0] == 'ucall' for st, evs in en.paths for e in flat(evs)):
                for o in cat.entries:
                    if o.cls == en.cls and o.kind in ('method', 'callback') and not any(
                            e[0] == 'join' for _, evs in o.paths for e in flat(evs)):
                        s |= taken[id(o)]
    for en in cat.entries:
        iswrap = en.cls in wrap
        inst = en.name
        for st, evs in en.paths:
            if not iswrap:
                held = [l for l in st.locks]
                L.ob('balance', inst, not held, en.pos,
                     'a path returns with %s held' % ', '.join(lname(lockname(en.I, st, l[0])) for l in held))
            for e in flat(evs):
                if e[0] == 'badrel' and not iswrap:
                    L.ob('balance', inst, False, e[1], 'a lock is released that is not held here')
                elif e[0] == 'relock':
                    L.ob('relock', inst, False, e[1], 'the lock is already held')
                elif e[0] == 'acq':
                    same_l = [l for l in e[2] if l[0] == e[3]]
                    if same_l:
                        ok = e[4] == 'r' and all(l[1] == 'r' for l in same_l)
                        L.ob('relock', inst, ok, e[1], '%s is taken while already held' % lname(lockname(en.I, st, e[3])))
                    else:
                        L.ob('relock', inst, True, e[1])
                    b = lockname(en.I, st, e[3])
                    for l in e[2]:
                        a = lockname(en.I, st, l[0])
                        if a is None or b is None or a == b:
                            continue
                        if fresh_owner(st, e[3]):
                            continue
                        gates = {lockname(en.I, st, x[0]) for x in e[2] if x[1] == 'x'} - {a}
                        edges.setdefault((a, b), []).append((en.name, e[1], gates, l[1], e[4]))
                elif e[0] == 'ucall' and not local_fn(e[3]) and not iswrap:
                    L.ob('callback', '%s at %s' % (inst, posn(e[1])), not e[2], e[1],
                         'a caller-supplied function runs with %s held' % ', '.join(
                             lname(lockname(en.I, st, l[0])) for l in e[2]))
                elif e[0] == 'join':
                    need = thr.get(en.cls, set())
                    bad = [l for l in e[2] if lockname(en.I, st, l[0]) in need]
                    L.ob('blocking', '%s: join' % inst, not bad, e[1], 'joins a thread that may need %s, which is held' %
                         ', '.join(lname(lockname(en.I, st, l[0])) for l in bad))
                elif e[0] == 'wait':
                    need = notifiers.get(lockname(en.I, st, e[3]), set())
                    bad = [l for l in e[2] if l[0] != e[4] and lockname(en.I, st, l[0]) in need]
                    L.ob('blocking', '%s: wait' % inst, not bad, e[1], 'waits for a notification whose sender needs %s, '
                         'which is held' % ', '.join(lname(lockname(en.I, st, l[0])) for l in bad))
                elif (e[0] == 'icall' and e[3] == 'dap::Reader::read') or e[0] == 'cread':
                    bad = [l for l in e[2] if l[1] == 'x' and lockname(en.I, st, l[0]) in writers]
                    L.ob('blocking', '%s: read' % inst, not bad, e[1], 'reads from the stream with %s held, which '
                         'sending needs' % ', '.join(lname(lockname(en.I, st, l[0])) for l in bad))
    # cycles
    succ = {}
    for (a, b) in edges:
        succ.setdefault(a, set()).add(b)
    L.count('lock_order_edges', len(edges))
    for (a, b), where in sorted(edges.items(), key=str):
        path = reach(succ, b, a)
        inst = '%s -> %s' % (lname(a), lname(b))
        if path is None:
            L.ob('order', inst, True, where[0][1])
            continue
        gated = set.intersection(*[g for _, _, g, _, _ in where])
        back = edges.get((path[0], path[1])) if len(path) > 1 else None
        ways = [edges[(path[i], path[i + 1])] for i in range(len(path) - 1)]
        modes = [w[4] for w in where] + [w[4] for ws in ways for w in ws]
        if all(x == 'r' for x in modes):
            L.ob('order', inst, True, where[0][1])
            continue
        common = gated
        for ws in ways:
            common = common & set.intersection(*[g for _, _, g, _, _ in ws])
        if common:
            L.ob('order', inst, None, where[0][1], 'a cycle, but under a common lock')
            continue
        L.ob('order', inst, False, where[0][1], 'in %s, but %s in %s' % (
            where[0][0], ' -> '.join(lname(x) for x in path), ', '.join(ws[0][0] for ws in ways)))
    if not any(o[0] == 'balance' for o in L.obs):
        raise AnalysisError('no entry points found')


def fresh_owner(st, mloc):
    """Is the lock part of an object created on this path and not yet shared?"""
    r = T.root(mloc)
    return r[0] == 'h' and not M.shared_root(st, r)


def reach(succ, a, b):
    todo, seen = [[a]], {a}
    while todo:
        p = todo.pop(0)
        if p[-1] == b:
            return p
        for n in succ.get(p[-1], ()):
            if n not in seen:
                seen.add(n)
                todo.append(p + [n])
    return None


# -- C11: data races ------------------------------------------------------------

# Session functions that configure it before any of its threads run (session.h).
CONFIG = ('connect', 'bind', 'setOnInvalidData')


class _St(object):
    def __init__(self, dyn):
        self.store = {('dyn', k): v for k, v in dyn.items()}


def shared_classes(P):
    """Classes with a synchronisation member: objects meant to be used by
    several threads."""
    out = set()
    for k, r in P.recs.items():
        if r.get('lambda'):
            continue
        for f in r['fields']:
            if X.cls_of(f['t']) in M.SYNC or X.cls_of(f['t']) in ('std::shared_mutex', 'std::recursive_mutex'):
                out.add(k)
    changed = True
    while changed:
        changed = False
        for k, r in P.recs.items():
            if k not in out and not r.get('lambda') and any(X.strip(f['t']) in out for f in r['fields']):
                out.add(k)
                changed = True
    return out


def var_key(en, shared, loc, dyn):
    """(class, member) of the shared variable that an access touches, with the
    member's type; None when it is not a member of a shared object."""
    st = _St(dyn)
    best = None
    l = loc
    while l[0] in ('f', 'e', 'm'):
        if l[0] == 'f':
            t = M.type_of_loc(en.I, st, l[1])
            t = X.strip(t) if t else None
            if t in shared:
                ft = next((f['t'] for f in M.all_fields(en.I, t) if f['n'] == l[2]), '?')
                return (t, l[2]), ft, l[1]
            if l[1][0] == 'g' or T.root(l)[0] == 'g':
                best = (('::' + show(T.root(l)), l[2]), '?', l[1])
        l = l[1]
    if l[0] == 'g' and best is None:
        best = (('::', str(l[-1])), '?', l)
    return best


def C11(L):
    L.rule('race', 'two accesses of a shared variable that can run concurrently, one of them a write, hold a common '
                   'lock (the write exclusively), or the variable is atomic')
    L.rule('handle', 'a system handle is released only under a lock that every use of it holds as well')
    L.assumptions.append('connect, bind and setOnInvalidData of a session run before its threads are started; objects '
                         'are constructed and destroyed while no caller uses them')
    cat = Cat(L)
    wrap = wrappers(cat)
    vs, hs = {}, {}
    nacc = 0
    for en in cat.entries:
        if en.cls in wrap:
            continue
        P = en.I.P
        sh = shared_classes(P)
        group = None
        if en.kind == 'thread':
            group = 'recv' if any(e[0] == 'payload' for _, evs in en.paths for e in flat(evs)) else 'thread ' + posn(en.pos)
            if en.cls and en.cls.startswith('anon[session') and group != 'recv':
                group = 'dispatch'
        short = en.name.split('::')[-1]
        if en.kind == 'ctor' or short in CONFIG:
            continue
        starter = any(e[0] == 'thread' for _, evs in en.paths for e in flat(evs))
        joined = {a[3] for a in en.accs if thread_state(a[6]) == 'joined'}
        for loc, rw, locks, pos, top, _, trace, dyn in en.accs:
            if rw == 'init':
                continue
            r = T.root(loc)
            if r[0] == 'h':
                continue
            k = var_key(en, sh, loc, dyn)
            if k is None:
                continue
            key, ft, own = k
            if key[0] in wrap or X.cls_of(ft) in M.SYNC or X.strip(ft) in sh or ft.startswith('const ') or \
                    ft.rstrip().endswith('const'):
                continue
            g = group
            if g is None and short == 'getPayload':
                g = 'dispatch' if top in P.fns and P.recs.get(P.fns[top].rec, {}).get('lambda') else 'recv'
            state = 'run'
            if en.kind == 'dtor' or any_thread(trace):
                state = thread_state(trace)
                if en.kind == 'dtor' and state == 'joined':
                    continue
            ls = frozenset((lockname(en.I, _St(dyn), x[0]), x[1]) for x in locks)
            if state == 'run' and pos in joined:
                state = 'joined'          # only skipped where there is no thread to join
            acc = ('starter' if starter else en.kind, g, rw, ls, state, en.cls)
            nacc += 1
            vs.setdefault(key, {}).setdefault(acc, (en.name, pos))
        for st, evs in en.paths:
            gone = {}           # handle locations -> locks held when the handle was taken out of them
            for e in flat(evs):
                if e[0] == 'set':
                    gone[e[3]] = e[2]
                if e[0] != 'sys':
                    continue
                h = handle(e)
                if h is None:
                    continue
                hl, fun = h
                hk = var_key(en, sh, hl, {k[1]: v for k, v in st.store.items() if k[0] == 'dyn'})
                if hk is None or en.kind == 'dtor':
                    continue
                held_at = tuple(e[2]) + (tuple(gone.get(hl, ())) if fun in RELEASE else ())
                ls = frozenset((lockname(en.I, st, x[0]), x[1]) for x in held_at)
                hs.setdefault(hk[0], {}).setdefault((fun, ls), (en.name, e[1]))
    L.count('shared_accesses', nacc)
    for key, accs in sorted(vs.items(), key=str):
        inst = lname(key)
        verdict = True
        writes = [a for a in accs if a[2] == 'w']
        for w in writes:
            for a in accs:
                if not concurrent(w, a):
                    continue
                if protected(w, a):
                    continue
                verdict = False
                n1, p1 = accs[w]
                n2, p2 = accs[a]
                L.ob('race', inst, False, p1, 'written by %s %s and %s by %s at %s %s without a common lock' % (
                    n1, held(w), 'written' if a[2] == 'w' else 'read', n2, posn(p2), held(a)))
                break
        if verdict:
            L.ob('race', inst, True, next(iter(accs.values()))[1])
    for key, uses in sorted(hs.items(), key=str):
        for (fun, ls), (n1, p1) in uses.items():
            if fun not in RELEASE:
                continue
            for (f2, l2), (n2, p2) in uses.items():
                if f2 == 'shutdown':
                    continue
                com = {x for x, m in ls if m == 'x'} & {x for x, m in l2}
                L.ob('handle', '%s: %s and %s' % (lname(key), fun, f2), bool(com), p1,
                     '%s in %s can run while %s in %s (%s) uses the handle' % (fun, n1, f2, n2, posn(p2)))
    if not vs:
        raise AnalysisError('no shared variables found')
    framing_close(L)


def framing_close(L):
    """The message reader is closed by one thread while another reads from it."""
    from protocol import nodes
    P = ir.extract(ir.src('content_stream.cpp'))
    cls = 'dap::ContentReader'
    ms = {f.n: f for f in P.fns.values() if f.rec == cls and f.body is not None and f.kind == 'method'}
    if 'close' not in ms or 'read' not in ms:
        return

    def setup(I):
        contracts.install(I)
        I.log = True
    r = run(L, P, ms['close'], cls, setup)
    if r is None:
        return
    fields = {x['n']: x['t'] for x in P.recs[cls]['fields']}
    used, assigned = {}, {}
    todo, seen = [ms['read']] + [ms[n] for n in ('isOpen',) if n in ms], set()
    while todo:
        f = todo.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        for n in nodes(f.body):
            fn = n.get('fn')
            if isinstance(fn, dict) and fn.get('key') in P.fns and P.fns[fn['key']].rec == cls:
                todo.append(P.fns[fn['key']])
            if n.get('k') == 'mem' and n.get('rec') == cls:
                used.setdefault(n['n'], n['p'])
            if n.get('k') == 'bin' and n.get('op', '').endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') \
                    and isinstance(n.get('l'), dict) and n['l'].get('k') == 'mem' and n['l'].get('rec') == cls:
                assigned.setdefault(n['l']['n'], n['p'])
    for a in r.I.accs:
        loc, rw, locks, pos = a[:4]
        if loc[0] != 'f' or loc[1] != SELF or loc[2] not in fields or locks or X.cls_of(fields[loc[2]]) in M.SYNC:
            continue
        other = used.get(loc[2]) if rw == 'w' else assigned.get(loc[2]) if rw == 'r' else None
        L.ob('race', '%s::%s' % (cls, loc[2]), other is None, pos,
             '%s by close while another thread reads a message (%s)' % ('written' if rw == 'w' else 'read', posn(other) if other else ''))


RELEASE = ('close', 'fclose', 'closesocket')
USES = {'recv': 0, 'send': 0, 'accept': 0, 'shutdown': 0, 'setsockopt': 0, 'getsockopt': 0, 'close': 0, 'fclose': 0,
        'fgetc': 0, 'getc': 0, 'fwrite': 3, 'fread': 3, 'fflush': 0, 'fputc': 1, 'fputs': 1, 'listen': 0, 'bind': 0,
        'connect': 0, 'fcntl': 0, 'read': 0, 'write': 0, 'feof': 0, 'ferror': 0}


def handle(e):
    """(location of the handle used, function) of a system call."""
    fun = e[3].split('::')[-1]
    i = USES.get(fun)
    if i is None or len(e[4]) <= i:
        return None
    a = e[4][i]
    if isinstance(a, tuple) and len(a) == 4 and a[0] == 'v' and isinstance(a[1], tuple):
        return a[1], fun
    return None


def trace_list(trace):
    while trace is not None:
        yield trace[1]
        trace = trace[0]


def any_thread(trace):
    return any(e[0] in ('thread', 'join') for e in trace_list(trace))


def thread_state(trace):
    """run: before any thread was started or joined here; started; joined."""
    for e in trace_list(trace):
        if e[0] == 'thread':
            return 'started'
        if e[0] == 'join':
            return 'joined'
    return 'run'


def held(a):
    return 'holding ' + ', '.join(sorted(lname(x) for x, _ in a[3])) if a[3] else 'with no lock held'


def protected(w, a):
    for l, m in w[3]:
        if l is not None and m == 'x' and any(x == l for x, _ in a[3]):
            return True
    return False


def concurrent(a, b):
    """Can two accesses (to the same object) run at the same time?"""
    ka, ga, kb, gb = a[0], a[1], b[0], b[1]
    if ga is not None and ga == gb:
        return False                      # one thread
    if ka == 'dtor' or kb == 'dtor':
        o = b if ka == 'dtor' else a
        return o[0] == 'thread' or o[1] in ('recv', 'dispatch')
    # A function that starts the thread: what it does before is ordered before
    # the thread; what it does with an earlier thread is C21's subject.
    for x, y in ((a, b), (b, a)):
        if (y[0] == 'thread' or y[1] in ('recv', 'dispatch')) and x[5] == y[5]:
            if x[4] == 'joined' or (x[0] == 'starter' and x[4] == 'run'):
                return False
    return True


# -- C13: wake-ups ----------------------------------------------------------------

def find_loop(fn, pos):
    """Innermost loop statement of fn whose body contains the call at pos."""
    best = [None]

    def walk(o, loop):
        if isinstance(o, list):
            for x in o:
                walk(x, loop)
            return
        if not isinstance(o, dict):
            return
        if o.get('k') in ('loop', 'rfor'):
            for k, v in o.items():
                if isinstance(v, (dict, list)):
                    walk(v, o if k == 'body' else loop)
            return
        if o.get('p') == pos and o.get('k') in ('call', 'mcall', 'ocall') and best[0] is None:
            best[0] = (loop,)
        for v in o.values():
            if isinstance(v, (dict, list)):
                walk(v, loop)
    walk(fn.body, None)
    return best[0]


class Waiter(object):
    """One place where a thread waits: condition variable, mutex, condition."""

    def __init__(self, en, st, e):
        self.en, self.pos, self.cvloc, self.mloc, self.pred, self.timed = en, e[1], e[3], e[4], e[5], e[6]
        self.cv = lockname(en.I, st, e[3])
        self.mx = lockname(en.I, st, e[4])
        self.loop = None
        self.fn = None
        if self.pred is None:
            for f in en.I.P.fns.values():
                if f.body and f.p and f.p[0] == e[1][0]:
                    r = find_loop(f, e[1])
                    if r is not None:
                        self.fn, self.loop = f, r[0]
                        break

    def holds(self, I, st, owner=None):
        """[(state, truth)] of the awaited condition in st; None if unknown. owner:
        the object whose mutex is concerned, in the terms of st."""
        st = st.copy()
        mine = self.mloc[1] if self.mloc and self.mloc[0] == 'f' else None
        try:
            if self.pred is not None:
                if not local_fn(self.pred):
                    return None
                pred = self.pred
                if owner is not None and mine is not None and owner != mine:
                    pred = subst(pred, mine, owner)
                    if mine[0] == 'd' and mine[1][0] == 'v':
                        # the waiter reaches the mutex through a pointer it holds
                        st.store[mine[1][1]] = owner[1] if owner[0] == 'd' else ('&', owner)
                out = []
                for s, v in I.call_closure(st, pred, [], self.pos):
                    v = I.rv(s, v, 'bool')
                    out.extend(I.fork(s, v))
                return out
            if self.loop is None or self.loop.get('c') is None or self.loop.get('cv'):
                return None
            if self.fn.rec == self.en.cls and (self.fn is self.en.fn or mine == SELF):
                this = SELF if mine != SELF or owner is None else owner
            elif mine is not None and self.fn.rec == self.mx[0]:
                this = owner if owner is not None else mine
            else:
                return None
            if this == SELF and mine is not None and owner is not None and owner != mine and mine[0] == 'd' and mine[1][0] == 'v':
                st.store[mine[1][1]] = owner[1] if owner[0] == 'd' else ('&', owner)
            fr = X.Frame(I.newid(), self.fn, this, {}, None)
            return [(s, not b) for s, b in I.cond(self.loop['c'], st, fr)]
        except (X.Undecided, KeyError, TypeError, IndexError):
            return None


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t


def owner_of(mloc):
    return mloc[1] if mloc and mloc[0] == 'f' else None


def waiters(cat):
    out = {}
    for en in cat.entries:
        for st, evs in en.paths:
            for e in flat(evs):
                if e[0] == 'wait':
                    w = Waiter(en, st, e)
                    if w.mx is None or not isinstance(w.mx[0], str):
                        continue
                    o = out.get((w.pos, w.mx))
                    # the entry that belongs to the class of the mutex itself, if any
                    if o is None or (owner_of(w.mloc) == SELF and owner_of(o.mloc) != SELF):
                        out[(w.pos, w.mx)] = w
    return [out[k] for k in sorted(out, key=str)]


def C13(L):
    L.rule('recheck', 'a wait on a condition variable gives the condition as its predicate or stands in a loop, with the '
                      'mutex that guards the condition held')
    L.rule('wake', 'every path that can make an awaited condition true, between taking and releasing the mutex, notifies '
                   'the condition variable after taking it, unless a count of waiters is known to be zero')
    L.rule('wake-all', 'a single waiter is woken only where it consumes what was signalled, or passes the signal on')
    L.rule('close', 'closing an object makes the condition awaited on it true')
    L.rule('handoff', 'whoever ends an exclusive section that waiters queue for notifies the next of them')
    cat = Cat(L, rw=False, session=False)
    ws = waiters(cat)
    if not ws:
        raise AnalysisError('no condition-variable waits found')
    L.count('waits', len(ws))
    for w in ws:
        inst = '%s at %s' % (w.en.name, posn(w.pos))
        if w.pred is not None:
            L.ob('recheck', inst, True, w.pos)
        elif w.fn is None:
            L.ob('recheck', inst, None, w.pos, 'the enclosing function was not found')
        else:
            L.ob('recheck', inst, w.loop is not None, w.pos, 'waits without re-checking the condition in a loop')
        for st, evs in w.en.paths:
            for e in flat(evs):
                if e[0] == 'wait' and e[1] == w.pos:
                    if e[4] is not None and not any(l[0] == e[4] for l in e[2]):
                        L.ob('recheck', inst + ' (mutex)', False, w.pos, 'waits without holding the mutex')
    mx = {}
    for w in ws:
        mx.setdefault(w.mx, []).append(w)
    counters, counts = counter_members(cat, ws)
    # second pass with the condition evaluated where the mutex is taken and released
    cat2 = Cat2(L, mx, counts)
    ones = {}
    for en in cat2.entries:
        for st, evs in en.paths:
            evs = list(flat(evs))
            for i, e in enumerate(evs):
                if e[0] == 'notify' and e[4] == 'notify_one':
                    ones.setdefault(lockname(en.I, st, e[3]), []).append((en, st, evs, e))
    # the conditions made true, and the notifications that go with it
    for en in cat2.entries:
        en.I.acq_post = en.I.rel_hook = en.I.head_hook = None
        for st, evs in en.paths:
            top = {id(e) for e in evs}
            evs = list(flat(evs))
            for i, e in enumerate(evs):
                if e[0] != 'section':
                    continue
                mloc, pre, post = e[3], e[4], e[5]
                name = lockname(en.I, st, mloc)
                fs = st.facts if id(e) in top else post.facts
                for w in mx[name]:
                    inst = '%s for %s' % (en.name, w.en.name)
                    res = transition(en.I, w, pre, post, fs, owner_of(mloc), [m for c, m in counts if c == name[0]])
                    if res != 'need':
                        L.ob('wake', inst, True if res == 'no' else None, e[1], 'the condition could not be evaluated here')
                        continue
                    j = max([k for k, x in enumerate(evs[:i]) if x[0] == 'acq' and x[3] == mloc] or [0])
                    ok = (any(x[0] == 'notify' and lockname(en.I, st, x[3]) == w.cv for x in evs[j:])
                          or no_waiters(en, st, evs, counters, w, owner_of(mloc)))
                    L.ob('wake', inst, ok, e[1], 'makes the condition awaited in %s true without notifying it' % w.en.name)
    # closing
    for w in ws:
        if all(s.locks for s, _ in w.en.paths):
            continue
        for en in cat2.entries:
            if en.cls != w.en.cls or en.fn is None or en.fn.q.split('::')[-1] != 'close':
                continue
            for st, evs in en.paths:
                for e in flat(evs):
                    if e[0] == 'section' and lockname(en.I, st, e[3]) == w.mx:
                        r = w.holds(en.I, e[5], owner_of(e[3]))
                        ok = None if r is None else all(t for _, t in r)
                        L.ob('close', '%s ends %s' % (en.name, w.en.name), ok, w.pos,
                             'still waits after %s' % en.name)
    # wake-all
    for cv, us in sorted(ones.items(), key=str):
        for w in [w for w in ws if w.cv == cv]:
            keeps = all(s.locks for s, _ in w.en.paths)
            consumed = consumes(cat2, w)
            for en, st, evs, e in us:
                inst = '%s notifies one of %s' % (en.name, w.en.name)
                if keeps:
                    L.ob('wake-all', inst, True, e[1])
                    continue
                vars_ = pred_vars(w)
                touched = {x[3] for x in evs if x[0] in ('set', 'cset', 'cpush', 'cpushf', 'astore')} & vars_
                if not touched:
                    L.ob('wake-all', inst, True, e[1])
                elif not touched & consumed:
                    L.ob('wake-all', inst, False, e[1], 'wakes one waiter for a condition that concerns all of them')
                else:
                    q = [p for o in cat2.entries if o.cls == en.cls for p in o.paths
                         if any(x[0] in ('cpush', 'cset') and x[3] in touched & consumed for x in flat(p[1]))
                         and any(x[0] == 'cpush' and x[3] in touched & consumed for x in flat(p[1]))
                         and not any(x[0] == 'notify' and lockname(o.I, p[0], x[3]) == cv for x in flat(p[1]))]
                    L.ob('wake-all', inst, not q, e[1],
                         'wakes one waiter, and none when more is added before that waiter ran')
    # handoff
    for w in ws:
        if not all(s.locks for s, _ in w.en.paths) or w.cv not in ones:
            continue
        for en in cat2.entries:
            if en.cls != w.mx[0] or en.kind != 'method':
                continue
            for st, evs in en.paths:
                evs = list(flat(evs))
                if not any(x[0] == 'badrel' and lockname(en.I, st, x[3]) == w.mx for x in evs):
                    continue
                inst = '%s for %s' % (en.name, w.en.name)
                ok = (any(x[0] == 'notify' and lockname(en.I, st, x[3]) == w.cv for x in evs)
                      or no_waiters(en, st, evs, counters, w, SELF))
                L.ob('handoff', inst, ok, en.pos, 'releases the exclusive lock without waking a waiter that was passed over')


def counter_members(cat, ws):
    """(counters of waiters {(mutex, member)}, members that only ever count up and
    down from zero {(class, member)})."""
    counters = set()
    for w in ws:
        for st, evs in w.en.paths:
            evs = list(flat(evs))
            i = next((i for i, e in enumerate(evs) if e[0] == 'wait' and e[1] == w.pos), None)
            if i is None:
                continue
            ok = lambda e, d: e[0] == 'set' and e[3][0] == 'f' and e[3][1] == owner_of(w.mloc) and step_of(e) == d
            up = {e[3][2] for e in evs[:i] if ok(e, 1)}
            dn = {e[3][2] for e in evs[i:] if ok(e, -1)}
            counters |= {(w.mx, l) for l in up & dn}
    steps, others = set(), set()
    for en in cat.entries:
        for st, evs in en.paths:
            for e in flat(evs):
                if e[0] == 'set' and e[3][0] == 'f' and e[3][1] == SELF:
                    if step_of(e):
                        steps.add((en.cls, e[3][2]))
                    elif not (en.kind == 'ctor' and e[4] == 0):
                        others.add((en.cls, e[3][2]))
    return counters, steps - others


def no_waiters(en, st, evs, counters, w, owner):
    for m, l in counters:
        if m == w.mx and owner is not None:
            v = I_load(en.I, st, evs, ('f', owner, l))
            if v is not None and st.facts.decide(T.le(v, 0)) is True:
                return True
    return False


def consumes(cat, w):
    """Members of its condition that the waiter takes from or resets before it lets
    go of the mutex."""
    return {x[3] for en in cat.entries if en.fn and w.en.fn and en.fn.key == w.en.fn.key for s, evs in en.paths for x in flat(evs)
            if x[0] in ('cpop', 'cpopb', 'set', 'cset') and x[3][0] == 'f'}


def step_of(e):
    """+1 / -1 if a set event changes its variable by that."""
    if len(e) < 6 or e[5] is None or T.opaque_value(e[4]) or T.opaque_value(e[5]):
        return 0
    d = T.sub(e[4], e[5])
    return d if d in (1, -1) else 0


def I_load(I, st, evs, l):
    """The value last read or written for l on this path."""
    for e in reversed(evs):
        if e[0] == 'set' and e[3] == l:
            return e[4]
    try:
        return I.load(st, l, 'int')
    except Exception:
        return None


def pred_vars(w):
    """Member variables the awaited condition reads."""
    I = new_interp(w.en.I.P)
    I.exact[SELF] = w.en.cls
    I.log = True
    I.uid = 2 * 10 ** 6
    w.holds(I, X.St())
    return {a[0] for a in I.accs if a[0][0] == 'f'}


class Cat2(Cat):
    """The catalogue, with awaited conditions evaluated around each section that
    holds their mutex."""

    def __init__(self, L, mx, counts):
        self.mx, self.counts = mx, counts
        Cat.__init__(self, L, rw=False, session=False)

    def setup(self, I):
        Cat.setup(self, I)
        I.log = False
        I.nojoin = True

        def acq(I, st, mloc, pos, mode):
            if lockname(I, st, mloc) in self.mx:
                st.ev('snap', pos, mloc, st.copy())

        def rel(I, st, mloc, pos, mode):
            mx = lockname(I, st, mloc)
            if mx not in self.mx:
                return
            pre = section_start(st, mloc)
            if pre is None:
                return
            st.ev('section', pos, mloc, pre, st.copy())
        def head(I, s, st):
            if st.locks:
                st.ev('lhead', s['p'], None, st.copy())
        I.acq_post, I.rel_hook, I.head_hook = acq, rel, head


def section_start(st, mloc):
    """The state in which the section that is about to release mloc began."""
    es = list(trace_list(st.trace))
    snaps = lambda e: any(x[0] == 'snap' and x[3] == mloc for x in flat([e]))
    for i, e in enumerate(es):
        if e[0] == 'snap' and e[3] == mloc:
            return e[4]
        if e[0] == 'lhead':
            o = es[i + 1] if i + 1 < len(es) else None
            if o is not None and o[0] == 'loop' and o[1] == e[1]:
                if snaps(o):
                    return e[4]
            else:
                return e[4]
        elif e[0] == 'loop' and snaps(e):
            return None
    return None


def transition(I, w, pre, post, facts, owner, counts):
    """Can the condition have been false when the mutex was taken and be true
    when it is released?"""
    a = pre.copy()
    a.facts = facts.copy()
    for m in counts:
        for s in (pre.copy(), post.copy()):
            a.facts.assume(T.le(0, I.load(s, ('f', owner, m), 'int')), True)
    before = w.holds(I, a, owner)
    if before is None:
        return 'und'
    for s, b in before:
        if b:
            continue
        c = post.copy()
        c.facts = s.facts.copy()
        after = w.holds(I, c, owner)
        if after is None:
            return 'und'
        if any(t for _, t in after):
            return 'need'
    return 'no'
