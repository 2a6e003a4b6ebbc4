"""Transfer functions of the standard library, libc and the synchronisation
primitives, for interp.py."""
import terms as T
from terms import add, sub, mul, scale, eq, le, lt, neg, seqlen, mkseq, concat, parts_of, root, under
import interp as X

SYNC = ('std::mutex', 'std::condition_variable', 'std::atomic', 'std::thread', 'dap::RWMutex', 'std::once_flag')


# -- helpers -------------------------------------------------------------------

def targ(t):
    """First template argument of a type name."""
    t = X.noref(t)
    i = t.find('<')
    if i < 0:
        return '?'
    depth, j = 0, i
    out = []
    for j in range(i, len(t)):
        ch = t[j]
        if ch == '<':
            depth += 1
            if depth == 1:
                continue
        elif ch == '>':
            depth -= 1
            if depth == 0:
                break
        elif ch == ',' and depth == 1:
            break
        out.append(ch)
    return ''.join(out).strip()


def shared_root(st, loc):
    r = root(loc)
    return r[0] in ('o', 'd', 'g') or (r[0] == 'h' and ('esc', r) in st.store)


def escape(I, st, v):
    """Heap objects reachable from a value handed to unknown code."""
    for x in T.atoms_of(v):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'ptr':
            r = root(x[1])
            if r[0] == 'h':
                st.store[('esc', r)] = 1


def owner_fields(I, st, loc):
    r = None
    d = I.dyntype(st, loc)
    if d:
        r = I.P.recs.get(d)
    return r


def type_of_loc(I, st, loc):
    """Record type name of an object location, when known."""
    d = I.dyntype(st, loc)
    if d:
        return d
    if loc[0] == 'f':
        o = type_of_loc(I, st, loc[1])
        if o:
            for f in all_fields(I, o):
                if f['n'] == loc[2]:
                    return X.noref(f['t'])
    if loc[0] == 'h':
        return loc[2]
    if loc[0] == 'd':
        return type_of_pointee(I, st, loc[1])
    return None


def type_of_pointee(I, st, p):
    """Static type of the object a pointer read from a known member refers to."""
    if isinstance(p, tuple) and p and p[0] == 'v' and len(p) == 4 and isinstance(p[1], tuple):
        t = type_of_loc(I, st, p[1])
        if t:
            if X.is_pointer(t):
                return X.strip(X.pointee(t)) if X.strip(X.pointee(t)) in I.P.recs else None
            if X.cls_of(t) in ('std::shared_ptr', 'std::unique_ptr'):
                a = X.strip(targ(t))
                return a if a in I.P.recs else None
    return None


def all_fields(I, rec):
    r = I.P.recs.get(rec)
    if not r:
        return []
    out = []
    for b in r['bases']:
        out.extend(all_fields(I, b['k']))
    return out + list(r['fields'])


def havoc_owner(I, st, mloc):
    if mloc[0] != 'f':
        return
    own = mloc[1]
    if not shared_root(st, own):
        return
    t = type_of_loc(I, st, own)
    fs = all_fields(I, t) if t else None
    if not fs:
        # unknown owner type: forget everything stored below it except locks
        for k in list(st.store):
            if k[0] == 'f' and k[1] == own and k != mloc:
                I.havoc(st, k)
        st.store[('ep', own)] = I.newid()
        return
    for f in fs:
        if X.cls_of(f['t']) in SYNC or f['t'].startswith('const ') or f['t'].rstrip().endswith('const') or X.is_ref(f['t']):
            continue
        fl = ('f', own, f['n'])
        if I.keep_on_acquire(st, fl):
            continue
        I.havoc(st, fl)


def acquire(I, st, mloc, pos, mode='x'):
    st.ev('acq', pos, mloc, mode)
    st.locks = st.locks + ((mloc, mode),)
    if I.acq_hook:
        I.acq_hook(I, st, mloc, pos, mode)
    havoc_owner(I, st, mloc)
    if I.acq_post:
        I.acq_post(I, st, mloc, pos, mode)


def release(I, st, mloc, pos, mode='x'):
    if I.rel_hook:
        I.rel_hook(I, st, mloc, pos, mode)
    st.ev('rel', pos, mloc, mode)
    ls = list(st.locks)
    for i in range(len(ls) - 1, -1, -1):
        if ls[i][0] == mloc and ls[i][1] == mode:
            del ls[i]
            break
    else:
        st.ev('badrel', pos, mloc, mode)
    st.locks = tuple(ls)


def op_loc(I, st, op):
    if isinstance(op, tuple) and op and op[0] == 'L':
        return op[1]
    return I.as_temp(st, op)


def V(I, st, op, t='?'):
    return I.rv(st, op, t)


def fsort(t):
    s = X.sort_of(t)
    return s


def ret_of(I, e, hint='r'):
    if e['t'] == 'void':
        return 0
    return I.fresh(hint, X.sort_of(e['t']))


# -- containers ------------------------------------------------------------------

def cval(I, st, loc):
    v = I.load(st, loc, 'std::string')
    if v == 0:
        return b''
    if isinstance(v, tuple) and v[0] == 'undef':
        return b''
    if isinstance(v, tuple) and v[0] == 'rec':
        return ('app', 'recseq', v)
    return v


def cset(I, st, loc, v, pos, why='set'):
    I.acc(st, loc, 'w', pos)
    st.ev('cset', pos, loc, v, why)
    I.put(st, loc, v)


def range_of(I, st, p, n):
    """n elements starting at pointer p as a sequence"""
    if n == 0:
        return b''
    if isinstance(p, tuple) and p[0] == 'it':
        s = cval(I, st, p[1])
        return I.seq_take(st, I.seq_drop(st, s, p[2]), n)
    if T.is_ptr(p):
        loc = p[1]
        base, off = (loc[1], loc[2]) if loc[0] == 'e' else (loc, 0)
    else:
        loc = I.deref(p, 'char')
        base, off = (loc[1], loc[2]) if loc[0] == 'e' else (loc, 0)
    if base[0] == 'val':
        return I.seq_take(st, I.seq_drop(st, base[1], off), n)
    if base[0] == 'str':
        return I.seq_take(st, I.seq_drop(st, base[1] + b'\0', off), n)
    cs = st.store.get(('cstr', base))
    if cs is not None and off == 0:
        return I.seq_take(st, cs, n)
    wl = st.store.get(('wl', base))
    if wl is not None and wl[0] != 'mess':
        o2 = sub(off, wl[0])
        if st.facts.decide(le(0, o2)) and st.facts.decide(le(add(o2, n), seqlen(wl[1]))):
            return I.seq_take(st, I.seq_drop(st, wl[1], o2), n)
    if wl is not None:
        return mkseq([('sl', ('wlv', base, wl), off, n)])
    c = I.load_opt(st, base)
    if c is None or c == 0 or (isinstance(c, tuple) and c[0] == 'undef'):
        c = ('v', base, I.epoch(st, base), 'o')
    if isinstance(c, bytes) or (isinstance(c, tuple) and c[0] == 'seq'):
        return I.seq_take(st, I.seq_drop(st, c, off), n)
    return mkseq([('sl', c, off, n)])


def put_range(I, st, p, seq, pos):
    if T.is_ptr(p):
        loc = p[1]
    else:
        loc = I.deref(p, 'char')
    base, off = (loc[1], loc[2]) if loc[0] == 'e' else (loc, 0)
    I.acc(st, base, 'w', pos)
    st.store.pop(('cstr', base), None)
    wl = st.store.get(('wl', base))
    if wl is None:
        st.store[('wl', base)] = (off, seq)
    elif wl[0] != 'mess' and st.facts.decide(eq(add(wl[0], seqlen(wl[1])), off)):
        st.store[('wl', base)] = (wl[0], concat(wl[1], seq))
    elif wl[0] != 'mess' and wl[0] == off and st.facts.decide(le(seqlen(wl[1]), seqlen(seq))):
        st.store[('wl', base)] = (off, seq)
    else:
        st.store[('wl', base)] = ('mess', I.newid())


def cstring(I, st, p):
    """Content of a C string pointer."""
    if isinstance(p, bytes):
        return p
    if T.is_ptr(p):
        loc = p[1]
        base, off = (loc[1], loc[2]) if loc[0] == 'e' else (loc, 0)
        if I.zterm and off == 0:
            r = I.zterm(st, base)
            if r is not None:
                return r
        if base[0] == 'str':
            b = base[1]
            if isinstance(off, int):
                b = b[off:]
                return b.split(b'\0')[0]
        if base[0] == 'val' and off == 0:
            return base[1]
        cs = st.store.get(('cstr', base))
        if cs is not None and off == 0:
            return cs
    if isinstance(p, tuple) and p[0] == 'L':
        return cstring(I, st, ('ptr', p[1]))
    return ('app', 'cstr', p, I.epoch(st, I.deref(p, '?')) if not isinstance(p, (int, bytes)) else 0)


def as_seq(I, st, op, t):
    """string-ish operand (std::string lvalue/value, char pointer, char) as a sequence"""
    t = X.noref(t) if not X.is_pointer(t) else t
    v = V(I, st, op, t)
    if X.is_pointer(t) or t.endswith(']'):
        if isinstance(op, tuple) and op and op[0] == 'L' and t.endswith(']'):
            return cstring(I, st, ('ptr', ('e', op[1], 0)))
        return cstring(I, st, v)
    if t == 'char':
        return mkseq([('el', v)])
    if v == 0:
        return b''
    return v


def seq_ctor(I, st, fr, e, cls, ops):
    pts = e['fn']['pt']
    args = e['args']
    n = len(ops)
    isstr = cls == 'std::string'
    if n == 0:
        return [(st, b'')]
    at = args[0]['t']
    c0 = X.cls_of(at) if not X.is_pointer(at) else None
    if c0 == cls or (isstr and c0 == 'std::string'):
        v = V(I, st, ops[0], at)
        if e['fn'].get('cm') == 'move' and isinstance(ops[0], tuple) and ops[0][0] == 'L':
            l = ops[0][1]
            if l[0] not in ('val', 'str'):
                I.put(st, l, b'')
        if n >= 2 and isstr and X.sort_of(pts[1]) in ('u', 'i'):
            s = I.seq_drop(st, v, V(I, st, ops[1], pts[1]))
            if n >= 3 and X.sort_of(pts[2]) in ('u', 'i'):
                s = I.seq_take(st, s, V(I, st, ops[2], pts[2]))
            return [(st, s)]
        return [(st, v if v != 0 else b'')]
    if isstr and (X.is_pointer(at) or at.endswith(']')):
        p = V(I, st, ops[0], at)
        if n >= 2 and X.sort_of(pts[1]) in ('u', 'i') :
            return [(st, range_of(I, st, p, V(I, st, ops[1], pts[1])))]
        if n >= 2 and (X.is_pointer(args[1]['t'])):
            q = V(I, st, ops[1], args[1]['t'])
            return [(st, range_of(I, st, p, sub(q, p)))]
        if p == 0:
            st.ev('nullderef', e['p'], p)
        return [(st, cstring(I, st, p))]
    v0 = V(I, st, ops[0], at)
    if isinstance(v0, tuple) and v0[0] == 'it' and n >= 2:
        v1 = V(I, st, ops[1], args[1]['t'])
        if isinstance(v1, tuple) and v1[0] == 'it' and v1[1] == v0[1]:
            return [(st, range_of(I, st, v0, sub(v1[2], v0[2])))]
    if X.is_pointer(at) and n >= 2 and X.is_pointer(args[1]['t']):
        v1 = V(I, st, ops[1], args[1]['t'])
        return [(st, range_of(I, st, v0, sub(v1, v0)))]
    if X.sort_of(at) in ('u', 'i') and I.alloc:
        I.alloc(st, e['p'], v0)
    if n >= 2 and X.sort_of(at) in ('u', 'i') and isstr:
        return [(st, mkseq([('gen', V(I, st, ops[1], args[1]['t']), v0)]))]
    if X.sort_of(at) in ('u', 'i') and not isstr:
        return [(st, mkseq([('gen', 0 if n < 2 else V(I, st, ops[1], args[1]['t']), v0)]))]
    if c0 == 'std::initializer_list':
        return [(st, il_seq(I, st, ops[0]))]
    if c0 == 'std::allocator':
        return [(st, b'')]
    if cls == 'std::queue' or cls == 'std::stack':
        return [(st, v0 if v0 != 0 else b'')]
    st.note('ctor ' + cls)
    return [(st, I.fresh('seq', 'o'))]


def il_seq(I, st, op):
    if isinstance(op, tuple) and op and op[0] == 'L':
        l = op[1]
        n = st.store.get(('x', l, 'count'))
        if isinstance(n, int):
            return mkseq([('el', I.load(st, ('e', l, i), 'std::string')) for i in range(n)])
        return V(I, st, op, 'std::string')
    return op


SEQ_CLASSES = ('std::string', 'std::deque', 'std::vector', 'std::queue', 'std::initializer_list', 'std::stack')


def elem_loc(I, st, loc, i, e):
    t = e['t']
    if ('elt', loc) not in st.store and loc not in st.store and X.sort_of(t) not in ('c',) and X.noref(t) != 'char':
        st.store[loc] = cval(I, st, loc)
    return ('L', ('e', loc, i))


def seq_call(I, st, fr, e, fn, name, loc, ops):
    pos = e['p']
    pts = fn['pt']
    args = e['args']
    s = cval(I, st, loc)
    rd = lambda: I.acc(st, loc, 'r', pos)
    if name in ('size', 'length'):
        rd()
        return [(st, seqlen(s))]
    if name == 'empty':
        rd()
        return [(st, eq(seqlen(s), 0))]
    if name == 'front':
        rd()
        if st.facts.decide(eq(seqlen(s), 0)) is not False:
            st.ev('maybe_empty', pos, loc, 'front')
        return [(st, elem_loc(I, st, loc, 0, e))]
    if name == 'back':
        rd()
        return [(st, elem_loc(I, st, loc, sub(seqlen(s), 1), e))]
    if name in ('operator[]', 'at'):
        rd()
        i = V(I, st, ops[0], pts[0])
        if st.facts.decide(lt(i, seqlen(s))) is not True:
            st.ev('maybe_oob', pos, loc, i)
        return [(st, elem_loc(I, st, loc, i, e))]
    if name in ('push_back', 'push', 'emplace_back', 'emplace'):
        if ops:
            v = V(I, st, ops[0], X.noref(pts[0]) if pts else args[0]['t'])
            mv = pts and pts[0].endswith('&&') and isinstance(ops[0], tuple) and ops[0][0] == 'L'
        else:
            v, mv = 0, False
        cset(I, st, loc, concat(s, mkseq([('el', v)])), pos, 'push')
        st.ev('cpush', pos, loc, v)
        if mv:
            moved_out(I, st, ops[0][1], args[0]['t'])
        return [(st, 0)]
    if name in ('push_front', 'emplace_front'):
        v = V(I, st, ops[0], X.noref(pts[0]) if pts else args[0]['t'])
        cset(I, st, loc, concat(mkseq([('el', v)]), s), pos, 'pushfront')
        st.ev('cpushf', pos, loc, v)
        return [(st, 0)]
    if name in ('pop_front', 'pop') :
        if st.facts.decide(eq(seqlen(s), 0)) is not False:
            st.ev('maybe_empty', pos, loc, 'pop')
        cset(I, st, loc, I.seq_drop(st, s, 1), pos, 'pop')
        st.ev('cpop', pos, loc)
        return [(st, 0)]
    if name == 'pop_back':
        cset(I, st, loc, I.seq_take(st, s, sub(seqlen(s), 1)), pos, 'popback')
        st.ev('cpopb', pos, loc)
        return [(st, 0)]
    n = st.store.get(('x', loc, 'count')) if fn['q'].startswith('std::initializer_list<') else None
    if n is not None and name in ('begin', 'end', 'size'):
        return [(st, n if name == 'size' else ('ptr', ('e', loc, 0 if name == 'begin' else n)))]
    if name in ('begin', 'cbegin'):
        rd()
        return [(st, ('it', loc, 0))]
    if name in ('end', 'cend'):
        rd()
        return [(st, ('it', loc, seqlen(s)))]
    if name in ('data', 'c_str'):
        rd()
        t = e['t']
        if not fn.get('const') and name == 'data' and not t.startswith('const'):
            return [(st, ('ptr', ('e', loc, 0)))]
        return [(st, ('ptr', ('e', ('val', s), 0)))]
    if name == 'reserve':
        st.ev('reserve', pos, loc, V(I, st, ops[0], 'unsigned long') if ops else 0)
        return [(st, 0)]
    if name in ('shrink_to_fit', 'swap_'):
        return [(st, 0)]
    if name == 'clear':
        cset(I, st, loc, b'', pos, 'clear')
        return [(st, 0)]
    if name == 'resize':
        n = V(I, st, ops[0], 'unsigned long')
        st.ev('reserve', pos, loc, n)
        out = []
        for s2, b in I.fork(st, le(n, seqlen(s))):
            if b:
                cset(I, s2, loc, I.seq_take(s2, s, n), pos, 'resize')
            else:
                fill = V(I, s2, ops[1], pts[1]) if len(ops) > 1 else 0
                cset(I, s2, loc, concat(s, mkseq([('gen', fill, sub(n, seqlen(s)))])), pos, 'resize')
            out.append((s2, 0))
        return out
    if name in ('append', 'operator+=', 'assign', 'operator='):
        pre = s if name in ('append', 'operator+=') else b''
        at = args[0]['t'] if args else '?'
        if not ops:
            return [(st, ('L', loc))]
        if len(ops) >= 2:
            a = V(I, st, ops[0], at)
            b = V(I, st, ops[1], args[1]['t'])
            if isinstance(a, tuple) and a[0] == 'it' and isinstance(b, tuple) and b[0] == 'it':
                x = range_of(I, st, a, sub(b[2], a[2]))
            elif X.is_pointer(at) and X.is_pointer(args[1]['t']):
                x = range_of(I, st, a, sub(b, a))
            elif X.is_pointer(at):
                x = range_of(I, st, a, b)
            elif X.sort_of(at) in ('u', 'i', 'c'):
                x = mkseq([('gen', b, a)])
            else:
                o = b
                x = I.seq_drop(st, as_seq(I, st, ops[0], at), o)
                if len(ops) > 2:
                    x = I.seq_take(st, x, V(I, st, ops[2], pts[2]))
        else:
            c0 = X.cls_of(at) if not X.is_pointer(at) else None
            if c0 == 'std::initializer_list':
                x = il_seq(I, st, ops[0])
            elif X.sort_of(at) in ('i', 'c', 'u') and not X.is_pointer(at):
                x = mkseq([('el', V(I, st, ops[0], at))])
            elif X.is_pointer(at) or at.endswith(']'):
                x = as_seq(I, st, ops[0], at)
            else:
                x = V(I, st, ops[0], at)
                if x == 0:
                    x = b''
                if isinstance(ops[0], tuple) and ops[0][0] == 'L' and st.store.get(('x', ops[0][1], 'count')) is not None:
                    x = il_seq(I, st, ops[0])
        mv = name == 'operator=' and pts and pts[0].endswith('&&') and isinstance(ops[0], tuple) and ops[0][0] == 'L'
        if mv and ops[0][1] == loc:
            return [(st, ('L', loc))]
        cset(I, st, loc, concat(pre, x), pos, name)
        if mv and ops[0][1][0] not in ('val', 'str'):
            I.put(st, ops[0][1], b'')
        return [(st, ('L', loc))]
    if name == 'substr':
        o = V(I, st, ops[0], 'unsigned long') if ops else 0
        r = I.seq_drop(st, s, o)
        if len(ops) > 1 and not T.contains(V(I, st, ops[1], 'unsigned long'), 18446744073709551615):
            r = I.seq_take(st, r, V(I, st, ops[1], 'unsigned long'))
        return [(st, r)]
    if name == 'erase':
        a = V(I, st, ops[0], args[0]['t']) if ops else 0
        i = a[2] if isinstance(a, tuple) and a[0] == 'it' else a
        if len(ops) > 1:
            b = V(I, st, ops[1], args[1]['t'])
            if isinstance(b, tuple) and b[0] == 'it':
                n = sub(b[2], i)
            else:
                n = b
                if n == 18446744073709551615:
                    n = sub(seqlen(s), i)
        else:
            n = 1 if isinstance(a, tuple) and a[0] == 'it' else sub(seqlen(s), i)
        r = concat(I.seq_take(st, s, i), I.seq_drop(st, I.seq_drop(st, s, i), n))
        cset(I, st, loc, r, pos, 'erase')
        return [(st, ('it', loc, i) if isinstance(a, tuple) and a[0] == 'it' else ('L', loc))]
    if name == 'insert':
        a = V(I, st, ops[0], args[0]['t'])
        i = a[2] if isinstance(a, tuple) and a[0] == 'it' else a
        if len(ops) >= 3:
            b, c = V(I, st, ops[1], args[1]['t']), V(I, st, ops[2], args[2]['t'])
            if isinstance(b, tuple) and b[0] == 'it' and isinstance(c, tuple) and c[0] == 'it':
                x = range_of(I, st, b, sub(c[2], b[2]))
            elif X.is_pointer(args[1]['t']):
                x = range_of(I, st, b, sub(c, b) if X.is_pointer(args[2]['t']) else c)
            else:
                x = mkseq([('gen', c, b)])
        else:
            x = as_seq(I, st, ops[1], args[1]['t']) if cls_is_str(fn) else mkseq([('el', V(I, st, ops[1], args[1]['t']))])
        r = concat(I.seq_take(st, s, i), x, I.seq_drop(st, s, i))
        if st.facts.decide(eq(i, seqlen(s))):
            r = concat(s, x)
        cset(I, st, loc, r, pos, 'insert')
        st.ev('cinsert', pos, loc, i)
        return [(st, ('it', loc, i))]
    if name == 'compare':
        if len(ops) == 1:
            return [(st, ('app', 'cmp', s, as_seq(I, st, ops[0], args[0]['t'])))]
        if len(ops) == 3:
            x = I.seq_take(st, I.seq_drop(st, s, V(I, st, ops[0], pts[0])), V(I, st, ops[1], pts[1]))
            return [(st, neg(eq(x, as_seq(I, st, ops[2], args[2]['t']))))]
    if name in ('find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of'):
        rd()
        return [(st, ('app', 'str.' + name, s) + tuple(V(I, st, o, a['t']) for o, a in zip(ops, args)))]
    if name == 'swap':
        o = op_loc(I, st, ops[0])
        ov = cval(I, st, o)
        I.put(st, loc, ov)
        I.put(st, o, s)
        return [(st, 0)]
    if name in ('max_size', 'capacity', 'get_allocator'):
        return [(st, ('app', name, loc))]
    return None


def cls_is_str(fn):
    return X.cls_of(fn['rec']) == 'std::string'


def moved_out(I, st, loc, t):
    if loc[0] in ('val', 'str'):
        return
    c = X.cls_of(t)
    if c in ('std::shared_ptr', 'std::unique_ptr', 'std::function'):
        I.put(st, loc, 0)
    elif c in SEQ_CLASSES:
        I.put(st, loc, b'')
    elif X.sort_of(t) == 'o':
        v = I.load(st, loc, t)
        if isinstance(v, tuple) and v and v[0] == 'clo':
            return
        if v != 0:
            I.put(st, loc, ('app', 'moved', v))


# -- smart pointers ----------------------------------------------------------------

def held_elsewhere(st, p, loc):
    for k, v in st.store.items():
        if k == loc or under_key(k, loc):
            continue
        if k[0] in ('ep', 'mhas', 'elt', 'init', 'dyn', 'esc'):
            continue
        if v == p or (isinstance(v, tuple) and v and v[0] != 'ref' and T.contains(v, p)):
            return True
    return False


def under_key(k, loc):
    return k[0] in ('f', 'e', 'm') and under(k, loc)


def drop_ptr(I, st, p, loc, t, pos, shared):
    if p == 0 or p is None:
        return [st]
    if isinstance(p, tuple) and p[0] in ('undef',):
        return [st]
    if isinstance(p, tuple) and p[0] == 'app' and p[1] == 'moved':
        return [st]
    d = st.facts.decide(eq(p, 0))
    if d:
        return [st]
    pt = targ(t)
    arr = pt.endswith('[]')
    if T.is_ptr(p):
        h = root(p[1])
        if h[0] == 'h':
            if shared and (('esc', h) in st.store or held_elsewhere(st, p, loc)):
                st.ev('sdrop', pos, p, False)
                return [st]
            if st.store.get(('freed', h)):
                st.ev('doublefree', pos, p)
                return [st]
            st.store[('freed', h)] = 1
            return I.delete(st, p, pt if not arr else pt[:-2], pos, arr=arr)
        if not shared:
            return I.delete(st, p, pt, pos, arr=arr)
    out = []
    for s, isn in I.fork(st, eq(p, 0)):
        if not isn:
            s.ev('sdrop' if shared else 'free', pos, p, None if shared else pt, arr)
        out.append(s)
    return out


def sp_dtor(shared):
    def d(I, st, loc, t, pos):
        v = I.load(st, loc, t)
        st.store.pop(loc, None)
        return drop_ptr(I, st, v, loc, t, pos, shared)
    return d


def sp_assign(I, st, loc, v, t, pos, shared):
    old = I.load(st, loc, t)
    I.acc(st, loc, 'w', pos)
    I.put(st, loc, v)
    st.ev('set', pos, loc, v)
    if old == v:
        return [st]
    return drop_ptr(I, st, old, loc, t, pos, shared)


def sp_call(I, st, fr, e, fn, name, loc, ops, shared):
    pos = e['p']
    t = fn['rec']
    if name in ('operator->', 'get'):
        I.acc(st, loc, 'r', pos)
        v = I.load(st, loc, t)
        if v == 0 and name == 'operator->':
            st.ev('nullderef', pos, v)
        return [(st, ptr_norm(v))]
    if name == 'operator*':
        v = I.load(st, loc, t)
        I.check_deref(st, v, pos)
        return [(st, ('L', I.deref(ptr_norm(v), e['t'])))]
    if name == 'operator[]':
        v = ptr_norm(I.load(st, loc, t))
        i = V(I, st, ops[0], 'unsigned long')
        return [(st, ('L', I.deref(add(v, i), e['t'])))]
    if name == 'operator bool':
        I.acc(st, loc, 'r', pos)
        return [(st, neg(eq(I.load(st, loc, t), 0)))]
    if name == 'reset':
        v = V(I, st, ops[0], 'void *') if ops else 0
        return [(s, 0) for s in sp_assign(I, st, loc, v, t, pos, shared)]
    if name == 'release':
        v = I.load(st, loc, t)
        I.put(st, loc, 0)
        return [(st, v)]
    if name == 'operator=':
        v = V(I, st, ops[0], e['args'][0]['t'])
        pt = fn['pt'][0] if fn['pt'] else ''
        if isinstance(ops[0], tuple) and ops[0][0] == 'L':
            if ops[0][1] == loc:
                return [(st, ('L', loc))]
            if pt.endswith('&&') or not shared:
                if ops[0][1][0] != 'val':
                    I.put(st, ops[0][1], 0)
        return [(s, ('L', loc)) for s in sp_assign(I, st, loc, v, t, pos, shared)]
    if name == 'swap':
        o = op_loc(I, st, ops[0])
        a, b = I.load(st, loc, t), I.load(st, o, t)
        I.put(st, loc, b)
        I.put(st, o, a)
        return [(st, 0)]
    if name == 'use_count':
        return [(st, I.fresh('uc', 'u'))]
    return None


def ptr_norm(v):
    return v


def sp_construct(I, st, fr, e, cls, ops):
    if not ops:
        return [(st, 0)]
    a = e['args'][0]
    v = V(I, st, ops[0], a['t'])
    if X.cls_of(a['t']) in ('std::shared_ptr', 'std::unique_ptr') and not X.is_pointer(a['t']):
        pt = e['fn']['pt'][0] if e['fn']['pt'] else ''
        if pt.endswith('&&') and isinstance(ops[0], tuple) and ops[0][0] == 'L' and ops[0][1][0] != 'val':
            I.put(st, ops[0][1], 0)
    elif v != 0:
        st.ev('spown', e['p'], v, cls == 'std::shared_ptr', len([x for x in e['args'] if x.get('k') != 'defarg']) > 1)
    return [(st, v)]


# -- functions -------------------------------------------------------------------

def fn_value(v):
    return v


def call_function(I, st, fr, e, f, ops, pos, pts, rett):
    if isinstance(f, tuple) and f:
        if f[0] == 'clo':
            fnn = I.P.fns.get(f[1])
            return I.call_closure(st, f, ops, pos)
        if f[0] == 'fnref' and f[1] in I.P.fns:
            return I.invoke(f[1], None, ops, st, pos)
        if f[0] == 'undef':
            f = ('app', 'undef', f)
    if f == 0:
        st.ev('emptycall', pos)
        return []
    d = st.facts.decide(eq(f, 0))
    if d:
        st.ev('emptycall', pos)
        return []
    if d is None:
        st.ev('maybe_emptycall', pos, f)
    for o in ops:
        if isinstance(o, tuple) and o and o[0] == 'L':
            escape(I, st, I.load(st, o[1], '?'))
        else:
            escape(I, st, o)
    return I.ucall(st, f, ops, pts, e, rett)


# -- maps --------------------------------------------------------------------------

def map_has(I, st, loc, key):
    """[(st, bool)]"""
    h = st.store.get(('mhas', loc, key))
    if h is not None:
        return [(st, bool(h))]
    if st.store.get(('x', loc, 'mempty')):
        known = [k for k in st.store if k[0] == 'mhas' and k[1] == loc and st.store[k]]
        if not known:
            return [(st, False)]
    t = ('app', 'has', loc, I.epoch(st, loc), st.store.get(('x', loc, 'mver'), 0), key)
    out = []
    for s, b in I.fork(st, t):
        s.store[('mhas', loc, key)] = int(b)
        out.append((s, b))
    return out


def map_touch(I, st, loc, key):
    """An entry was added or removed: other keys' knowledge survives only if
    they are certainly different."""
    for k in [k for k in st.store if k[0] == 'mhas' and k[1] == loc and k[2] != key]:
        if st.facts.decide(eq(k[2], key)) is not False:
            del st.store[k]
    st.store[('x', loc, 'mver')] = I.newid()


def map_put(I, st, loc, key, v, pos):
    map_touch(I, st, loc, key)
    st.store[('mhas', loc, key)] = 1
    I.put(st, ('f', ('m', loc, key), 'second'), v)
    I.put(st, ('f', ('m', loc, key), 'first'), key)
    I.acc(st, loc, 'w', pos)
    st.ev('mput', pos, loc, key, v)


def map_erase(I, st, loc, key, pos):
    map_touch(I, st, loc, key)
    st.store[('mhas', loc, key)] = 0
    I.clear(st, ('m', loc, key))
    st.store.pop(('m', loc, key), None)
    st.store[('ep', ('m', loc, key))] = I.newid()
    I.acc(st, loc, 'w', pos)
    st.ev('merase', pos, loc, key)


def map_call(I, st, fr, e, fn, name, loc, ops, isset=False):
    pos = e['p']
    pts = fn['pt']
    args = e['args']

    def key(i):
        t = args[i]['t']
        if X.is_pointer(t) or t.endswith(']'):
            if 'char' in t:
                return as_seq(I, st, ops[i], t)
        return V(I, st, ops[i], t)
    if name in ('find', 'count', 'at', 'operator[]', 'contains'):
        I.acc(st, loc, 'r', pos)
        k = key(0)
        out = []
        for s, has in map_has(I, st, loc, k):
            s.ev('mfind', pos, loc, k, has)
            if name == 'find':
                out.append((s, ('mit', loc, k) if has else ('mend', loc)))
            elif name in ('count', 'contains'):
                out.append((s, int(has)))
            elif name == 'at':
                if has:
                    out.append((s, ('L', ('f', ('m', loc, k), 'second'))))
                else:
                    s.ev('throw', pos)
            else:
                if not has:
                    map_put(I, s, loc, k, 0, pos)
                out.append((s, ('L', ('f', ('m', loc, k), 'second'))))
        return out
    if name in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
        if isset:
            k, v = key(0), 1
        elif name == 'insert' or len(ops) == 1:
            p = V(I, st, ops[0], args[0]['t'])
            k, v = I.project(p, 'first'), I.project(p, 'second')
        else:
            k, v = key(0), V(I, st, ops[1], args[1]['t'])
        out = []
        for s, has in map_has(I, st, loc, k):
            s.ev('mfind', pos, loc, k, has)
            if not has:
                map_put(I, s, loc, k, v, pos)
            elif name == 'insert_or_assign':
                map_put(I, s, loc, k, v, pos)
            else:
                s.ev('mkeep', pos, loc, k, v)
            out.append((s, ('rec', None, (('first', ('mit', loc, k)), ('second', int(not has))))))
        return out
    if name == 'erase':
        v = V(I, st, ops[0], args[0]['t'])
        if isinstance(v, tuple) and v[0] == 'mit':
            map_erase(I, st, loc, v[2], pos)
            return [(st, ('mend', loc))]
        if isinstance(v, tuple) and v[0] == 'mend':
            st.ev('badit', pos, loc)
            return [(st, ('mend', loc))]
        k = key(0)
        out = []
        for s, has in map_has(I, st, loc, k):
            if has:
                map_erase(I, s, loc, k, pos)
            out.append((s, int(has)))
        return out
    if name in ('end', 'cend'):
        return [(st, ('mend', loc))]
    if name in ('begin', 'cbegin'):
        t = ('app', 'size', loc, I.epoch(st, loc), st.store.get(('x', loc, 'mver'), 0))
        return [(s, ('mend', loc) if b else ('mit', loc, I.fresh('key', 'o'))) for s, b in I.fork(st, eq(t, 0))]
    if name in ('size', 'empty'):
        I.acc(st, loc, 'r', pos)
        t = ('app', 'size', loc, I.epoch(st, loc), st.store.get(('x', loc, 'mver'), 0))
        return [(st, t if name == 'size' else eq(t, 0))]
    if name == 'clear':
        I.acc(st, loc, 'w', pos)
        I.havoc(st, loc)
        st.store[('x', loc, 'mempty')] = 1
        st.ev('mclear', pos, loc)
        return [(st, 0)]
    if name == 'operator=':
        v = V(I, st, ops[0], args[0]['t'])
        I.acc(st, loc, 'w', pos)
        I.havoc(st, loc)
        I.put(st, loc, v)
        return [(st, ('L', loc))]
    if name in ('reserve', 'rehash'):
        return [(st, 0)]
    if name == 'swap':
        for l in (loc, op_loc(I, st, ops[0])):
            I.havoc(st, l)
        return [(st, 0)]
    return None


# -- atomics -------------------------------------------------------------------------

def atom_call(I, st, fr, e, fn, name, loc, ops):
    pos = e['p']
    t = targ(fn['rec'])
    if name in ('load',) or name.startswith('operator ') and not ops:
        r = I.fresh('al', X.sort_of(t))
        h = st.store.get(('x', loc, 'exact'))
        st.ev('aload', pos, loc, r)
        if I.atomic_private(st, loc):
            v = st.store.get(loc)
            if v is not None:
                return [(st, v)]
        return [(st, r)]
    if name in ('store', 'operator='):
        v = V(I, st, ops[0], t)
        st.ev('astore', pos, loc, v)
        st.store[loc] = v
        return [(st, v)]
    if name == 'exchange':
        r = I.fresh('ax', X.sort_of(t))
        v = V(I, st, ops[0], t)
        st.ev('axchg', pos, loc, v, r)
        st.store[loc] = v
        return [(st, r)]
    if name in ('operator++', 'operator--', 'fetch_add', 'fetch_sub', 'operator+=', 'operator-='):
        r = I.fresh('aa', X.sort_of(t))
        post = name.startswith('fetch') or (name in ('operator++', 'operator--') and ops)
        d = 1
        if not name.startswith('operator++') and not name.startswith('operator--'):
            d = V(I, st, ops[0], t)
        if name in ('operator--', 'fetch_sub', 'operator-='):
            d = scale(d, -1)
        st.ev('aadd', pos, loc, d, r)
        st.store.pop(loc, None)
        return [(st, r if post else add(r, d))]
    if name.startswith('compare_exchange'):
        el = op_loc(I, st, ops[0])
        exp = I.load(st, el, t)
        new = V(I, st, ops[1], t)
        s2 = st.copy()
        st.ev('acas', pos, loc, exp, new, True)
        st.store[loc] = new
        cur = I.fresh('al', X.sort_of(t))
        s2.ev('acas', pos, loc, exp, new, False)
        I.put(s2, el, cur)
        if X.sort_of(t) == 'b' and isinstance(exp, int) and name.endswith('strong'):
            I.put(s2, el, 1 - exp)
        return [(st, 1), (s2, 0)]
    if name == 'is_lock_free':
        return [(st, 1)]
    return None


# -- locks ------------------------------------------------------------------------

def lock_construct(I, st, fr, e, cls, ops):
    pos = e['p']
    if not ops:
        return [(st, ('ul', None, 0))]
    a = e['args'][0]
    if X.cls_of(a['t']) == cls and not X.is_pointer(a['t']):
        v = V(I, st, ops[0], a['t'])
        if isinstance(ops[0], tuple) and ops[0][0] == 'L':
            I.put(st, ops[0][1], ('ul', None, 0))
        return [(st, v)]
    m = op_loc(I, st, ops[0])
    if X.cls_of(a['t']) not in ('std::mutex', 'std::timed_mutex', 'std::shared_mutex', 'std::shared_timed_mutex'):
        st.note('lock of ' + a['t'])
    if len(ops) > 1:
        t = X.cls_of(e['args'][1]['t'])
        if t == 'std::defer_lock_t':
            return [(st, ('ul', m, 0))]
        if t == 'std::adopt_lock_t':
            return [(st, ('ul', m, 1))]
        if t == 'std::try_to_lock_t':
            s2 = st.copy()
            acquire(I, st, m, pos)
            return [(st, ('ul', m, 1)), (s2, ('ul', m, 0))]
        if cls == 'std::lock_guard':
            # scoped_lock over several mutexes
            ms = [op_loc(I, st, o) for o in ops]
            for x in ms:
                acquire(I, st, x, pos, 'x')
            return [(st, ('uls', tuple(ms)))]
    acquire(I, st, m, pos)
    return [(st, ('ul', m, 1))]


def lock_dtor(I, st, loc, t, pos):
    v = I.load(st, loc, t)
    if isinstance(v, tuple) and v[0] == 'ul':
        if v[2]:
            release(I, st, v[1], pos)
        st.store.pop(loc, None)
    elif isinstance(v, tuple) and v[0] == 'uls':
        for m in reversed(v[1]):
            release(I, st, m, pos)
        st.store.pop(loc, None)
    return [st]


def lock_call(I, st, fr, e, fn, name, loc, ops):
    pos = e['p']
    v = I.load(st, loc, fn['rec'])
    if not (isinstance(v, tuple) and v[0] == 'ul'):
        st.note('unknown lock state')
        return [(st, ret_of(I, e))]
    if name == 'unlock':
        if not v[2]:
            st.ev('badrel', pos, v[1], 'x')
            return [(st, 0)]
        release(I, st, v[1], pos)
        st.store[loc] = ('ul', v[1], 0)
        return [(st, 0)]
    if name == 'lock':
        if v[2]:
            st.ev('relock', pos, v[1])
            return [(st, 0)]
        acquire(I, st, v[1], pos)
        st.store[loc] = ('ul', v[1], 1)
        return [(st, 0)]
    if name == 'try_lock':
        s2 = st.copy()
        acquire(I, st, v[1], pos)
        st.store[loc] = ('ul', v[1], 1)
        return [(st, 1), (s2, 0)]
    if name == 'release':
        st.store[loc] = ('ul', None, 0)
        return [(st, ('ptr', v[1]) if v[1] is not None else 0)]
    if name == 'mutex':
        return [(st, ('ptr', v[1]) if v[1] is not None else 0)]
    if name in ('owns_lock', 'operator bool'):
        return [(st, int(bool(v[2])))]
    if name == 'operator=':
        if v[2]:
            release(I, st, v[1], pos)
        nv = V(I, st, ops[0], fn['rec'])
        if isinstance(ops[0], tuple) and ops[0][0] == 'L':
            I.put(st, ops[0][1], ('ul', None, 0))
        st.store[loc] = nv
        return [(st, ('L', loc))]
    return None


def mutex_call(I, st, fr, e, fn, name, loc, ops):
    pos = e['p']
    if name == 'lock':
        acquire(I, st, loc, pos)
        return [(st, 0)]
    if name == 'unlock':
        release(I, st, loc, pos)
        return [(st, 0)]
    if name == 'try_lock':
        s2 = st.copy()
        acquire(I, st, loc, pos)
        return [(st, 1), (s2, 0)]
    if name == 'lock_shared':
        acquire(I, st, loc, pos, 'r')
        return [(st, 0)]
    if name == 'unlock_shared':
        release(I, st, loc, pos, 'r')
        return [(st, 0)]
    return None


def cv_call(I, st, fr, e, fn, name, loc, ops):
    pos = e['p']
    if name in ('notify_one', 'notify_all'):
        st.ev('notify', pos, loc, name)
        return [(st, 0)]
    if name in ('wait', 'wait_for', 'wait_until'):
        lk = V(I, st, ops[0], 'std::unique_lock')
        m = lk[1] if isinstance(lk, tuple) and lk[0] == 'ul' else None
        timed = name != 'wait'
        npred = 2 if timed else 1
        pred = None
        if len(ops) > npred:
            pred = V(I, st, ops[npred], e['args'][npred]['t'])
        # the predicate as evaluated on entry (for the lost-wakeup rule)
        st.ev('wait', pos, loc, m, pred, timed, tuple(V(I, st, o, e["args"][i + 1]["t"]) for i, o in enumerate(ops[1:npred])))
        outs = []
        if m is not None:
            release(I, st, m, pos)
            acquire(I, st, m, pos)
        if pred is None:
            if timed:
                return [(st, I.fresh('cvst', 'i'))]
            return [(st, 0)]
        for s, v in call_function(I, st, fr, e, pred, [], pos, [], 'bool'):
            v = V(I, s, v, 'bool')
            for s2, b in I.fork(s, v):
                if b:
                    s2.ev('waited', pos, loc, True)
                    outs.append((s2, 1 if timed else 0))
                elif timed:
                    s2.ev('waited', pos, loc, False)
                    outs.append((s2, 0))
        return outs
    return None


def thread_construct(I, st, fr, e, cls, ops):
    if not ops:
        return [(st, ('thr', 0))]
    a = e['args'][0]
    if X.cls_of(a['t']) == 'std::thread' and not X.is_pointer(a['t']):
        v = V(I, st, ops[0], a['t'])
        if isinstance(ops[0], tuple) and ops[0][0] == 'L':
            I.put(st, ops[0][1], ('thr', 0))
        return [(st, v)]
    f = V(I, st, ops[0], a['t'])
    if isinstance(f, tuple) and f[0] == 'ptr':
        f = I.load(st, f[1], '?')
    tid = ('thr', I.newid())
    escape(I, st, f)
    rest = tuple(V(I, st, o, x['t']) for o, x in zip(ops[1:], e['args'][1:]))
    st.ev('thread', e['p'], f, tid, rest)
    return [(st, tid)]


def thread_call(I, st, fr, e, fn, name, loc, ops):
    pos = e['p']
    if name == 'joinable':
        v = I.load(st, loc, 'std::thread')
        if isinstance(v, tuple) and v[0] == 'thr':
            return [(st, int(v[1] != 0))]
        return [(st, ('app', 'joinable', v))]
    if name == 'join':
        v = I.load(st, loc, 'std::thread')
        st.ev('join', pos, loc, v)
        st.store[loc] = ('thr', 0)
        return [(st, 0)]
    if name == 'detach':
        st.ev('detach', pos, loc, I.load(st, loc, 'std::thread'))
        st.store[loc] = ('thr', 0)
        return [(st, 0)]
    if name == 'operator=':
        old = I.load(st, loc, 'std::thread')
        v = V(I, st, ops[0], 'std::thread')
        st.ev('thrset', pos, loc, v, old)
        if isinstance(ops[0], tuple) and ops[0][0] == 'L':
            I.put(st, ops[0][1], ('thr', 0))
        I.put(st, loc, v)
        return [(st, ('L', loc))]
    if name in ('get_id', 'hardware_concurrency'):
        return [(st, I.fresh('tid', 'u'))]
    if name == 'swap':
        o = op_loc(I, st, ops[0])
        a, b = I.load(st, loc, 'std::thread'), I.load(st, o, 'std::thread')
        I.put(st, loc, b)
        I.put(st, o, a)
        return [(st, 0)]
    return None


# -- iterators -------------------------------------------------------------------------

def it_call(I, st, fr, e, fn, name, loc, ops):
    v = I.load(st, loc, '?')
    if not (isinstance(v, tuple) and v[0] == 'it'):
        return None
    if name in ('operator*',):
        return [(st, elem_loc(I, st, v[1], v[2], e))]
    if name == 'operator->':
        return [(st, ('ptr', ('e', v[1], v[2])))]
    if name in ('operator++', 'operator--'):
        n = ('it', v[1], add(v[2], 1 if name == 'operator++' else -1))
        I.put(st, loc, n)
        return [(st, v if ops else ('L', loc))]
    if name in ('operator+', 'operator-'):
        o = V(I, st, ops[0], e['args'][0]['t'])
        if isinstance(o, tuple) and o[0] == 'it':
            return [(st, sub(v[2], o[2]))]
        return [(st, ('it', v[1], add(v[2], o) if name == 'operator+' else sub(v[2], o)))]
    if name in ('operator+=', 'operator-='):
        o = V(I, st, ops[0], e['args'][0]['t'])
        I.put(st, loc, ('it', v[1], add(v[2], o) if name == 'operator+=' else sub(v[2], o)))
        return [(st, ('L', loc))]
    if name == 'operator[]':
        return [(st, elem_loc(I, st, v[1], add(v[2], V(I, st, ops[0], 'long')), e))]
    return None


def mit_call(I, st, fr, e, fn, name, loc, ops):
    v = I.load(st, loc, '?')
    if not (isinstance(v, tuple) and v[0] in ('mit', 'mend')):
        return None
    if name == 'operator=' and ops:
        I.put(st, loc, V(I, st, ops[0], e['args'][0]['t']))
        return [(st, ('L', loc))]
    if v[0] == 'mend':
        st.ev('badit', e['p'], v[1])
        return [(st, I.fresh('bad', X.sort_of(e['t'])))] if name not in ('operator*',) else [(st, ('L', ('d', I.fresh('bad', 'p'))))]
    if name == 'operator->':
        return [(st, ('ptr', ('m', v[1], v[2])))]
    if name == 'operator*':
        return [(st, ('L', ('m', v[1], v[2])))]
    if name == 'operator++':
        s2 = st.copy()
        I.put(st, loc, ('mit', v[1], I.fresh('key', 'o')))
        I.put(s2, loc, ('mend', v[1]))
        return [(st, ('L', loc)), (s2, ('L', loc))]
    return None


def cmp_free(I, st, fr, e, fn, name, ops):
    a = V(I, st, ops[0], e['args'][0]['t'])
    b = V(I, st, ops[1], e['args'][1]['t']) if len(ops) > 1 else 0
    r = compare(I, st, e, a, b)
    if r is None:
        ta, tb = e['args'][0]['t'], e['args'][1]['t']
        if X.cls_of(ta) == 'std::string' or X.cls_of(tb) == 'std::string':
            a = as_seq(I, st, ops[0], ta)
            b = as_seq(I, st, ops[1], tb)
            if a == b'' or b == b'':
                o = b if a == b'' else a
                r = eq(seqlen(o), 0)
            else:
                r = eq(a, b)
        else:
            r = eq(a, b)
    if name == 'operator!=':
        r = neg(r)
    return [(st, r)]


def compare(I, st, e, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
            return eq(a[2], b[2])
        if a[0] in ('mit', 'mend') and b[0] in ('mit', 'mend'):
            if a[0] == b[0] == 'mend':
                return 1
            if a[0] != b[0]:
                return 0
            return eq(a[2], b[2])
    return None


# -- construction ---------------------------------------------------------------------

def read_args(I, st, e, fn, ops):
    """Log the reads of objects that a library function takes by value or by
    constant or rvalue reference."""
    if not I.log:
        return
    for o, t in zip(ops, fn.get('pt') or ()):
        if isinstance(o, tuple) and o and o[0] == 'L' and not (X.is_ref(t) and 'const ' not in t and not t.rstrip().endswith('&&')):
            I.acc(st, o[1], 'r', e['p'])


def construct(I, st, fr, e, cls, ops):
    read_args(I, st, e, e['fn'], ops)
    if cls in ('std::function', 'std::pair') and e['fn'].get('cm') == 'move' and isinstance(ops[0], tuple) \
            and ops[0][0] == 'L' and T.root(ops[0][1])[0] == 'o':
        st.ev('movefrom', e['p'], ops[0][1])
    if cls in SEQ_CLASSES:
        return seq_ctor(I, st, fr, e, cls, ops)
    if cls in ('std::shared_ptr', 'std::unique_ptr'):
        return sp_construct(I, st, fr, e, cls, ops)
    if cls in ('std::unique_lock', 'std::lock_guard', 'std::shared_lock'):
        if cls == 'std::shared_lock':
            m = op_loc(I, st, ops[0])
            acquire(I, st, m, e['p'], 'r')
            return [(st, ('uls', (m,)))]
        return lock_construct(I, st, fr, e, cls, ops)
    if cls == 'std::thread':
        return thread_construct(I, st, fr, e, cls, ops)
    if cls == 'std::function':
        if not ops:
            return [(st, 0)]
        a = e['args'][0]
        v = V(I, st, ops[0], a['t'])
        if e['fn'].get('cm') == 'move' and isinstance(ops[0], tuple) and ops[0][0] == 'L' and ops[0][1][0] not in ('val', 'str'):
            I.put(st, ops[0][1], 0)
        return [(st, v)]
    if cls == 'std::atomic':
        v = V(I, st, ops[0], targ(e['t'])) if ops else ('undef', 'atomic')
        return [(st, v)]
    if cls in ('std::mutex', 'std::condition_variable', 'std::once_flag'):
        return [(st, ('obj', cls))]
    if cls in ('std::unordered_map', 'std::unordered_set'):
        if not ops:
            return [(st, ('map0', I.newid()))]
        return [(st, V(I, st, ops[0], e['args'][0]['t']))]
    if cls == 'std::pair':
        if not ops:
            return [(st, 0)]
        if len(ops) == 1:
            v = V(I, st, ops[0], e['args'][0]['t'])
            if e['fn'].get('cm') == 'move' and isinstance(ops[0], tuple) and ops[0][0] == 'L' and ops[0][1][0] not in ('val', 'str'):
                pass
            return [(st, v)]
        vs = [V(I, st, o, a['t']) for o, a in zip(ops, e['args'])]
        return [(st, ('rec', None, (('first', vs[0]), ('second', vs[1]))))]
    if cls in ('miter', 'iter') and len(ops) == 1 and X.cls_of(e['args'][0]['t']) == cls:
        return [(st, V(I, st, ops[0], e['args'][0]['t']))]     # iterator -> const_iterator
    if cls == 'std::tuple':
        if len(ops) == 1 and X.cls_of(e['args'][0]['t']) in ('std::tuple', 'std::pair'):
            return [(st, V(I, st, ops[0], e['args'][0]['t']))]
        return [(st, ('tup',) + tuple(V(I, st, o, a['t']) for o, a in zip(ops, e['args'])))]
    if I.lib_construct:
        r = I.lib_construct(I, st, fr, e, cls, ops)
        if r is not None:
            return r
    if len(ops) == 1 and (e['fn'].get('cm') in ('copy', 'move') or X.noref(e['args'][0]['t']) == X.noref(e['t'])):
        return [(st, V(I, st, ops[0], e['args'][0]['t']))]
    if not ops:
        return [(st, ('app', 'new', cls))]
    return [(st, ('app', 'new', cls) + tuple(V(I, st, o, a['t']) for o, a in zip(ops, e['args'])))]


# -- dispatch ---------------------------------------------------------------------------

def call(I, st, fr, e, fn, loc, ops):
    q = X.untemplate(fn['q'])
    rec = fn.get('rec')
    read_args(I, st, e, fn, ops)
    name = q.split('::')[-1] if 'operator' not in q else q[q.rfind('operator'):]
    if name.startswith('operator ') and name not in ('operator new', 'operator delete'):
        name = name
    cls = X.cls_of(rec) if rec else None
    if I.lib_call:
        r = I.lib_call(I, st, fr, e, fn, q, cls, name, loc, ops)
        if r is not None:
            return r
    r = None
    if cls is not None and (loc is not None):
        if cls in SEQ_CLASSES:
            r = seq_call(I, st, fr, e, fn, name, loc, ops)
        elif cls in ('std::shared_ptr', 'std::unique_ptr'):
            r = sp_call(I, st, fr, e, fn, name, loc, ops, cls == 'std::shared_ptr')
        elif cls == 'std::function':
            r = function_call(I, st, fr, e, fn, name, loc, ops)
        elif cls in ('std::unordered_map', 'std::unordered_set'):
            r = map_call(I, st, fr, e, fn, name, loc, ops, cls == 'std::unordered_set')
        elif cls == 'std::atomic':
            r = atom_call(I, st, fr, e, fn, name, loc, ops)
        elif cls in ('std::unique_lock', 'std::lock_guard'):
            r = lock_call(I, st, fr, e, fn, name, loc, ops)
        elif cls in ('std::mutex', 'std::timed_mutex', 'std::shared_mutex', 'std::shared_timed_mutex'):
            r = mutex_call(I, st, fr, e, fn, name, loc, ops)
        elif cls == 'std::condition_variable':
            r = cv_call(I, st, fr, e, fn, name, loc, ops)
        elif cls == 'std::thread':
            r = thread_call(I, st, fr, e, fn, name, loc, ops)
        elif cls == 'iter':
            r = it_call(I, st, fr, e, fn, name, loc, ops)
        elif cls == 'miter':
            r = mit_call(I, st, fr, e, fn, name, loc, ops)
        elif cls == 'std::pair' and name == 'operator=':
            v = V(I, st, ops[0], e['args'][0]['t'])
            I.acc(st, loc, 'w', e['p'])
            I.put(st, loc, v)
            st.ev('set', e['p'], loc, v)
            r = [(st, ('L', loc))]
        elif cls == 'std::tuple' and name == 'operator=':
            r = tie_assign(I, st, loc, ops, e)
        elif name == 'operator=' and fn.get('cm') in ('copy=', 'move='):
            I.put(st, loc, V(I, st, ops[0], rec))
            r = [(st, ('L', loc))]
    else:
        h = FREE.get(q)
        if h is None and q.startswith('std::') and name in ('operator==', 'operator!='):
            r = cmp_free(I, st, fr, e, fn, name, ops)
        elif h is not None:
            r = h(I, st, fr, e, fn, ops)
    if r is not None:
        return r
    # unknown library function
    I.unmodelled[q] = I.unmodelled.get(q, 0) + 1
    args = I.evargs(st, ops, fn['pt'])
    ret = 0 if e['t'] == 'void' else I.fresh(name, X.sort_of(e['t']))
    st.ev('lib', e['p'], q, loc, args, ret)
    for o in ops:
        escape(I, st, V(I, st, o))
    I.clobber(st, ops, fn['pt'])
    if loc is not None and not fn.get('const') and loc[0] not in ('val', 'str'):
        I.havoc(st, loc)
    if e.get('lv'):
        return [(st, ('L', ('d', I.fresh('ref', 'p'))))]
    return [(st, ret)]


def function_call(I, st, fr, e, fn, name, loc, ops):
    if name == 'operator()':
        I.acc(st, loc, 'r', e['p'])
        f = I.load(st, loc, fn['rec'])
        pts = sig_params(fn['rec'])
        return call_function(I, st, fr, e, f, ops, e['p'], pts or fn['pt'], e['t'])
    if name == 'operator bool':
        I.acc(st, loc, 'r', e['p'])
        f = I.load(st, loc, fn['rec'])
        return [(st, neg(eq(f, 0)))]
    if name == 'operator=':
        v = V(I, st, ops[0], e['args'][0]['t'])
        I.acc(st, loc, 'w', e['p'])
        pt = fn['pt'][0] if fn['pt'] else ''
        same = isinstance(ops[0], tuple) and ops[0][0] == 'L' and ops[0][1] == loc
        if not same:
            I.put(st, loc, v)
            if pt.endswith('&&') and isinstance(ops[0], tuple) and ops[0][0] == 'L' and ops[0][1][0] not in ('val', 'str') \
                    and X.cls_of(e['args'][0]['t']) == 'std::function':
                I.put(st, ops[0][1], 0)
        st.ev('set', e['p'], loc, v)
        return [(st, ('L', loc))]
    if name == 'swap':
        o = op_loc(I, st, ops[0])
        a, b = I.load(st, loc, fn['rec']), I.load(st, o, fn['rec'])
        I.put(st, loc, b)
        I.put(st, o, a)
        return [(st, 0)]
    return None


def sig_params(t):
    """Parameter types of std::function<R(A, B)>"""
    a = targ_full(t)
    i = a.find('(')
    if i < 0:
        return None
    body = a[i + 1:a.rfind(')')]
    out, depth, cur = [], 0, ''
    for ch in body:
        if ch in '<(':
            depth += 1
        if ch in '>)':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def targ_full(t):
    t = X.noref(t)
    i = t.find('<')
    return t[i + 1:t.rfind('>')] if i >= 0 else t


def tie_assign(I, st, loc, ops, e):
    t = I.load(st, loc, '?')
    v = V(I, st, ops[0], e['args'][0]['t'])
    if not (isinstance(t, tuple) and t[0] == 'tie'):
        return None
    if isinstance(v, tuple) and v[0] == 'tup':
        vals = v[1:]
    else:
        vals = (I.project(v, 'first'), I.project(v, 'second'))
    for l, x in zip(t[1], vals):
        if l is not None:
            I.put(st, l, x)
    return [(st, ('L', loc))]


# -- free functions -------------------------------------------------------------------------

def f_move(I, st, fr, e, fn, ops):
    return [(st, ops[0])]


def f_minmax(ismin):
    def f(I, st, fr, e, fn, ops):
        a = V(I, st, ops[0], X.noref(fn['pt'][0]))
        b = V(I, st, ops[1], X.noref(fn['pt'][1]) if len(fn['pt']) > 1 else 'int')
        out = []
        for s, t in I.fork(st, le(a, b)):
            out.append((s, (a if t else b) if ismin else (b if t else a)))
        return out
    return f


def f_to_string(I, st, fr, e, fn, ops):
    v = V(I, st, ops[0], fn['pt'][0])
    if isinstance(v, int):
        return [(st, str(v).encode())]
    return [(st, ('app', 'dec', v))]


def f_make_shared(I, st, fr, e, fn, ops):
    t = targ(e['t'])
    if not t or t == '?':
        return None
    return make_object(I, st, fr, e, fn, ops, t)


def make_object(I, st, fr, e, fn, ops, t):
    loc = ('h', I.newid(), t)
    st.ev('new', e['p'], ('ptr', loc), t, None)
    if not I.is_repo_rec(t):
        return [(st, ('ptr', loc))]
    st.store[('dyn', loc)] = t
    rec = I.P.recs[t]
    best = None
    cands = [f for f in I.P.fns.values() if f.kind == 'ctor' and f.rec == t and len(f.params) == len(ops)]
    if not cands:
        if not ops:
            for fl in rec['fields']:
                pass
            return [(st, ('ptr', loc))]
        st.note('make_shared ctor of ' + t)
        return [(st, ('ptr', loc))]
    if len(cands) > 1:
        def score(f):
            n = 0
            for p, a in zip(f.params, e['args']):
                x, y = X.noref(p['t']), X.noref(a['t'])
                if x == y:
                    n += 2
                elif X.sort_of(x) == X.sort_of(y):
                    n += 1
            return n
        cands.sort(key=lambda f: -score(f))
    f = cands[0]
    ops2 = []
    for p, o, a in zip(f.params, ops, e['args']):
        if X.cls_of(p['t']) == 'std::string' and not X.is_pointer(p['t']) and (X.is_pointer(a['t']) or a['t'].endswith(']') or
                                                                              X.is_pointer(X.noref(a['t']))):
            o = as_seq(I, st, o, X.noref(a['t']))
        elif not X.is_ref(p['t']):
            o = V(I, st, o, p['t'])
        ops2.append(o)
    return [(s, ('ptr', loc)) for s, _ in I.invoke(f.key, loc, ops2, st, e['p'])]


def f_memcpy(I, st, fr, e, fn, ops):
    d, s, n = V(I, st, ops[0], 'void *'), V(I, st, ops[1], 'void *'), V(I, st, ops[2], 'unsigned long')
    st.ev('memcpy', e['p'], d, s, n)
    put_range(I, st, d, range_of(I, st, s, n), e['p'])
    return [(st, d)]


def f_memset(I, st, fr, e, fn, ops):
    d, c, n = V(I, st, ops[0], 'void *'), V(I, st, ops[1], 'int'), V(I, st, ops[2], 'unsigned long')
    st.ev('memset', e['p'], d, c, n)
    if T.is_ptr(d):
        b = d[1][1] if d[1][0] == 'e' else d[1]
        I.havoc(st, b)
    put_range(I, st, d, mkseq([('gen', c, n)]), e['p'])
    return [(st, d)]


def f_memcmp(I, st, fr, e, fn, ops):
    a, b, n = V(I, st, ops[0], 'void *'), V(I, st, ops[1], 'void *'), V(I, st, ops[2], 'unsigned long')
    x, y = range_of(I, st, a, n), range_of(I, st, b, n)
    return [(st, neg(eq(x, y)))]


def f_strlen(I, st, fr, e, fn, ops):
    p = V(I, st, ops[0], 'char *')
    s = cstring(I, st, p)
    n = seqlen(s)
    if T.is_ptr(p) and any(q[0] == 'sl' and isinstance(q[1], tuple) and q[1][0] == 'v' and q[1][1][0] == 'd' for q in T.parts_of(s)):
        # arbitrary bytes (a caller's buffer): a NUL may come first
        r = ('app', 'strlen', s)
        st.facts.assume(le(r, n), True)
        return [(st, r)]
    return [(st, n)]


def f_strcmp(I, st, fr, e, fn, ops):
    a, b = cstring(I, st, V(I, st, ops[0], 'char *')), cstring(I, st, V(I, st, ops[1], 'char *'))
    return [(st, neg(eq(a, b)))]


def f_strchr(I, st, fr, e, fn, ops):
    p, c = V(I, st, ops[0], 'char *'), V(I, st, ops[1], 'int')
    s = cstring(I, st, p)
    if isinstance(s, bytes) and T.is_ptr(p):
        out = []
        cur = [st]
        for i, ch in enumerate(s + b'\0'):
            nxt = []
            for x in cur:
                for y, b in I.fork(x, eq(c, ch)):
                    if b:
                        out.append((y, add(p, i)))
                    else:
                        nxt.append(y)
            cur = nxt
        return out + [(x, 0) for x in cur]
    return [(st, ('app', 'strchr', s, c))]


def f_vsnprintf(I, st, fr, e, fn, ops):
    buf, n, fmt = V(I, st, ops[0], 'char *'), V(I, st, ops[1], 'unsigned long'), V(I, st, ops[2], 'char *')
    st.ev('fmt', e['p'], X.untemplate(fn['q']), buf, n, fmt)
    if T.is_ptr(buf):
        loc = buf[1]
        base = loc[1] if loc[0] == 'e' else loc
        st.store.pop(('wl', base), None)
        st.store[('cstr', base)] = ('app', 'fmt', cstring(I, st, fmt), I.newid())
    return [(st, I.fresh('vsn', 'i'))]


def f_va(I, st, fr, e, fn, ops):
    st.ev('va', e['p'], fn['q'])
    return [(st, 0)]


def f_pair(I, st, fr, e, fn, ops):
    vs = [V(I, st, o, X.noref(a['t'])) for o, a in zip(ops, e['args'])]
    return [(st, ('rec', None, (('first', vs[0]), ('second', vs[1]))))]


def f_tie(I, st, fr, e, fn, ops):
    return [(st, ('tie', tuple(o[1] if isinstance(o, tuple) and o[0] == 'L' else None for o in ops)))]


def f_swap(I, st, fr, e, fn, ops):
    a, b = op_loc(I, st, ops[0]), op_loc(I, st, ops[1])
    t = X.noref(fn['pt'][0]) if fn['pt'] else '?'
    va, vb = I.load(st, a, t), I.load(st, b, t)
    I.acc(st, a, 'w', e['p'])
    I.acc(st, b, 'w', e['p'])
    I.put(st, a, vb)
    I.put(st, b, va)
    return [(st, 0)]


def f_strplus(I, st, fr, e, fn, ops):
    a0, a1 = e['args'][0], e['args'][1]
    v0 = V(I, st, ops[0], a0['t'])
    if isinstance(v0, tuple) and v0[0] == 'it':
        return [(st, ('it', v0[1], add(v0[2], V(I, st, ops[1], a1['t']))))]
    x = as_seq(I, st, ops[0], a0['t'])
    y = as_seq(I, st, ops[1], a1['t'])
    return [(st, concat(x, y))]


def f_minus(I, st, fr, e, fn, ops):
    a, b = V(I, st, ops[0], '?'), V(I, st, ops[1], '?')
    if isinstance(a, tuple) and a[0] == 'it' and isinstance(b, tuple) and b[0] == 'it' and a[1] == b[1]:
        return [(st, sub(a[2], b[2]))]
    return None


def f_addressof(I, st, fr, e, fn, ops):
    return [(st, ('ptr', op_loc(I, st, ops[0])))]


def f_exchange(I, st, fr, e, fn, ops):
    l = op_loc(I, st, ops[0])
    t = X.noref(fn['pt'][0])
    old = I.load(st, l, t)
    v = V(I, st, ops[1], X.noref(fn['pt'][1]))
    I.acc(st, l, 'r', e['p'])
    I.acc(st, l, 'w', e['p'])
    I.put(st, l, v)
    st.ev('set', e['p'], l, v)
    return [(st, old)]


def f_get(I, st, fr, e, fn, ops):
    ta = fn.get('targs') or []
    try:
        i = int(ta[0])
    except Exception:
        return None
    op = ops[0]
    if isinstance(op, tuple) and op[0] == 'L' and X.cls_of(fn['pt'][0]) == 'std::pair':
        return [(st, ('L', ('f', op[1], 'first' if i == 0 else 'second')))]
    v = V(I, st, op, '?')
    if isinstance(v, tuple) and v[0] == 'tup':
        return [(st, v[1 + i])]
    if isinstance(v, tuple) and v[0] == 'tie' and v[1][i] is not None:
        return [(st, ('L', v[1][i]))]
    return [(st, I.project(v, 'first' if i == 0 else 'second'))]


def f_copy(I, st, fr, e, fn, ops):
    """std::copy / copy_n / move range into pointer or back_inserter"""
    a = V(I, st, ops[0], e['args'][0]['t'])
    b = V(I, st, ops[1], e['args'][1]['t'])
    d = V(I, st, ops[2], e['args'][2]['t'])
    q = X.untemplate(fn['q'])
    if q.endswith('copy_n'):
        n = b
    elif isinstance(a, tuple) and a[0] == 'it' and isinstance(b, tuple) and b[0] == 'it':
        n = sub(b[2], a[2])
    else:
        n = sub(b, a)
    if isinstance(d, tuple) and d[0] == 'binsert':
        s = range_of(I, st, a, n)
        cset(I, st, d[1], concat(cval(I, st, d[1]), s), e['p'], 'append')
        return [(st, d)]
    s = range_of(I, st, a, n)
    if T.is_ptr(d) or not (isinstance(d, tuple) and d[0] == 'it'):
        put_range(I, st, d, s, e['p'])
        return [(st, add(d, n))]
    return None


def f_back_inserter(I, st, fr, e, fn, ops):
    return [(st, ('binsert', op_loc(I, st, ops[0])))]


def f_begin(end):
    def f(I, st, fr, e, fn, ops):
        l = op_loc(I, st, ops[0])
        t = X.cls_of(fn['pt'][0])
        if t in SEQ_CLASSES:
            return [(st, ('it', l, seqlen(cval(I, st, l)) if end else 0))]
        if t in ('std::unordered_map',):
            return [(st, ('mend', l) if end else ('mit', l, I.fresh('key', 'o')))]
        return None
    return f


def f_next(I, st, fr, e, fn, ops):
    v = V(I, st, ops[0], '?')
    n = V(I, st, ops[1], 'long') if len(ops) > 1 else 1
    if isinstance(v, tuple) and v[0] == 'it':
        return [(st, ('it', v[1], add(v[2], n)))]
    return None


def f_equal(I, st, fr, e, fn, ops):
    if len(ops) != 3:
        return None
    a, b, c = [V(I, st, o, x['t']) for o, x in zip(ops, e['args'])]
    if isinstance(a, tuple) and a[0] == 'it' and isinstance(b, tuple) and b[0] == 'it':
        n = sub(b[2], a[2])
    else:
        n = sub(b, a)
    return [(st, eq(range_of(I, st, a, n), range_of(I, st, c, n)))]


def f_stdlock(I, st, fr, e, fn, ops):
    for o in ops:
        l = op_loc(I, st, o)
        v = st.store.get(l)
        if isinstance(v, tuple) and v[0] == 'ul':
            acquire(I, st, v[1], e['p'])
            st.store[l] = ('ul', v[1], 1)
        else:
            acquire(I, st, l, e['p'])
    return [(st, 0)]


def f_sys(I, st, fr, e, fn, ops):
    q = X.untemplate(fn['q'])
    args = I.evargs(st, ops, fn['pt'])
    ret = 0 if e['t'] == 'void' else I.fresh(q, X.sort_of(e['t']))
    if I.sys_hook:
        I.sys_hook(I, st, q, args, ret, e['p'], 0)
    I.havoc(st, ERRNO)
    st.ev('sys', e['p'], q, args, ret)
    if q in ('recv', 'read', 'fread'):
        b = ops[0] if q == 'fread' else ops[1]
        if T.is_ptr(b):
            l = b[1][1] if b[1][0] == 'e' else b[1]
            I.havoc(st, l)
    elif q == 'getaddrinfo':
        l = ops[3]
        if T.is_ptr(l):
            # a failed look-up leaves the pointer as it was
            s2 = st.copy()
            st.facts.assume(eq(ret, 0), True)
            v = I.fresh('info', 'p')
            st.facts.assume(eq(v, 0), False)
            st.store[l[1]] = v
            s2.facts.assume(eq(ret, 0), False)
            return [(st, ret), (s2, ret)]
    elif q not in ('bind', 'connect', 'listen', 'send', 'write', 'setsockopt', 'shutdown', 'close', 'fwrite', 'fclose', 'fgetc',
                   'fflush', 'freeaddrinfo', 'fcntl'):
        I.clobber(st, ops, fn['pt'])
    if q in ('recv', 'send', 'read', 'write'):
        st.facts.assume(le(-1, ret), True)
        n = V(I, st, ops[2], 'unsigned long')
        st.facts.assume(le(ret, n), True)
    if q in ('accept', 'socket', 'fgetc', 'fcntl', 'connect', 'bind', 'listen', 'select', 'poll', 'shutdown', 'getsockopt',
             'setsockopt'):
        st.facts.assume(le(-1, ret), True)
    if q.split('::')[-1] in ('fgetc', 'getc'):
        st.facts.assume(le(-1, ret), True)
        st.facts.assume(le(ret, 255), True)
    if I.sys_hook:
        out = I.sys_hook(I, st, q, args, ret, e['p'], 1)
        if out is not None:
            return out
    return [(st, ret)]


def f_call_once(I, st, fr, e, fn, ops):
    fl = op_loc(I, st, ops[0])
    f = V(I, st, ops[1], e['args'][1]['t'])
    st.ev('once', e['p'], fl, f)
    s2 = st.copy()
    out = [(s, 0) for s, _ in call_function(I, st, fr, e, f, [], e['p'], [], 'void')]
    return out + [(s2, 0)]


def f_abort(I, st, fr, e, fn, ops):
    st.ev('abort', e['p'], fn['q'])
    if I.aborts is not None:
        I.aborts.append((st, e['p']))
    return []


ERRNO = ('d', ('sym', 'errno', 0, 'p'))


def f_errno(I, st, fr, e, fn, ops):
    return [(st, ('ptr', ERRNO))]


def f_make_unique(I, st, fr, e, fn, ops):
    return f_make_shared(I, st, fr, e, fn, ops)


FREE = {
    'std::move': lambda I, st, fr, e, fn, ops: f_move(I, st, fr, e, fn, ops) if len(ops) == 1 else f_copy(I, st, fr, e, fn, ops),
    'std::forward': f_move, 'std::move_if_noexcept': f_move, 'std::ref': f_move, 'std::cref': f_move,
    'std::min': f_minmax(True), 'std::max': f_minmax(False),
    'std::to_string': f_to_string, 'std::make_shared': f_make_shared, 'std::make_unique': f_make_unique,
    'memcpy': f_memcpy, 'std::memcpy': f_memcpy, 'memmove': f_memcpy, 'std::memmove': f_memcpy,
    'memset': f_memset, 'std::memset': f_memset, 'memcmp': f_memcmp, 'std::memcmp': f_memcmp,
    'strlen': f_strlen, 'std::strlen': f_strlen, 'strchr': f_strchr, 'std::strchr': f_strchr,
    'strcmp': f_strcmp, 'std::strcmp': f_strcmp,
    'vsnprintf': f_vsnprintf, 'std::vsnprintf': f_vsnprintf, 'snprintf': f_vsnprintf, 'std::snprintf': f_vsnprintf,
    '__builtin_va_start': f_va, '__builtin_va_end': f_va, '__builtin_va_copy': f_va,
    'std::make_pair': f_pair, 'std::tie': f_tie, 'std::swap': f_swap, 'std::operator+': f_strplus,
    'std::operator-': f_minus, 'std::addressof': f_addressof, '__builtin_addressof': f_addressof, 'std::exchange': f_exchange,
    'std::get': f_get, 'std::copy': f_copy, 'std::copy_n': f_copy, 'std::back_inserter': f_back_inserter,
    'std::begin': f_begin(False), 'std::end': f_begin(True), 'std::next': f_next, 'std::equal': f_equal,
    'std::lock': f_stdlock, 'std::call_once': f_call_once,
    'abort': f_abort, 'std::abort': f_abort, 'exit': f_abort, 'std::terminate': f_abort, '_exit': f_abort,
    '__assert_fail': f_abort, '__errno_location': f_errno,
}
for _n in ('socket', 'bind', 'listen', 'accept', 'connect', 'close', 'shutdown', 'recv', 'send', 'setsockopt', 'getsockopt',
           'fcntl', 'select', 'getaddrinfo', 'freeaddrinfo', 'fopen', 'fclose', 'fgetc', 'getc', 'fread', 'fwrite', 'fflush',
           'read', 'write', 'poll', 'std::fclose', 'std::fopen', 'std::fwrite', 'std::fread', 'std::fflush', 'std::fgetc', 'usleep',
           'sendto', 'sendmsg', 'writev', 'signal', 'dup', 'ioctl', 'fputc', 'putc', 'ungetc', 'feof', 'ferror'):
    FREE[_n] = f_sys


def prim_call(I, st, fr, e, loc, ops):
    """dap::RWMutex as a primitive lock (its own implementation is C16)."""
    name = e['fn']['q'].split('::')[-1]
    pos = e['p']
    if name == 'lockReader':
        acquire(I, st, loc, pos, 'r')
    elif name == 'unlockReader':
        release(I, st, loc, pos, 'r')
    elif name == 'lockWriter':
        acquire(I, st, loc, pos, 'w')
    elif name == 'unlockWriter':
        release(I, st, loc, pos, 'w')
    else:
        st.note('prim ' + name)
        return [(st, ret_of(I, e))]
    return [(st, 0)]


def range_for(I, s, st, fr):
    return None


def on_loop(I, s, st0, h, backs, lev, fr):
    if I.loop_hook:
        I.loop_hook(I, s, st0, h, backs, lev, fr)


def install(I):
    I.dtors = {
        'std::unique_lock': lock_dtor, 'std::lock_guard': lock_dtor, 'std::shared_lock': lock_dtor,
        'std::shared_ptr': sp_dtor(True), 'std::unique_ptr': sp_dtor(False),
        'std::thread': thread_dtor,
    }
    I.acq_hook = None
    I.acq_post = None
    I.rel_hook = None
    I.loop_hook = None
    I.lib_call = None
    I.alloc = None
    I.lib_construct = None
    I.keep_on_acquire = lambda st, fl: False
    I.atomic_private = lambda st, loc: False


def thread_dtor(I, st, loc, t, pos):
    v = I.load(st, loc, t)
    if isinstance(v, tuple) and v[0] == 'thr' and v[1] == 0:
        return [st]
    if isinstance(v, tuple) and v[0] == 'undef':
        return [st]
    if isinstance(v, tuple) and v[0] != 'thr':
        j = st.facts.decide(('app', 'joinable', v))
        if j is False:
            return [st]
    st.ev('thrdtor', pos, loc, v)
    return [st]
