"""Models of the three JSON libraries (nlohmann, RapidJSON, JsonCpp), of dap::any
and of the containers of dynamic values, over tree-shaped values:

  ('J', kind, payload)   a JSON value; payload of 'arr': nodes, of 'obj': (key, node) or None where a member was removed
  ('any', T, value)      a dynamic value holding a T; T None: null
  ('vec', (v, ...))      a vector of dynamic values
  ('dobj', (entry, ...)) an unordered_map; an entry is a pair

A child of a tree at location l is the location ('f', l, '#i')."""
import terms as T
import interp as X
import models as M
from terms import add, sub, eq, neg, seqlen

INTS = ('i-', 'i+', 'u32', 'i64', 'n64', 'u64')
REALS = ('frac', 'whole')
NULLJ = ('J', 'null', 0)


class Give(X.Undecided):
    pass


def is_tree(v):
    return isinstance(v, tuple) and v and v[0] in ('J', 'any', 'vec', 'dobj')


def istc(l):
    return l[0] == 'f' and (l[2][:1] == '#' or istc(l[1])) if l[0] == 'f' else False


class JInterp(X.Interp):
    UNROLL = 400
    inner = False                  # analyse arrays and objects inside others as well
    MAXSTEPS = 150000

    def __init__(self, P):
        X.Interp.__init__(self, P)
        self.nojoin = True
        self.doc = None            # the document the text denotes
        self.text = ('o', 'text')
        self.bad = []              # (pos, what, definite)
        self.lib_call = lib_call
        self.lib_construct = lib_construct
        self.cb = None
        self.rootloc = None
        self.summ['dap::any::operator='] = any_assign
        self.summ['dap::any::get'] = any_get
        self.summ['dap::any::is'] = any_is
        self.summ['dap::any::reset'] = any_reset
        self.summ['dap::Serializer::get_any_type'] = any_type
        self.summ['dap::Serializer::get_any_val'] = any_val
        self.summ['dap::TypeOf::type'] = typeof
        self.contract['dap::Deserializer'] = nested_decode
        self.contract['dap::Serializer'] = nested_encode
        self.icalls['dap::TypeInfo::serialize'] = ti_ser
        self.icalls['dap::TypeInfo::deserialize'] = ti_deser

    # -- trees ------------------------------------------------------------------
    def project(self, v, name):
        if isinstance(v, tuple) and v and name[:1] == '#':
            if v[0] == 'any':
                return v[2]
            kids = v[2] if v[0] == 'J' else v[1] if v[0] in ('vec', 'dobj') else None
            if name[1] == 'm':
                k = kids[int(name[2:])]
                return ('rec', None, (('name', ('J', 'str', k[0])), ('value', k[1])))
            if isinstance(kids, tuple) and name[1:].isdigit() and int(name[1:]) < len(kids):
                k = kids[int(name[1:])]
                if v[0] == 'J' and v[1] == 'obj':
                    return ('undef', 'removed') if k is None else k[1]
                return k
            raise Give('child %s of %s' % (name, str(v)[:40]))
        return X.Interp.project(self, v, name)

    def setproj(self, v, name, x):
        if name[:1] == '#':
            if v[0] == 'any':
                return ('any', v[1], x)
            if name[1] == 'm':
                i = int(name[2:])
                return ('J', v[1], v[2][:i] + ((self.project(x, 'name')[2], self.project(x, 'value')),) + v[2][i + 1:])
            i = int(name[1:])
            if v[0] == 'J':
                if v[1] == 'obj':
                    x = (v[2][i][0], x)
                return ('J', v[1], v[2][:i] + (x,) + v[2][i + 1:])
            return (v[0], v[1][:i] + (x,) + v[1][i + 1:])
        if isinstance(v, tuple) and v and v[0] == 'rec':
            return ('rec', v[1], tuple(sorted([(n, y) for n, y in v[2] if n != name] + [(name, x)], key=lambda p: p[0])))
        if v == 0 or isinstance(v, tuple) and v and v[0] == 'undef':
            return ('rec', None, ((name, x),))
        return ('rec', v, ((name, x),))

    def put(self, st, loc, v):
        if istc(loc):
            if st.store.get(loc) is not None:
                del st.store[loc]
            pv = self.load(st, loc[1], '?')
            self.put(st, loc[1], self.setproj(pv, loc[2], v))
            return
        X.Interp.put(self, st, loc, v)

    def construct(self, e, loc, st, fr):
        if e['fn']['rec'] == 'dap::any':
            out = []
            for s, ops in self.args(e['args'], st, fr):
                if not ops:
                    self.put(s, loc, ('any', None, 0))
                else:
                    any_store(self, s, loc, e['fn'], ops[0], e['p'])
                out.append(s)
            return out
        return X.Interp.construct(self, e, loc, st, fr)

    def destroy(self, st, loc, t, pos):
        if X.noref(t) == 'dap::any':
            return [st]
        keep, self.contract = self.contract, {}
        try:
            return X.Interp.destroy(self, st, loc, t, pos)
        finally:
            self.contract = keep

    def contract_applies(self, b, fn, st, loc):
        if not fn.get('virt') or loc is None or fn.get('kind') == 'dtor':
            return False
        n = node_of(self, st, loc)
        if b == 'dap::Deserializer':
            return n is not None and jval(self, st, n)[1] == 'abs'
        name = fn['q'].split('::')[-1]
        if self.rootloc is None:
            self.rootloc = n           # the first serialiser that is used is the outermost
        if self.inner and name != 'serialize':
            return False
        return name in ('serialize', 'array', 'object') and n is not None and n != self.rootloc

    def is_prim(self, rec):
        return rec in self.prims

    def ucall(self, st, f, ops, pts, e, rett):
        if self.cb is not None:
            r = self.cb(self, st, f, ops, e)
            if r is not None:
                return r
        return X.Interp.ucall(self, st, f, ops, pts, e, rett)

    RANGE = {'i-': (-2 ** 31, -1), 'i+': (0, 2 ** 31 - 1), 'u32': (2 ** 31, 2 ** 32 - 1), 'i64': (2 ** 32, 2 ** 63 - 1),
             'n64': (-2 ** 63, -2 ** 31 - 1), 'u64': (2 ** 63, 2 ** 64 - 1)}

    def int_cast(self, st, v, e):
        w = self.WIDTH.get(X.noref(e['t']))
        if v == ('v', ('o', 'n'), 0, 'i') and w and w[0] < 64:
            lo, hi = self.RANGE.get(self.doc[1], (-2 ** 63, 2 ** 63 - 1)) if self.doc else (-2 ** 63, 2 ** 63 - 1)
            tl, th = (-2 ** (w[0] - 1), 2 ** (w[0] - 1) - 1) if w[1] else (0, 2 ** w[0] - 1)
            return v if tl <= lo and hi <= th else ('app', 'modulo', 2 ** w[0], v)
        return X.Interp.int_cast(self, st, v, e)

    def zterm(self, st, base):
        """A string read up to its first NUL."""
        if base[0] == 'val':
            v = base[1]
        elif base[0] == 'str':
            return None
        else:
            v = st.store.get(base)
        if isinstance(v, bytes):
            return v.split(b'\0')[0]
        if isinstance(v, tuple) and v and v[0] == 'v' and v[3] == 'o':
            return ('app', 'upto0', v)
        return None

    def check_deref(self, st, p, pos):
        if p == 0 or st.facts.decide(X.eq(p, 0)):
            self.fault(st, {'p': pos}, 'a null pointer is dereferenced')
            raise Give('a null pointer is dereferenced')

    def fault(self, st, e, what):
        """An access the library does not allow: the path ends here."""
        sure = not st.notes and not any(ev[0] in ('opaque', 'reccall') for ev in st.events())
        self.bad.append((e['p'], what, sure))
        return []


def V(I, st, o, t='?'):
    return I.rv(st, o, t)


def jval(I, st, loc):
    v = I.load(st, loc, 'Json::Value')
    if isinstance(v, tuple) and v and v[0] == 'J':
        return v
    raise Give('a JSON value is not known: %s' % str(v)[:60])


def is_j(I, st, loc):
    try:
        v = I.load(st, loc, 'Json::Value')
    except X.Undecided:
        return False
    return isinstance(v, tuple) and v and v[0] == 'J'


def node_of(I, st, loc):
    """Location of the JSON value that a (de)serialiser object refers to."""
    rec = I.dyntype(st, loc)
    found = []
    for fl in M.all_fields(I, rec) if rec else ():
        l = ('f', loc, fl['n'])
        v = st.store.get(l)
        if isinstance(v, tuple) and v:
            if v[0] == 'ptr' and is_j(I, st, v[1]):
                found.append(v[1])
            elif v[0] == 'ref' and is_j(I, st, v[1]):
                found.append(v[1])
            elif v[0] == 'tit' and isinstance(v[2], int) and is_j(I, st, v[1]) and is_j(I, st, ('f', v[1], '#%d' % v[2])):
                found.append(('f', v[1], '#%d' % v[2]))
            elif v[0] == 'J':
                found.append(l)
    return found[0] if len(set(found)) == 1 else None


# -- dap::any -------------------------------------------------------------------------

def short(t):
    t = X.noref(t)
    if t.startswith('std::vector<dap::any'):
        return 'dap::array<dap::any>'
    if t.startswith('std::unordered_map<std::string, dap::any'):
        return 'dap::object'
    return {'std::string': 'dap::string', 'std::nullptr_t': 'null', 'nullptr_t': 'null'}.get(t, t)


def ti(t):
    return ('v', ('o', 'ti<%s>' % short(t)), 0, 'p')


def typeof(I, st, fr, e, fn, loc, ops):
    q = fn['q']
    return [(st, ti(q[q.index('<') + 1:q.rindex('>')]))]


def any_get_value(I, st, loc):
    v = I.load(st, loc, 'dap::any')
    if isinstance(v, tuple) and v and v[0] == 'any':
        return v
    if v == 0 or isinstance(v, tuple) and v and v[0] == 'undef' or isinstance(v, tuple) and v[0] == 'rec' and not v[2]:
        return ('any', None, 0)
    raise Give('a dynamic value is not known: %s' % str(v)[:80])


def any_store(I, st, loc, fn, op, pos):
    pt = X.noref(fn['pt'][0])
    if pt == 'dap::any':
        l = op[1] if isinstance(op, tuple) and op and op[0] == 'L' else None
        v = any_get_value(I, st, l) if l is not None else op
        I.put(st, loc, v)
        if l is not None and fn['pt'][0].endswith('&&') and l != loc:
            I.put(st, l, ('any', None, 0))
    elif short(pt) == 'null':
        I.put(st, loc, ('any', None, 0))
    else:
        v = V(I, st, op, pt)
        if v == b'' and 'vector' in pt:
            v = ('vec', ())
        if 'unordered_map' in pt:
            v = mval(v)
        I.put(st, loc, ('any', short(pt), v))


def any_assign(I, st, fr, e, fn, loc, ops):
    any_store(I, st, loc, fn, ops[0], e['p'])
    return [(st, ('L', loc))]


def any_get(I, st, fr, e, fn, loc, ops):
    t = short(fn['targs'][0] if fn.get('targs') else e['t'])
    v = any_get_value(I, st, loc)
    if v[1] != t:
        return I.fault(st, e, 'a dynamic value holding %s is read as %s' % (v[1] or 'null', t))
    return [(st, ('L', ('f', loc, '#v')))]


def any_is(I, st, fr, e, fn, loc, ops):
    if not fn.get('targs'):
        raise Give('type asked of a dynamic value')
    t = short(fn['targs'][0])
    v = any_get_value(I, st, loc)
    if t in ('null', 'dap::null'):
        return [(st, int(v[1] is None))]
    return [(st, int(v[1] == t))]


def any_reset(I, st, fr, e, fn, loc, ops):
    I.put(st, loc, ('any', None, 0))
    return [(st, 0)]


def any_arg(I, st, ops):
    return ops[0][1] if isinstance(ops[0], tuple) and ops[0][0] == 'L' else None


def any_type(I, st, fr, e, fn, loc, ops):
    v = any_get_value(I, st, any_arg(I, st, ops))
    if v[1] is None:
        return [(st, 0)]
    st.facts.assume(eq(ti(v[1]), 0), False)
    return [(st, ti(v[1]))]


def any_val(I, st, fr, e, fn, loc, ops):
    l = any_arg(I, st, ops)
    v = any_get_value(I, st, l)
    return [(st, 0 if v[1] is None else ('ptr', ('f', l, '#v')))]


def ti_ser(I, st, fr, e, fn, recv, ops):
    s = V(I, st, ops[0], 'void *')
    p = V(I, st, ops[1], 'void *')
    if not T.is_ptr(s):
        raise Give('serialiser handed to a type description')
    n = node_of(I, st, s[1])
    v = I.load(st, p[1], '?') if T.is_ptr(p) else p
    s0 = st.copy()
    s0.ev('jti', e['p'], recv, v, n, False)
    st.ev('jti', e['p'], recv, v, n, True)
    if n is None:
        raise Give('serialiser handed to a type description')
    I.put(st, n, ('J', 'ti', (recv, v)))
    return [(st, 1), (s0, 0)]


def ti_deser(I, st, fr, e, fn, recv, ops):
    raise Give('type description')


# -- nested (de)serialisers, by contract ------------------------------------------------

def nested_decode(I, st, fr, e, loc, ops):
    name = e['fn']['q'].split('::')[-1]
    n = jval(I, st, node_of(I, st, loc))
    if name == 'deserialize':
        p = V(I, st, ops[0], 'void *')
        t = X.pointee(e['fn']['pt'][0])
        if not T.is_ptr(p):
            raise Give('destination of a nested value')
        out = []
        ok = ('app', 'jok', n[2], short(t))
        for s, b in I.fork(st, ok):
            s.ev('jnest', e['p'], n[2], short(t), b)
            if b:
                I.put(s, p[1], ('any', 'jval', n[2]) if t == 'dap::any' else ('jval', n[2], short(t)))
            out.append((s, int(b)))
        return out
    raise Give('nested ' + name)


def nested_encode(I, st, fr, e, loc, ops):
    name = e['fn']['q'].split('::')[-1]
    n = node_of(I, st, loc)
    if name == 'serialize':
        t = X.noref(e['fn']['pt'][0])
        v = V(I, st, ops[0], t)
        s0 = st.copy()
        s0.ev('jnest', e['p'], v, t, False)
        st.ev('jnest', e['p'], v, t, True)
        I.put(st, n, ('J', 'enc', (short(t), v)))
        return [(st, 1), (s0, 0)]
    raise Give('nested ' + name)


# -- containers of dynamic values ----------------------------------------------------------

def vec_of(I, st, loc):
    v = I.load(st, loc, 'std::vector<dap::any>')
    if isinstance(v, tuple) and v and v[0] == 'vec':
        return v
    if v in (b'', 0) or isinstance(v, tuple) and v and v[0] == 'undef':
        return ('vec', ())
    raise Give('vector contents')


def mval(v):
    if isinstance(v, tuple) and v and v[0] == 'dobj':
        return v
    if v == 0 or isinstance(v, tuple) and v and v[0] in ('undef', 'map0'):
        return ('dobj', ())
    raise Give('map contents')


def concrete(i):
    if isinstance(i, bool) or not isinstance(i, int):
        raise Give('an index or count is not constant')
    return i


def kid(loc, i):
    return ('L', ('f', loc, '#%d' % i))


def elem_type(rec):
    a = M.targ_full(rec)
    d = 0
    for i, c in enumerate(a):
        d += (c in '<(') - (c in '>)')
        if c == ',' and d == 0:
            return a[:i].strip()
    return a


def default(t):
    return ('any', None, 0) if X.noref(t) == 'dap::any' else ('undef', 'new')


def vec_call(I, st, fr, e, fn, name, loc, ops):
    v = vec_of(I, st, loc)
    n = len(v[1])
    et = elem_type(fn['rec'])
    if name in ('size', 'empty'):
        return [(st, n if name == 'size' else int(n == 0))]
    if name == 'resize':
        k = concrete(V(I, st, ops[0], 'unsigned long'))
        fill = V(I, st, ops[1], et) if len(ops) > 1 else default(et)
        I.put(st, loc, ('vec', v[1][:k] + (fill,) * (k - n)))
        return [(st, 0)]
    if name in ('operator[]', 'at'):
        i = concrete(V(I, st, ops[0], 'unsigned long'))
        if not 0 <= i < n:
            return I.fault(st, e, 'element %d of a vector of %d elements is accessed' % (i, n))
        return [(st, kid(loc, i))]
    if name in ('front', 'back'):
        if not n:
            return I.fault(st, e, 'an element of an empty vector is accessed')
        return [(st, kid(loc, 0 if name == 'front' else n - 1))]
    if name in ('begin', 'cbegin', 'end', 'cend'):
        return [(st, ('tit', loc, 0 if 'begin' in name else n))]
    if name == 'data':
        return [(st, ('ptr', kid(loc, 0)[1]))] if n else [(st, 0)]
    if name in ('push_back', 'emplace_back'):
        x = V(I, st, ops[0], et) if ops else default(et)
        if isinstance(x, tuple) and x and x[0] == 'rec' and et == 'dap::any' and not x[2]:
            x = ('any', None, 0)
        I.put(st, loc, ('vec', v[1] + (x,)))
        return [(st, kid(loc, n) if name == 'emplace_back' else 0)]
    if name in ('reserve', 'shrink_to_fit'):
        return [(st, 0)]
    if name == 'clear':
        I.put(st, loc, ('vec', ()))
        return [(st, 0)]
    if name == 'operator=':
        src = ops[0]
        x = V(I, st, src, fn['rec'])
        I.put(st, loc, ('vec', ()) if x in (b'', 0) else x)
        return [(st, ('L', loc))]
    raise Give('vector::' + name)


def same(I, st, a, b):
    if a == b:
        return True
    if isinstance(a, bytes) and isinstance(b, bytes):
        return False
    d = st.facts.decide(eq(a, b))
    if d is None:
        raise Give('equality of keys')
    return d


def lookup(I, st, kids, key):
    for i, k in enumerate(kids):
        if k is not None and same(I, st, k, key):
            return i
    return None


def entry(k, v):
    return ('rec', None, (('first', k), ('second', v)))


def omap_call(I, st, fr, e, fn, name, loc, ops):
    v = mval(I.load(st, loc, fn['rec']))
    n = len(v[1])
    keys = [None if x is None else I.project(x, 'first') for x in v[1]]
    if name in ('reserve', 'rehash'):
        return [(st, 0)]
    if name in ('size', 'empty'):
        return [(st, n if name == 'size' else int(n == 0))]
    if name in ('begin', 'cbegin', 'end', 'cend'):
        return [(st, ('tit', loc, 0 if 'begin' in name else n))]
    if name == 'clear':
        I.put(st, loc, ('dobj', ()))
        return [(st, 0)]
    if name == 'operator=':
        I.put(st, loc, mval(V(I, st, ops[0], fn['rec'])))
        return [(st, ('L', loc))]
    if name in ('operator[]', 'at', 'find', 'count', 'contains', 'emplace', 'try_emplace', 'insert_or_assign', 'insert'):
        if name == 'insert' or len(ops) == 1 and name == 'emplace':
            p = V(I, st, ops[0], e['args'][0]['t'])
            k, x = I.project(p, 'first'), I.project(p, 'second')
        else:
            t = e['args'][0]['t']
            k = M.as_seq(I, st, ops[0], t) if X.is_pointer(t) or t.endswith(']') else V(I, st, ops[0], 'std::string')
            x = V(I, st, ops[1], e['args'][1]['t']) if len(ops) > 1 else None
        i = lookup(I, st, keys, k)
        if name in ('count', 'contains'):
            return [(st, int(i is not None))]
        if name == 'find':
            return [(st, ('tit', loc, n if i is None else i))]
        if name == 'at':
            if i is None:
                return I.fault(st, e, 'map::at of a key that is not present')
            return [(st, ('L', ('f', kid(loc, i)[1], 'second')))]
        if x is not None and not (isinstance(x, tuple) and x and x[0] == 'any'):
            t = short(e['args'][-1]['t'])
            x = ('any', t, x) if t != 'dap::any' else ('any', None, 0)
        if i is None:
            I.put(st, loc, ('dobj', v[1] + (entry(k, ('any', None, 0) if x is None else x),)))
        elif name == 'insert_or_assign':
            I.put(st, ('f', kid(loc, i)[1], 'second'), x)
        at = n if i is None else i
        if name == 'operator[]':
            return [(st, ('L', ('f', kid(loc, at)[1], 'second')))]
        return [(st, ('rec', None, (('first', ('tit', loc, at)), ('second', int(i is None)))))]
    raise Give('unordered_map::' + name)


def iter_call(I, st, fr, e, fn, q, name, loc, ops):
    """Iterators over trees: ('tit', container, index)"""
    if loc is not None:
        it = I.load(st, loc, '?')
        rest = ops
    else:
        it = V(I, st, ops[0], '?')
        rest = ops[1:]
    if not (isinstance(it, tuple) and it and it[0] == 'tit'):
        return None
    c, i = it[1], it[2]
    if name == 'operator*' and 'iteration_proxy_value' in q:
        return [(st, ('L', loc))]
    if name in ('operator*', 'operator->'):
        v = I.load(st, c, '?')
        kids = v[2] if v[0] == 'J' else v[1]
        if not isinstance(kids, tuple):
            return I.fault(st, e, 'an iterator of a value that is no container is dereferenced')
        if not 0 <= i < len(kids):
            return I.fault(st, e, 'the end iterator is dereferenced')
        if kids[i] is None:
            raise Give('removed member')
        l = ('f', c, ('#m%d' if 'GenericMemberIterator' in q else '#%d') % i)
        return [(st, ('L', l) if name == 'operator*' else ('ptr', l))]
    if name in ('operator==', 'operator!='):
        o = V(I, st, rest[0], '?')
        if isinstance(o, tuple) and o and o[0] == 'tit' and o[1] == c:
            r = i == o[2]
            return [(st, int(r if name == 'operator==' else not r))]
        raise Give('iterator comparison')
    if name in ('operator++', 'operator--'):
        d = 1 if name == 'operator++' else -1
        new = ('tit', c, step(I, st, c, i, d))
        I.put(st, loc, new)
        return [(st, it if rest or (fn['pt'] and loc is not None) else ('L', loc))]
    if name in ('operator+', 'operator-') and rest:
        o = V(I, st, rest[0], '?')
        if isinstance(o, tuple) and o and o[0] == 'tit' and o[1] == c:
            return [(st, i - o[2])]
        return [(st, ('tit', c, i + (1 if name == 'operator+' else -1) * concrete(o)))]
    if name in ('operator+=', 'operator-=') and rest:
        o = concrete(V(I, st, rest[0], '?'))
        I.put(st, loc, ('tit', c, i + (o if name == 'operator+=' else -o)))
        return [(st, ('L', loc))]
    if name in ('key', 'name', 'memberName'):
        v = jval(I, st, c)
        if v[1] != 'obj':
            return I.fault(st, e, 'the key of a member is read from a value of kind ' + v[1])
        if not 0 <= i < len(v[2]):
            return I.fault(st, e, 'the end iterator is dereferenced')
        if name == 'memberName':
            raise Give('memberName')
        return [(st, v[2][i][0])]
    if name == 'value':
        v = jval(I, st, c)
        if not isinstance(v[2], tuple) or not 0 <= i < len(v[2]):
            return I.fault(st, e, 'the end iterator is dereferenced')
        return [(st, kid(c, i))]
    if name == 'index':
        return [(st, i)]
    if name == 'operator=':
        I.put(st, loc, V(I, st, ops[0], '?'))
        return [(st, ('L', loc))]
    raise Give('iterator ' + name)


def step(I, st, c, i, d):
    v = I.load(st, c, '?')
    i += d
    kids = v[2] if v[0] == 'J' else v[1]
    while v[0] == 'J' and isinstance(kids, tuple) and 0 <= i < len(kids) and kids[i] is None:
        i += d
    return i


# -- JSON ---------------------------------------------------------------------------------

def kids_of(v):
    return tuple(k for k in v[2] if k is not None) if v[1] in ('arr', 'obj') else ()


def member(I, st, v, key):
    return lookup(I, st, [None if m is None else m[0] for m in v[2]], key)


def keyterm(k):
    return k


def key_arg(I, st, e, ops, i=0):
    """A key given as std::string, C string or JSON string."""
    t = e['args'][i]['t']
    o = ops[i]
    if X.is_pointer(t) or t.endswith(']'):
        return M.as_seq(I, st, o, t)
    v = V(I, st, o, t)
    if isinstance(v, tuple) and v and v[0] == 'J':
        if v[1] not in ('str', 'strref'):
            raise Give('key')
        return v[2]
    return v


def need(I, st, loc, e, ok, api):
    v = jval(I, st, loc)
    if v[1] in ok:
        return v
    if v[1] in ('abs', 'enc', 'cbval', 'ti', 'junk'):
        raise Give('%s of a nested value' % api)
    return None


def pred(I, st, loc, kinds):
    v = jval(I, st, loc)
    if v[1] in ('abs', 'enc', 'cbval', 'ti', 'junk'):
        raise Give('kind of a nested value')
    return [(st, int(v[1] in kinds))]


def conv(I, v, t):
    """The arithmetic value of v read as t."""
    k, p = v[1], v[2]
    t = X.noref(t)
    if k == 'bool':
        return p
    if t in ('double', 'float'):
        return p if k in REALS else ('app', 'dbl', p)
    if k in REALS:
        return ('app', 'trunc', p)
    fits = {'int': ('i-', 'i+'), 'unsigned int': ('i+', 'u32'), 'long': ('i-', 'i+', 'u32', 'i64', 'n64'),
            'unsigned long': ('i+', 'u32', 'i64', 'u64')}
    if t in fits:
        return p if k in fits[t] else ('app', 'wrap', p, t)
    raise Give('number read as ' + t)


def make(I, st, e, t, op):
    """The JSON value built from a C++ value of type t."""
    n = X.noref(t)
    v = V(I, st, op, t)
    if isinstance(v, tuple) and v and v[0] == 'J':
        return v
    if n == 'bool':
        return ('J', 'bool', v)
    if n in ('int', 'long', 'unsigned int', 'unsigned long', 'short', 'long long', 'unsigned long long', 'unsigned short'):
        return ('J', 'int', v)
    if n in ('double', 'float'):
        return ('J', 'num', v)
    if n == 'std::string':
        return ('J', 'str', v)
    if X.is_pointer(t) or n.endswith(']'):
        return ('J', 'str', M.as_seq(I, st, op, t))
    if 'nullptr_t' in n:
        return NULLJ
    if X.cls_of(n) == 'std::vector':
        if v in (b'', 0) or isinstance(v, tuple) and v == ('vec', ()):
            return ('J', 'arr', ())
        if isinstance(v, tuple) and v[0] == 'vec' and all(isinstance(x, tuple) and x[0] == 'J' for x in v[1]):
            return ('J', 'arr', v[1])
    raise Give('JSON value from ' + n)


def by_type(lib, n):
    tab = {'nlohmann': {0: NULLJ, 1: ('J', 'obj', ()), 2: ('J', 'arr', ()), 3: ('J', 'str', b''), 4: ('J', 'bool', 0)},
           'rapid': {0: NULLJ, 3: ('J', 'obj', ()), 4: ('J', 'arr', ()), 5: ('J', 'str', b'')},
           'jsoncpp': {0: NULLJ, 4: ('J', 'str', b''), 5: ('J', 'bool', 0), 6: ('J', 'arr', ()), 7: ('J', 'obj', ())}}[lib]
    if n in tab:
        return tab[n]
    raise Give('JSON value of type number %s' % (n,))


def lib_of(cls):
    if cls == 'nlohmann::basic_json':
        return 'nlohmann'
    if cls in ('rapidjson::GenericValue', 'rapidjson::GenericDocument'):
        return 'rapid'
    if cls == 'Json::Value':
        return 'jsoncpp'
    return None


def lib_construct(I, st, fr, e, cls, ops):
    lib = lib_of(cls)
    if lib:
        pts = e['fn']['pt']
        if not ops:
            return [(st, NULLJ)]
        t0 = X.noref(pts[0])
        if lib_of(X.cls_of(t0)) == lib:
            v = V(I, st, ops[0], pts[0])
            l = ops[0][1] if isinstance(ops[0], tuple) and ops[0][0] == 'L' else None
            if pts[0].endswith('&&') and l is not None and l[0] not in ('val', 'str'):
                I.put(st, l, NULLJ)
            if not (isinstance(v, tuple) and v and v[0] == 'J'):
                raise Give('copied JSON value')
            return [(st, v)]
        if 'ValueType' in t0 or t0.endswith('value_t') or t0 == 'rapidjson::Type':
            return [(st, by_type(lib, concrete(V(I, st, ops[0], 'int'))))]
        if 'initializer_list' in t0:
            if il_count(I, st, ops[0]) == 0:
                want = V(I, st, ops[2], 'int') if len(ops) > 2 else None
                return [(st, by_type(lib, want) if want in (1, 2) else ('J', 'obj', ()))]
            raise Give('initializer list')
        if lib == 'rapid':
            if 'GenericStringRef' in t0:
                v = V(I, st, ops[0], t0)
                if isinstance(v, tuple) and v and v[0] == 'sref':
                    copied = len(ops) > 1
                    return [(st, ('J', 'str' if copied else 'strref', v[1]) + (() if copied else (v[2],)))]
                raise Give('string reference')
            if X.is_pointer(pts[0]) and len(ops) >= 2 and X.sort_of(pts[1]) in ('u', 'i'):
                p, n = V(I, st, ops[0], pts[0]), V(I, st, ops[1], pts[1])
                s = M.range_of(I, st, p, n)
                if len(ops) >= 3:
                    return [(st, ('J', 'str', s))]
                return [(st, ('J', 'strref', s, p))]
        return [(st, make(I, st, e, pts[0], ops[0]))]
    if cls == 'rapidjson::GenericStringRef':
        if len(ops) == 1:
            v = V(I, st, ops[0], e['fn']['pt'][0])
            if isinstance(v, tuple) and v and v[0] == 'sref':
                return [(st, v)]
            return [(st, ('sref', M.as_seq(I, st, ops[0], e['args'][0]['t']), v))]
        p = V(I, st, ops[0], 'const char *')
        return [(st, ('sref', M.range_of(I, st, p, V(I, st, ops[1], 'unsigned long')), p))]
    if cls and ('iter' in cls.lower()) and len(ops) == 1:
        v = V(I, st, ops[0], '?')
        if isinstance(v, tuple) and v and v[0] == 'tit':
            return [(st, v)]
    if cls == 'rapidjson::PrettyWriter' or cls == 'rapidjson::Writer':
        return [(st, ('jwriter', ops[0][1] if ops and isinstance(ops[0], tuple) and ops[0][0] == 'L' else None))]
    return None


def il_count(I, st, op):
    if isinstance(op, tuple) and op and op[0] == 'L':
        n = st.store.get(('x', op[1], 'count'))
        if n is not None:
            return n
        v = I.load(st, op[1], '?')
        if v in (b'', 0) or isinstance(v, tuple) and v and (v[0] == 'undef' or v == ('rec', None, ())):
            return 0
        return None
    return 0 if op in (b'', 0) or isinstance(op, tuple) and op[:2] == ('app', 'new') and len(op) == 3 else None


def parsed(I, st, e, seq, whole=True):
    """The value that a text denotes."""
    want = I.load(st, I.text, 'std::string')
    if seq != want:
        raise Give('the text parsed is not the text given')
    st.ev('jparse', e['p'], whole)
    if I.doc[1] == 'disc':
        return None
    return I.doc


def lib_call(I, st, fr, e, fn, q, cls, name, loc, ops):
    if cls == 'std::vector' and loc is not None:
        return vec_call(I, st, fr, e, fn, name, loc, ops)
    if cls == 'std::unordered_map' and loc is not None:
        return omap_call(I, st, fr, e, fn, name, loc, ops)
    lib = lib_of(cls)
    if lib and (loc is not None or name in ('parse', 'object', 'array')):
        h = {'nlohmann': nlohmann, 'rapid': rapid, 'jsoncpp': jsoncpp}[lib]
        r = h(I, st, fr, e, fn, name, loc, ops)
        if r is None:
            raise Give('%s of the JSON library is not modelled' % name)
        return r
    if name in ('operator*', 'operator->', 'operator==', 'operator!=', 'operator++', 'operator--', 'operator+', 'operator-',
                'operator+=', 'operator-=', 'key', 'name', 'value', 'index', 'operator='):
        if (loc is not None and (cls in ('iter', 'miter') or 'terat' in (cls or '') or 'iter' in (cls or ''))) or \
                (loc is None and ops and 'operator' in name):
            r = iter_call(I, st, fr, e, fn, q, name, loc, ops)
            if r is not None:
                return r
    if cls == 'nlohmann::detail::iteration_proxy' and name in ('begin', 'end'):
        v = I.load(st, loc, '?')
        if isinstance(v, tuple) and v and v[0] == 'proxy':
            n = len(jval(I, st, v[1])[2]) if jval(I, st, v[1])[1] in ('arr', 'obj') else 0
            return [(st, ('tit', v[1], 0 if name == 'begin' else n))]
    if q == 'rapidjson::StringRef':
        p = V(I, st, ops[0], 'const char *')
        if len(ops) == 1:
            return [(st, ('sref', M.as_seq(I, st, ops[0], e['args'][0]['t']), p))]
        return [(st, ('sref', M.range_of(I, st, p, V(I, st, ops[1], 'unsigned long')), p))]
    if q == 'Json::writeString':
        l = ops[1][1] if isinstance(ops[1], tuple) and ops[1][0] == 'L' else None
        v = jval(I, st, l)
        return [(st, ('dump', v))]
    if cls == 'Json::CharReader' and name == 'parse':
        b, en = V(I, st, ops[0], 'const char *'), V(I, st, ops[1], 'const char *')
        v = parsed(I, st, e, M.range_of(I, st, b, sub(en, b)))
        r = V(I, st, ops[2], 'void *')
        st.ev('jthrow', e['p'])
        I.put(st, r[1], ('J', 'arr', (('J', 'abs', 'cut'),)) if v is None else v)
        return [(st, int(v is not None))]
    if cls == 'Json::CharReaderBuilder' and name == 'newCharReader':
        l = ('h', I.newid(), 'reader')
        st.ev('new', e['p'], ('ptr', l), 'Json::CharReader', 1)
        return [(st, ('ptr', l))]
    if cls == 'Json::Reader' and name == 'parse':
        raise Give('Json::Reader')
    if cls == 'rapidjson::GenericStringBuffer' and name in ('GetString', 'GetSize', 'GetLength'):
        v = I.load(st, loc, '?')
        if name == 'GetString':
            return [(st, ('ptr', ('e', ('val', v), 0)))]
        return [(st, seqlen(v))]
    if cls == 'std::string' and name in ('data', 'c_str') and loc is not None and loc[0] not in ('val', 'str'):
        return [(st, ('ptr', ('e', loc, 0)))]
    return None


K_SCALAR = ('bool', 'str') + INTS + REALS
ALLK = ('null', 'bool', 'str', 'arr', 'obj', 'disc') + INTS + REALS


def nlohmann(I, st, fr, e, fn, name, loc, ops):
    P = {'is_boolean': ('bool',), 'is_null': ('null',), 'is_string': ('str', 'strref'), 'is_array': ('arr',), 'is_object': ('obj',),
         'is_number': INTS + REALS + ('int', 'num'), 'is_number_integer': INTS + ('int',), 'is_number_float': REALS + ('num',),
         'is_number_unsigned': ('i+', 'u32', 'i64', 'u64'), 'is_discarded': ('disc',), 'is_structured': ('arr', 'obj'),
         'is_primitive': ('null', 'bool', 'str') + INTS + REALS, 'is_binary': ()}
    if name in P:
        return pred(I, st, loc, P[name])
    if name == 'parse':
        s = V(I, st, ops[0], 'std::string')
        exc = V(I, st, ops[2], 'bool') if len(ops) > 2 else 1
        v = parsed(I, st, e, s)
        if v is None:
            if exc != 0:
                return I.fault(st, e, 'parsing a malformed text throws')
            return [(st, ('J', 'disc', 0))]
        return [(st, v)]
    if loc is None and name in ('object', 'array'):
        if ops and il_count(I, st, ops[0]) not in (0, None):
            raise Give('initializer list')
        return [(st, ('J', 'obj' if name == 'object' else 'arr', ()))]
    v = jval(I, st, loc)
    k = v[1]
    if k == 'abs' and name not in ('operator=',):
        raise Give('nested value')
    if name == 'type':
        code = {'null': 0, 'obj': 1, 'arr': 2, 'str': 3, 'bool': 4, 'i-': 5, 'n64': 5, 'i+': 6, 'u32': 6, 'i64': 6, 'u64': 6,
                'frac': 7, 'whole': 7, 'disc': 9}
        return [(st, code[k])] if k in code else None
    if name == 'get':
        t = X.noref(e['t'])
        if t == 'bool':
            if k != 'bool':
                return I.fault(st, e, 'get<bool>() of a value of kind ' + k)
            return [(st, v[2])]
        if t == 'std::string':
            if k != 'str':
                return I.fault(st, e, 'get<std::string>() of a value of kind ' + k)
            return [(st, v[2])]
        if X.sort_of(t) in ('i', 'u', 'f') or t in ('double', 'float'):
            if k in INTS + REALS or k == 'bool' and t not in ('long', 'unsigned long', 'double'):
                return [(st, conv(I, v, t))]
            return I.fault(st, e, 'a number is read from a value of kind ' + k)
        return None
    if name == 'get_ptr':
        t = X.pointee(e['t']).replace('const ', '')
        kinds = {'bool': ('bool',), 'std::string': ('str',), 'long': ('i-', 'n64') , 'double': REALS}.get(t)
        return None
    if name == 'size':
        return [(st, len(kids_of(v)) if k in ('arr', 'obj') else 0 if k == 'null' else 1)]
    if name == 'empty':
        return [(st, int(k == 'null' or k in ('arr', 'obj') and not kids_of(v)))]
    if name in ('operator[]', 'at'):
        if X.sort_of(fn['pt'][0]) in ('u', 'i'):
            i = concrete(V(I, st, ops[0], fn['pt'][0]))
            const = fn.get('const')
            if k == 'null' and not const and name == 'operator[]':
                v = ('J', 'arr', ())
                k = 'arr'
            if k != 'arr':
                return I.fault(st, e, 'a value of kind %s is indexed by a number' % k)
            if i >= len(v[2]):
                if const or name == 'at':
                    return I.fault(st, e, 'element %d of an array of %d elements is accessed' % (i, len(v[2])))
                v = ('J', 'arr', v[2] + (NULLJ,) * (i + 1 - len(v[2])))
            if v is not jval(I, st, loc):
                I.put(st, loc, v)
            return [(st, kid(loc, i))]
        key = key_arg(I, st, e, ops)
        if k == 'null' and not fn.get('const') and name == 'operator[]':
            v = ('J', 'obj', ())
            k = 'obj'
        if k != 'obj':
            return I.fault(st, e, 'a value of kind %s is indexed by a name' % k)
        i = member(I, st, v, key)
        if i is None:
            if fn.get('const') or name == 'at':
                return I.fault(st, e, 'a member that is not present is accessed')
            i = len(v[2])
            v = ('J', 'obj', v[2] + ((key, NULLJ),))
            I.put(st, loc, v)
        return [(st, kid(loc, i))]
    if name in ('find', 'contains', 'count'):
        n = len(v[2]) if k in ('arr', 'obj') else 1
        i = member(I, st, v, key_arg(I, st, e, ops)) if k == 'obj' else None
        if name == 'find':
            return [(st, ('tit', loc, n if i is None else i))]
        return [(st, int(i is not None))]
    if name in ('begin', 'cbegin', 'end', 'cend'):
        n = len(v[2]) if k in ('arr', 'obj') else 0 if k == 'null' else 1
        return [(st, ('tit', loc, 0 if 'begin' in name else n))]
    if name == 'items':
        if k not in ('arr', 'obj'):
            raise Give('items of a scalar')
        return [(st, ('proxy', loc))]
    if name in ('push_back', 'emplace_back'):
        x = make(I, st, e, fn['pt'][0], ops[0]) if ops else NULLJ
        if k == 'null':
            v, k = ('J', 'arr', ()), 'arr'
        if k != 'arr':
            return I.fault(st, e, 'an element is appended to a value of kind ' + k)
        I.put(st, loc, ('J', 'arr', v[2] + (x,)))
        return [(st, kid(loc, len(v[2])) if name == 'emplace_back' else 0)]
    if name == 'erase' and len(ops) == 1:
        o = V(I, st, ops[0], e['args'][0]['t'])
        if isinstance(o, tuple) and o and o[0] == 'tit':
            if k != 'obj':
                return None
            i = o[2]
        else:
            if k != 'obj':
                return I.fault(st, e, 'a member is erased from a value of kind ' + k)
            i = member(I, st, v, key_arg(I, st, e, ops))
        if i is not None and i < len(v[2]):
            I.put(st, loc, ('J', 'obj', v[2][:i] + (None,) + v[2][i + 1:]))
        return [(st, int(i is not None))]
    if name == 'clear':
        I.put(st, loc, ('J', k, ()) if k in ('arr', 'obj') else v)
        return [(st, 0)]
    if name == 'operator=':
        x = V(I, st, ops[0], fn['pt'][0])
        if not (isinstance(x, tuple) and x and x[0] == 'J'):
            raise Give('assigned JSON value')
        l = ops[0][1] if isinstance(ops[0], tuple) and ops[0][0] == 'L' else None
        if l is not None and l != loc and l[0] not in ('val', 'str', 't') and 'move' in (e['args'][0].get('q') or ''):
            I.put(st, l, NULLJ)
        I.put(st, loc, x)
        return [(st, ('L', loc))]
    if name == 'dump':
        h = V(I, st, ops[3], 'int') if len(ops) > 3 else 0
        st.ev('jdump', e['p'], h)
        if h == 0:
            return I.fault(st, e, 'dump() of a string that is not valid UTF-8 aborts')
        return [(st, ('dump', v))]
    if name == 'swap':
        l = ops[0][1]
        x = jval(I, st, l)
        I.put(st, l, v)
        I.put(st, loc, x)
        return [(st, 0)]
    return None


def rapid(I, st, fr, e, fn, name, loc, ops):
    P = {'IsNull': ('null',), 'IsBool': ('bool',), 'IsObject': ('obj',), 'IsArray': ('arr',), 'IsString': ('str', 'strref'),
         'IsNumber': INTS + REALS + ('int', 'num'), 'IsInt': ('i-', 'i+'), 'IsUint': ('i+', 'u32'),
         'IsInt64': ('i-', 'i+', 'u32', 'i64', 'n64', 'int'), 'IsUint64': ('i+', 'u32', 'i64', 'u64'),
         'IsDouble': REALS + ('num',)}
    if name in P:
        return pred(I, st, loc, P[name])
    if name == 'Parse':
        t = fn['pt'][0]
        if len(ops) >= 2:
            s, whole = M.range_of(I, st, V(I, st, ops[0], t), V(I, st, ops[1], 'unsigned long')), True
        elif X.is_pointer(t):
            p = V(I, st, ops[0], t)
            s, whole = M.cstring(I, st, p), False
            if T.is_ptr(p) and p[1] == ('e', I.text, 0):
                s = I.load(st, I.text, 'std::string')
        else:
            s, whole = V(I, st, ops[0], t), True
        v = parsed(I, st, e, s, whole)
        I.put(st, loc, NULLJ if v is None else v)
        st.store[('x', loc, 'perr')] = int(v is None)
        return [(st, ('L', loc))]
    if name == 'HasParseError':
        return [(st, st.store.get(('x', loc, 'perr'), 0))]
    if name == 'GetAllocator':
        return [(st, ('L', ('f', loc, 'alloc$')))]
    v = jval(I, st, loc)
    k = v[1]
    G = {'GetBool': 'IsBool', 'GetInt': 'IsInt', 'GetUint': 'IsUint', 'GetInt64': 'IsInt64', 'GetUint64': 'IsUint64',
         'GetDouble': 'IsNumber', 'GetFloat': 'IsNumber', 'GetString': 'IsString', 'GetStringLength': 'IsString',
         'Size': 'IsArray', 'Empty': 'IsArray', 'MemberCount': 'IsObject', 'ObjectEmpty': 'IsObject', 'MemberBegin': 'IsObject',
         'MemberEnd': 'IsObject', 'FindMember': 'IsObject', 'HasMember': 'IsObject', 'AddMember': 'IsObject',
         'RemoveMember': 'IsObject', 'PushBack': 'IsArray', 'Begin': 'IsArray', 'End': 'IsArray', 'EraseMember': 'IsObject'}
    if name == 'GetType':
        code = {'null': 0, 'obj': 3, 'arr': 4, 'str': 5, 'frac': 6, 'whole': 6}
        if k in INTS:
            return [(st, 6)]
        return [(st, code[k])] if k in code else None
    if name in ('IsTrue', 'IsFalse'):
        if k != 'bool':
            return [(st, 0)]
        return [(st, v[2] if name == 'IsTrue' else neg(v[2]))]
    if name in G:
        if k in ('abs', 'enc', 'cbval', 'ti'):
            raise Give('nested value')
        if k not in P[G[name]]:
            return I.fault(st, e, '%s() of a value of kind %s' % (name, k))
        if name == 'GetBool':
            return [(st, v[2])]
        if name in ('GetInt', 'GetUint', 'GetInt64', 'GetUint64', 'GetDouble', 'GetFloat'):
            return [(st, conv(I, v, e['t']))]
        if name == 'GetString':
            return [(st, ('ptr', ('e', ('val', v[2]), 0)))]
        if name == 'GetStringLength':
            return [(st, seqlen(v[2]))]
        if name in ('Size', 'MemberCount'):
            return [(st, len(kids_of(v)))]
        if name in ('Empty', 'ObjectEmpty'):
            return [(st, int(not kids_of(v)))]
        if name in ('Begin', 'End'):
            raise Give('elements by pointer')
        if name in ('MemberBegin', 'Begin'):
            return [(st, ('tit', loc, step(I, st, loc, -1, 1)))]
        if name in ('MemberEnd', 'End'):
            return [(st, ('tit', loc, len(v[2])))]
        if name in ('FindMember', 'HasMember', 'RemoveMember'):
            o = V(I, st, ops[0], e['args'][0]['t'])
            if isinstance(o, tuple) and o and o[0] == 'tit':
                i = o[2]
            else:
                i = member(I, st, v, key_arg(I, st, e, ops))
            if name == 'FindMember':
                return [(st, ('tit', loc, len(v[2]) if i is None else i))]
            if name == 'RemoveMember' and i is not None:
                I.put(st, loc, ('J', 'obj', v[2][:i] + (None,) + v[2][i + 1:]))
            return [(st, int(i is not None))]
        if name == 'AddMember':
            kt = e['args'][0]['t']
            kv = V(I, st, ops[0], kt)
            if isinstance(kv, tuple) and kv and kv[0] == 'J':
                key = kv
            elif isinstance(kv, tuple) and kv and kv[0] == 'sref':
                key = ('J', 'strref', kv[1], kv[2])
            elif X.noref(kt) == 'std::string':
                key = ('J', 'str', kv)
            else:
                raise Give('member name')
            ref_check(I, st, e, key)
            x = make(I, st, e, fn['pt'][1], ops[1])
            ref_check(I, st, e, x)
            I.put(st, loc, ('J', 'obj', v[2] + ((key[2], x),)))
            for o in ops[:2]:
                if isinstance(o, tuple) and o and o[0] == 'L' and is_j(I, st, o[1]):
                    I.put(st, o[1], NULLJ)
            return [(st, ('L', loc))]
        if name == 'PushBack':
            x = make(I, st, e, fn['pt'][0], ops[0])
            ref_check(I, st, e, x)
            I.put(st, loc, ('J', 'arr', v[2] + (x,)))
            if isinstance(ops[0], tuple) and ops[0] and ops[0][0] == 'L' and is_j(I, st, ops[0][1]):
                I.put(st, ops[0][1], NULLJ)
            return [(st, ('L', loc))]
    S = {'SetNull': NULLJ, 'SetArray': ('J', 'arr', ()), 'SetObject': ('J', 'obj', ())}
    if name in S:
        I.put(st, loc, S[name])
        return [(st, ('L', loc))]
    if name in ('SetBool', 'SetInt', 'SetUint', 'SetInt64', 'SetUint64', 'SetDouble', 'SetFloat'):
        kind = {'SetBool': 'bool', 'SetDouble': 'num', 'SetFloat': 'num'}.get(name, 'int')
        x = V(I, st, ops[0], fn['pt'][0])
        I.put(st, loc, ('J', kind, x))
        return [(st, ('L', loc))]
    if name == 'SetString':
        t = fn['pt'][0]
        if X.is_pointer(t):
            p = V(I, st, ops[0], t)
            if len(ops) >= 2 and X.sort_of(fn['pt'][1]) in ('u', 'i'):
                s = M.range_of(I, st, p, V(I, st, ops[1], fn['pt'][1]))
            else:
                s = ('app', 'cut', M.cstring(I, st, p))
            copied = any('Allocator' in x for x in fn['pt'])
            x = ('J', 'str', s) if copied else ('J', 'strref', s, p)
        else:
            sv = V(I, st, ops[0], t)
            if isinstance(sv, tuple) and sv and sv[0] == 'sref':
                x = ('J', 'str', sv[1]) if len(ops) > 1 else ('J', 'strref', sv[1], sv[2])
            else:
                x = ('J', 'str', sv)
        ref_check(I, st, e, x)
        I.put(st, loc, x)
        return [(st, ('L', loc))]
    if name == 'operator[]':
        if X.sort_of(fn['pt'][0]) in ('u', 'i'):
            i = concrete(V(I, st, ops[0], fn['pt'][0]))
            if k != 'arr':
                return I.fault(st, e, 'a value of kind %s is indexed by a number' % k)
            if i >= len(v[2]):
                return I.fault(st, e, 'element %d of an array of %d elements is accessed' % (i, len(v[2])))
            return [(st, kid(loc, i))]
        if k != 'obj':
            return I.fault(st, e, 'a value of kind %s is indexed by a name' % k)
        i = member(I, st, v, key_arg(I, st, e, ops))
        if i is None:
            return I.fault(st, e, 'a member that is not present is accessed')
        return [(st, kid(loc, i))]
    if name == 'operator=':
        x = V(I, st, ops[0], fn['pt'][0])
        if not (isinstance(x, tuple) and x and x[0] == 'J'):
            x = make(I, st, e, fn['pt'][0], ops[0])
        ref_check(I, st, e, x)
        l = ops[0][1] if isinstance(ops[0], tuple) and ops[0][0] == 'L' else None
        if l is not None and l != loc and is_j(I, st, l):
            I.put(st, l, NULLJ)
        I.put(st, loc, x)
        return [(st, ('L', loc))]
    if name == 'CopyFrom':
        x = V(I, st, ops[0], fn['pt'][0])
        I.put(st, loc, x)
        return [(st, ('L', loc))]
    if name == 'Swap':
        l = ops[0][1]
        x = jval(I, st, l)
        I.put(st, l, v)
        I.put(st, loc, x)
        return [(st, ('L', loc))]
    if name == 'Accept':
        w = V(I, st, ops[0], '?')
        if isinstance(w, tuple) and w and w[0] == 'jwriter' and w[1] is not None:
            I.put(st, w[1], ('dump', v))
            return [(st, 1)]
    return None


def ref_check(I, st, e, v):
    """A string that is only referred to must outlive the document."""
    if v[1] == 'strref' and len(v) > 3:
        p = v[3]
        l = X.root(p[1]) if T.is_ptr(p) else None
        if l is not None and l[0] in ('v', 't'):
            I.fault(st, e, 'the document refers to a string that is destroyed before it is written')


def jsoncpp(I, st, fr, e, fn, name, loc, ops):
    ints = ('i-', 'i+', 'u32', 'i64', 'n64')
    P = {'isNull': ('null',), 'isBool': ('bool',), 'isString': ('str',), 'isArray': ('arr',), 'isObject': ('obj',),
         'isInt64': ints + ('whole',), 'isIntegral': INTS + ('whole',), 'isDouble': INTS + REALS, 'isNumeric': INTS + REALS}
    if name in P:
        return pred(I, st, loc, P[name])
    v = jval(I, st, loc)
    k = v[1]
    if k in ('abs', 'enc', 'cbval', 'ti') and name != 'operator=':
        raise Give('nested value')
    if name in ('isInt', 'isUInt', 'isUInt64'):
        if k == 'whole':
            raise Give('range of a number')
        ok = {'isInt': ('i-', 'i+'), 'isUInt': ('i+', 'u32'), 'isUInt64': ('i+', 'u32', 'i64', 'u64')}[name]
        return [(st, int(k in ok))]
    if name == 'type':
        code = {'null': 0, 'frac': 3, 'whole': 3, 'str': 4, 'bool': 5, 'arr': 6, 'obj': 7, 'u64': 2}
        if k in ints:
            return [(st, 1)]
        return [(st, code[k])] if k in code else None
    if name in ('asInt64', 'asInt', 'asUInt', 'asUInt64', 'asLargestInt', 'asLargestUInt', 'asDouble', 'asFloat'):
        if k == 'null':
            return [(st, 0)]
        if k in ('str', 'arr', 'obj'):
            return I.fault(st, e, '%s() of a value of kind %s' % (name, k))
        if name in ('asInt64', 'asLargestInt') and k == 'u64' or name == 'asInt' and k in ('u32', 'i64', 'n64', 'u64') \
                or name == 'asUInt' and k in ('i-', 'i64', 'n64', 'u64') or name in ('asUInt64', 'asLargestUInt') and k in ('i-', 'n64'):
            return I.fault(st, e, '%s() of a number out of range' % name)
        return [(st, conv(I, v, e['t']))]
    if name == 'asBool':
        if k in ('str', 'arr', 'obj'):
            return I.fault(st, e, 'asBool() of a value of kind ' + k)
        return [(st, v[2] if k == 'bool' else 0 if k == 'null' else neg(eq(v[2], 0)))]
    if name == 'asString':
        if k in ('arr', 'obj'):
            return I.fault(st, e, 'asString() of a value of kind ' + k)
        return [(st, v[2] if k == 'str' else b'' if k == 'null' else ('app', 'text', v[2]))]
    if name == 'asCString':
        if k != 'str':
            return I.fault(st, e, 'asCString() of a value of kind ' + k)
        return [(st, ('ptr', ('e', ('val', ('app', 'cut', v[2])), 0)))]
    if name == 'size':
        return [(st, len(kids_of(v)))]
    if name == 'empty':
        return [(st, int(k == 'null' or k in ('arr', 'obj') and not kids_of(v)))]
    if name in ('begin', 'end'):
        n = len(v[2]) if k in ('arr', 'obj') else 0
        return [(st, ('tit', loc, step(I, st, loc, -1, 1) if name == 'begin' and n else n))]
    if name == 'operator[]':
        if X.sort_of(fn['pt'][0]) in ('u', 'i'):
            i = concrete(V(I, st, ops[0], fn['pt'][0]))
            if k not in ('null', 'arr'):
                return I.fault(st, e, 'a value of kind %s is indexed by a number' % k)
            kids = v[2] if k == 'arr' else ()
            if fn.get('const'):
                if i < len(kids):
                    return [(st, kid(loc, i))]
                l = ('t', I.newid())
                I.put(st, l, NULLJ)
                return [(st, ('L', l))]
            I.put(st, loc, ('J', 'arr', kids + (NULLJ,) * (i + 1 - len(kids))))
            return [(st, kid(loc, i))]
        if k not in ('null', 'obj'):
            return I.fault(st, e, 'a value of kind %s is indexed by a name' % k)
        kids = v[2] if k == 'obj' else ()
        i = member(I, st, ('J', 'obj', kids), key_arg(I, st, e, ops))
        if i is None:
            if fn.get('const'):
                l = ('t', I.newid())
                I.put(st, l, NULLJ)
                return [(st, ('L', l))]
            i = len(kids)
            I.put(st, loc, ('J', 'obj', kids + ((key_arg(I, st, e, ops), NULLJ),)))
        return [(st, kid(loc, i))]
    if name in ('find', 'isMember', 'removeMember', 'demand', 'get'):
        if k not in ('null', 'obj') and not (name == 'get' and k == 'arr'):
            return I.fault(st, e, '%s() of a value of kind %s' % (name, k))
        if len(ops) == 2 and X.is_pointer(fn['pt'][1]):
            b = V(I, st, ops[0], fn['pt'][0])
            key = M.range_of(I, st, b, sub(V(I, st, ops[1], fn['pt'][1]), b))
        else:
            key = key_arg(I, st, e, ops)
            if X.is_pointer(fn['pt'][0]):
                key = key.split(b'\0')[0] if isinstance(key, bytes) else ('app', 'cut', key)
        i = member(I, st, v, key) if k == 'obj' else None
        if name == 'find':
            return [(st, 0 if i is None else ('ptr', kid(loc, i)[1]))]
        if name == 'isMember':
            return [(st, int(i is not None))]
        if name == 'removeMember' and len(ops) == 1:
            if i is not None:
                I.put(st, loc, ('J', 'obj', v[2][:i] + (None,) + v[2][i + 1:]))
            return [(st, 0)]
        return None
    if name == 'getMemberNames':
        if k not in ('null', 'obj'):
            return I.fault(st, e, 'getMemberNames() of a value of kind ' + k)
        return [(st, ('vec', tuple(m[0] for m in v[2] if m) if k == 'obj' else ()))]
    if name == 'append':
        x = make(I, st, e, fn['pt'][0], ops[0])
        if k not in ('null', 'arr'):
            return I.fault(st, e, 'append() to a value of kind ' + k)
        kids = v[2] if k == 'arr' else ()
        I.put(st, loc, ('J', 'arr', kids + (x,)))
        return [(st, kid(loc, len(kids)))]
    if name == 'resize':
        n = concrete(V(I, st, ops[0], 'unsigned int'))
        if k not in ('null', 'arr'):
            return I.fault(st, e, 'resize() of a value of kind ' + k)
        kids = v[2] if k == 'arr' else ()
        I.put(st, loc, ('J', 'arr', kids[:n] + (NULLJ,) * (n - len(kids))))
        return [(st, 0)]
    if name == 'clear':
        I.put(st, loc, ('J', k, ()) if k in ('arr', 'obj') else v)
        return [(st, 0)]
    if name == 'operator=':
        x = V(I, st, ops[0], fn['pt'][0])
        if not (isinstance(x, tuple) and x and x[0] == 'J'):
            raise Give('assigned JSON value')
        I.put(st, loc, x)
        return [(st, ('L', loc))]
    if name in ('swap', 'copy'):
        l = ops[0][1]
        x = jval(I, st, l)
        if name == 'swap':
            I.put(st, l, v)
        I.put(st, loc, x)
        return [(st, 0)]
    return None
