"""C22, C23, C24: the JSON back ends."""
import os
from common import *
import jsonlib as J
from jsonlib import JInterp, INTS, REALS, NULLJ, ti, node_of, jval, short

WIT = os.path.join(VERIF, 'witness', 'json.cpp')
BACK = {'nlohmann': 'nlohmann_json_serializer.cpp', 'rapid': 'rapid_json_serializer.cpp', 'jsoncpp': 'jsoncpp_json_serializer.cpp'}
KINDS = ('null', 'bool') + INTS + REALS + ('str', 'arr', 'obj', 'disc')
TEXT = {'null': 'null', 'bool': 'true or false', 'i-': 'a negative 32-bit integer', 'i+': 'a positive 32-bit integer',
        'u32': 'an integer of 32 bits, unsigned', 'i64': 'an integer over 32 bits', 'n64': 'a negative integer over 32 bits',
        'u64': 'an integer over 63 bits', 'frac': 'a number with a fraction', 'whole': 'a whole number written with a fraction',
        'str': 'a string', 'arr': 'an array', 'obj': 'an object', 'disc': 'a malformed text'}
SIGNED = ('i-', 'i+', 'u32', 'i64', 'n64')
OUT = ('o', 'v')


def program(be):
    return ir.extract(ir.src(BACK[be], 'null_json_serializer.cpp') + [WIT], backend=be)


def payload(k):
    if k in INTS:
        return ('v', ('o', 'n'), 0, 'i')
    if k == 'bool':
        return ('v', ('o', 'b'), 0, 'b')
    if k in REALS:
        return ('v', ('o', 'x'), 0, 'f')
    if k == 'str':
        return ('v', ('o', 's'), 0, 'o')
    return 0


def doc(k, kids=None):
    if k == 'arr':
        return ('J', 'arr', tuple(('J', 'abs', 'e%d' % i) for i in range(2 if kids is None else kids)))
    if k == 'obj':
        ks = (b'k0', b'k1') if kids is None else kids
        return ('J', 'obj', tuple((n, ('J', 'abs', 'm%d' % i)) for i, n in enumerate(ks)))
    return ('J', k, payload(k))


def wit(P, name):
    return next((f for f in P.fns.values() if f.q == 'witness::' + name), None)


class Run(object):
    pass


def start():
    st = X.St()
    st.store[('o', 'text')] = ('v', ('o', 'text'), 0, 'o')
    return st


def run(L, P, name, d, ops, st=None, cb=None, inner=False):
    """All paths of a witness function; None when undecided."""
    f = wit(P, name)
    I = JInterp(P)
    I.doc = d
    I.cb = cb
    I.inner = inner
    r = Run()
    r.I, r.f = I, Run()
    r.f.q, r.f.p = f.q, anchor(P, name) or f.p
    r.why = None
    try:
        r.paths = I.invoke(f.key, None, ops, st or start(), f.p)
    except X.Undecided as e:
        r.paths = None
        r.why = str(e) or 'undecided'
        if any(b[2] for b in I.bad):
            r.paths, r.why = [], None       # the access that ended the path is the answer
        L.note('%s %s: %s' % (name, d and d[1], e))
    if L.prop == 'C23':
        for pos, what, sure in I.bad:
            L.ob('accept', '%s of %s' % (name, d and d[1]), False if sure else None, pos, what)
    L.ran(I, r.paths or ())
    L.count('paths', len(r.paths or ()))
    if r.paths is not None:
        for s, v in r.paths:
            if s.notes or any(e[0] in ('opaque', 'reccall', 'lib') and not harmless(e) for e in s.events()):
                r.why = 'a call on the path is not modelled'
    return r


def anchor(P, name):
    """Position of the back end's own function that a witness reaches."""
    kind, what = name.split('_')
    base = 'dap::Deserializer' if kind == 'dec' else 'dap::Serializer'
    meth = {'visit': 'array', 'array': 'array', 'field': 'field', 'member': 'field', 'count': 'count', 'fields': 'object', 'two': 'object',
            'removed': 'object', 'nestarray': 'array', 'nestobject': 'object'}.get(what, 'deserialize' if kind == 'dec' else 'serialize')
    for f in P.fns.values():
        if f.rec and f.rec != base and P.derives(f.rec, base) and 'Null' not in f.rec and f.n == meth and not f.tmpl and f.virt:
            t = short(f.params[0]['t']).replace(' *', '') if f.params else ''
            if meth not in ('deserialize', 'serialize') or t.endswith('dap::' + what):
                return f.p
    return None


def harmless(e):
    return e[0] == 'lib' and ('Builder' in e[3] or 'allocator' in e[3])


def scal(v):
    """The value inside dap::boolean, integer, number."""
    if isinstance(v, tuple) and v and v[0] == 'rec' and len(v[2]) == 1:
        return v[2][0][1]
    return v


T_ANY = {'bool': 'dap::boolean', 'str': 'dap::string', 'obj': 'dap::object', 'arr': 'dap::array<dap::any>'}
for _k in INTS:
    T_ANY[_k] = 'dap::integer'
for _k in REALS:
    T_ANY[_k] = 'dap::number'
ACCEPT = {'boolean': ('bool',), 'integer': SIGNED, 'number': INTS + REALS, 'string': ('str',), 'object': ('obj',), 'array': ('arr',),
          'any': tuple(k for k in KINDS if k != 'disc')}


def num(p, k):
    return p if k in REALS else ('app', 'dbl', p)


def wrapped(P, t, v):
    """A dap::boolean, integer or number that holds v."""
    rec = P.recs.get(t)
    if rec is None or len(rec['fields']) != 1:
        return v
    return ('rec', None, ((rec['fields'][0]['n'], v),))


def expected(P, dest, k, d):
    """What a destination holds after a successful decode."""
    if dest in ('boolean', 'integer', 'string'):
        return payload(k)
    if dest == 'number':
        return num(payload(k), k)
    if dest == 'array':
        return ('vec', tuple(('any', 'jval', n[2]) for n in d[2]))
    if dest == 'object':
        return ('dobj', tuple((m[0], ('any', 'jval', m[1][2])) for m in d[2]))
    if k in ('null', 'disc'):
        return ('any', None, 0)
    if k == 'arr':
        return ('any', T_ANY[k], expected(P, 'array', k, d))
    if k == 'obj':
        return ('any', T_ANY[k], expected(P, 'object', k, d))
    return ('any', T_ANY[k], payload(k))


def plain(v):
    """A decoded value without the representation."""
    if isinstance(v, tuple) and v:
        if v[0] == 'rec':
            return scal(v)
        if v[0] == 'vec':
            return ('vec', tuple(plain(x) for x in v[1]))
        if v[0] == 'dobj':
            return ('dobj', tuple(sorted((dict(x[2])['first'], plain(dict(x[2])['second'])) for x in v[1])))
        if v[0] == 'any':
            return ('any', v[1], plain(v[2]))
    return v


def known(v):
    """Is the value made of nothing but the document's own parts, constants and conversions?"""
    if isinstance(v, tuple) and v:
        if v[0] == 'sym' or v[0] == 'undef':
            return False
        if v[0] == 'v':
            return v[1][0] == 'o'
        return all(known(x) for x in v[1:] if isinstance(x, tuple))
    return True


def equal(got, want):
    if got == want:
        return True
    return False if known(got) else None


def initial(dest):
    return {'object': ('dobj', ()), 'array': ('vec', ())}.get(dest, ('v', OUT, 0, 'o'))


def nests(s):
    return [e for e in s.events() if e[0] == 'jnest']


def faults(L, rule, name, r):
    for pos, what, sure in r.I.bad:
        L.ob(rule, name, False if sure else None, pos, what)
    if not r.I.bad:
        L.ob(rule, name, True if r.paths is not None and not r.why else None, r.f.p, r.why or '')


def releases(L, rule, name, r):
    """The document is released once, and nothing else is."""
    for s, v in r.paths or ():
        news = [e for e in s.events() if e[0] == 'new']
        frees = [e for e in s.events() if e[0] in ('free', 'doublefree')]
        made = [e[3] for e in news]
        for e in frees:
            p = e[3]
            if p == 0:
                continue
            inner = T.is_ptr(p) and p not in made and X.root(p[1])[0] in ('h', 'v')
            twice = e[0] == 'doublefree' or [x[3] for x in frees].count(p) > 1
            L.ob(rule, name, False if inner or twice else True, e[1], 'a value that is part of the document is deleted' if inner
                 else 'the document is deleted twice')
        for e in news:
            if not any(x[3] == e[3] for x in frees) and T.is_ptr(e[3]):
                L.ob(rule, name, False if e[3][1][0] == 'h' and not r.why else None, e[1], 'the document is never deleted')


def decode(L, P, be, dest, k, d, tag=''):
    st = start()
    st.store[OUT] = initial(dest)
    return run(L, P, 'dec_' + dest, d, [('L', ('o', 'text')), ('ptr', OUT)], st)


DESTS = ('boolean', 'integer', 'number', 'string', 'object', 'any', 'array')
SHAPES = [('arr', 0), ('arr', 1), ('arr', 3), ('obj', ()), ('obj', (b'k',)), ('obj', (b'k', b'k\0x', b'z'))]


def docs():
    for k in KINDS:
        yield k, k, doc(k)
    for k, x in SHAPES:
        yield '%s of %d' % (k, x if k == 'arr' else len(x)), k, doc(k, x)


def C22(L):
    L.rule('access', 'no value is accessed as a kind it does not have, outside its bounds, or through an end iterator')
    L.rule('refuse', 'a value of the wrong kind makes decoding fail')
    L.rule('untouched', 'a scalar or dynamic destination is unchanged when decoding fails')
    L.rule('nested', 'decoding fails if the decoding of a member or element fails')
    L.rule('parse', 'parsing a malformed text neither throws nor aborts')
    L.rule('release', 'the document is deleted once, and no part of it on its own')
    for be in BACK:
        P = program(be)
        L.count('back ends')
        for dest in DESTS:
            for tag, k, d in docs():
                name = '%s: %s from %s' % (be, dest, tag)
                L.count('decodings')
                r = decode(L, P, be, dest, k, d)
                faults(L, 'access', name, r)
                releases(L, 'release', name, r)
                for s, v in r.paths or ():
                    und = r.why is not None
                    ok = v if isinstance(v, int) else None
                    if k not in ACCEPT[dest] and k not in ('u64', 'whole') and not (k == 'disc' and dest == 'any'):
                        L.ob('refuse', name, None if und or ok is None else not ok, r.f.p, '%s is decoded from %s' % (dest, TEXT[k]))
                    if dest in ('boolean', 'integer', 'number', 'string', 'any') and ok == 0:
                        got = r.I.load(s, OUT, '?')
                        e = equal(got, initial(dest))
                        L.ob('untouched', name, None if und and e is False else e, r.f.p,
                             'the destination is changed although decoding %s from %s fails' % (dest, TEXT[k]))
                    if any(e[-1] is False for e in nests(s)):
                        L.ob('nested', name, None if und or ok is None else not ok, r.f.p,
                             'decoding succeeds although that of a member or element fails')
        visits(L, P, be, 'access', None)
        parsing(L, P, be)


def cb_decode(results):
    """A callback given by the user: sees a deserialiser, answers true or false."""
    def cb(I, st, f, ops, e):
        d = V_(I, st, ops[0])
        if not T.is_ptr(d):
            raise J.Give('argument of the callback')
        n = node_of(I, st, d[1])
        who = jval(I, st, n) if n is not None else ('none',) + probe(I, st, d[1])
        s0 = st.copy()
        st.ev('jcb', e['p'], who, True)
        s0.ev('jcb', e['p'], who, False)
        return [(st, 1), (s0, 0)]
    return cb


def probe(I, st, loc):
    """What can be decoded from a deserialiser that refers to no value: (class,
    [(function, parameter type, decodes)] or None)."""
    cls = I.dyntype(st, loc) or I.exact.get(loc) or gtype(I, loc)
    if cls is None or cls not in I.P.recs:
        return (cls, None)
    res = []
    for m in I.P.recs['dap::Deserializer']['methods']:
        if m['n'] not in ('deserialize', 'array', 'field', 'count'):
            continue
        k = I.P.overrider(cls, m['key'])
        f = I.P.fns.get(k)
        if f is None or not f.virt:
            continue
        n = len(I.bad)
        try:
            rs = I.invoke(k, loc, params(f), st.copy(), f.p)
            sure = all(not s.notes and not any(e[0] in ('opaque', 'reccall', 'lib') and not harmless(e) for e in s.events()) for s, _ in rs)
            ok = True if all(v == 0 for _, v in rs) else False if sure and any(isinstance(v, int) and v for _, v in rs) else None
        except X.Undecided:
            ok = None
        if len(I.bad) > n:
            ok = False
        res.append((f, m['pt'][0] if m['n'] == 'deserialize' and m['pt'] else '', ok))
    return (cls, tuple(res))


def gtype(I, loc):
    if loc[0] == 'g':
        g = I.P.globals.get(loc[1])
        return X.noref(g['t']) if g else None
    return None


def V_(I, st, o):
    return I.rv(st, o, 'void *')


def cbs(s):
    return [e for e in s.events() if e[0] == 'jcb']


def visits(L, P, be, access, table):
    """array, field and count. access: rule for faults (C22); table: rule names (C23)."""
    for tag, k, d in list(docs()) + [('arr of 300', 'arr', doc('arr', 300))]:
        name = '%s: elements of %s' % (be, tag)
        st = start()
        st.store[('o', 'cb')] = ('ucb', 'cb')
        r = run(L, P, 'dec_visit', d, [('L', ('o', 'text')), ('L', ('o', 'cb'))], st, cb_decode(None))
        if access:
            faults(L, access, name, r)
            releases(L, 'release', name, r)
        else:
            und = r.why is not None
            for s, v in r.paths or ():
                seen = [e[3] for e in cbs(s)]
                if k != 'arr':
                    L.ob('elements', name, None if und else v == 0 and not seen, r.f.p, 'array() of %s calls back or succeeds' % TEXT[k])
                    continue
                okay = all(e[4] for e in cbs(s))
                want = list(d[2])
                L.ob('elements', name, None if und or any(w[0] == 'none' for w in seen) else (seen == want if okay else seen == want[:len(seen)]), r.f.p,
                     'array() does not visit every element once and in order')
                L.ob('elements', name + ', result', None if und or not isinstance(v, int) else bool(v) == okay, r.f.p,
                     'array() does not return whether every callback succeeded')
        name = '%s: count of %s' % (be, tag)
        r = run(L, P, 'dec_count', d, [('L', ('o', 'text'))])
        if access:
            faults(L, access, name, r)
        elif k == 'arr':
            for s, v in r.paths or ():
                L.ob('elements', name, None if r.why or not isinstance(v, int) else v == len(d[2]), r.f.p, 'count() is not the number of elements')
    for tag, k, d in docs():
        for nm in (b'k0', b'k1', b'k', b'k\0x', b'absent'):
            if k != 'obj' and nm != b'k0':
                continue
            name = '%s: member %s of %s' % (be, nm.decode().replace('\0', '\\0'), tag)
            st = start()
            st.store[('o', 'cb')] = ('ucb', 'cb')
            st.store[('o', 'name')] = nm
            r = run(L, P, 'dec_field', d, [('L', ('o', 'text')), ('L', ('o', 'name')), ('L', ('o', 'cb'))], st, cb_decode(None))
            if access:
                faults(L, access, name, r)
                releases(L, 'release', name, r)
                continue
            und = r.why is not None
            for s, v in r.paths or ():
                seen = cbs(s)
                if k != 'obj':
                    L.ob('members', name, None if und else v == 0 and not seen, r.f.p, 'field() of %s calls back or succeeds' % TEXT[k])
                    continue
                i = [m[0] for m in d[2]].index(nm) if nm in [m[0] for m in d[2]] else None
                if len(seen) != 1:
                    L.ob('members', name, None if und else False, r.f.p, 'field() calls back %d times' % len(seen))
                    continue
                who = seen[0][3]
                if i is not None:
                    L.ob('members', name, None if und else who == d[2][i][1] if who[0] != 'none' or all(x[2] for x in who[2] or ((0, 0, 0),)) else None, r.f.p, 'field() does not hand over the member of that name')
                else:
                    empty = who[0] == 'none' and null_class(L, who[2])
                    L.ob('members', name, True if empty else None if und or who[0] == 'none' else False,
                         r.f.p, 'field() hands over a value for a member that is not present')
                L.ob('members', name + ', result', None if und or not isinstance(v, int) else v == int(seen[0][4]), r.f.p,
                     'field() does not return what the callback returned')


def null_class(L, res):
    """A deserialiser from which nothing can be decoded."""
    for f, t, ok in res or ():
        L.ob('absent', '%s of a member that is not present%s' % (f.q, t), ok, f.p,
             'a value is decoded although the member is not present')
    return bool(res) and all(ok for f, t, ok in res)


def parsing(L, P, be):
    """Calls that throw on a malformed text are caught."""
    from protocol import nodes
    for f in P.fns.values():
        if '/witness/' in f.p[0]:
            continue

        def walk(n, caught):
            if isinstance(n, list):
                for x in n:
                    walk(x, caught)
                return
            if not isinstance(n, dict):
                return
            if n.get('k') == 'try':
                hs = n.get('h') or n.get('handlers') or []
                walk(n['b'], caught + [h.get('ct') or h.get('t') or '' for h in hs])
                for h in hs:
                    walk(h, caught)
                return
            fn = n.get('fn')
            if fn and not fn.get('in') and X.untemplate(fn['q']) in ('Json::CharReader::parse', 'Json::Reader::parse'):
                ok = any(c in ('', '...', None) or 'exception' in c.lower() for c in caught)
                L.ob('parse', '%s: %s' % (be, f.q), ok, n['p'], 'an exception thrown by the parser escapes')
            for k, x in n.items():
                if k != 'rexpr' and isinstance(x, (dict, list)):
                    walk(x, caught)
        walk(f.body, [])


def C23(L):
    L.rule('accept', 'decoding succeeds for every kind that the type admits')
    L.rule('refuse', 'decoding fails for every kind that the type does not admit')
    L.rule('value', 'the value decoded is the value of the document')
    L.rule('elements', 'array() visits every element once, in order, until a callback fails')
    L.rule('members', 'field() hands over the member of that name, or one from which nothing can be decoded')
    L.rule('absent', 'nothing is decoded from a member that is not present')
    L.rule('text', 'the whole text is parsed')
    for be in BACK:
        P = program(be)
        L.count('back ends')
        for dest in DESTS:
            for tag, k, d in docs():
                if k == 'u64':
                    continue
                name = '%s: %s from %s' % (be, dest, tag)
                L.count('decodings')
                r = decode(L, P, be, dest, k, d)
                und = r.why is not None
                for s, v in r.paths or ():
                    ok = v if isinstance(v, int) else None
                    fine = k in ACCEPT[dest]
                    if k == 'disc' and dest == 'any':
                        if ok:
                            got = plain(r.I.load(s, OUT, '?'))
                            L.ob('refuse', name, None if und else got == ('any', None, 0), r.f.p, 'a malformed text is decoded to a value')
                        continue
                    if not fine:
                        L.ob('refuse', name, None if und or ok is None else not ok, r.f.p, '%s is decoded from %s' % (dest, TEXT[k]))
                        continue
                    nested = all(e[-1] for e in nests(s))
                    if nested:
                        L.ob('accept', name, None if und or ok is None else bool(ok), r.f.p, '%s is not decoded from %s' % (dest, TEXT[k]))
                    if ok:
                        got, want = plain(r.I.load(s, OUT, '?')), plain_want(expected(P, dest, k, d))
                        e = equal(got, want)
                        L.ob('value', name, None if und and e is False else e, r.f.p,
                             'the value decoded from %s is not its value: %s' % (TEXT[k], show(got)))
                for s, v in r.paths or ():
                    for e in s.events():
                        if e[0] == 'jparse':
                            L.ob('text', be, bool(e[3]), e[1], 'the text is parsed only up to its first NUL character')
        visits(L, P, be, None, True)


def plain_want(v):
    if isinstance(v, tuple) and v and v[0] == 'dobj':
        return ('dobj', tuple(sorted(v[1])))
    if isinstance(v, tuple) and v and v[0] == 'any':
        return ('any', v[1], plain_want(v[2]))
    return v


def show(v):
    return str(v)[:160]


# -- encoding ---------------------------------------------------------------------------

RES = ('o', 'out')


def norm(v):
    """A document without its representation."""
    if isinstance(v, tuple) and v and v[0] == 'J':
        k = v[1]
        if k == 'arr':
            return ('J', 'arr', tuple(norm(x) for x in v[2]))
        if k == 'obj':
            return ('J', 'obj', tuple(sorted(((m[0], norm(m[1])) for m in v[2] if m is not None), key=repr)))
        if k == 'strref':
            return ('J', 'str', v[2])
        if k in ('bool', 'int', 'num'):
            return ('J', k, scal(v[2]))
        return v
    return v


def written(r, s):
    """The document that was written out."""
    v = r.I.load(s, RES, 'std::string')
    while isinstance(v, tuple) and v and v[0] in ('cat', 'app', 'seq') and len(v) == 2:
        v = v[1]
    if isinstance(v, tuple) and v and v[0] == 'dump':
        return norm(v[1])
    return None


def enc(L, P, name, st, ops, cb=None, inner=False):
    return run(L, P, name, None, ops + [('ptr', RES)], st, cb, inner)


def content(L, rule, name, r, want, msg=''):
    """On every path where encoding succeeds, the document written is want."""
    faults(L, 'safe', name, r)
    some = False
    for s, v in r.paths or ():
        ok = v if isinstance(v, int) else None
        if ok == 0:
            continue
        some = True
        got = written(r, s)
        w = want(s) if callable(want) else want
        e = None if got is None or ok is None or r.why else got == w
        if e is False and not known(got):
            e = None
        L.ob(rule, name, e, r.f.p, (msg or 'the document written is not the value given') + ': ' + show(got))
    return some


def outcome(L, name, r, failed):
    """The call reports failure exactly when a nested encoding failed."""
    for s, v in r.paths or ():
        bad = failed(s)
        ok = v if isinstance(v, int) else None
        L.ob('failure', name, None if ok is None or r.why else bool(ok) != bad, r.f.p,
             'encoding reports success although a nested value failed' if bad else 'encoding reports failure although nothing failed')


def nested_failed(s):
    return any(e[0] in ('jnest', 'jti', 'jcb') and e[-1] is False for e in s.events())


def sym(n, sort):
    return ('v', ('o', n), 0, sort)


KEYS = ((), (b'k',), (b'k', b'k\0x'), (b'k', b'k\0x', b'z'))


def C24(L):
    L.rule('scalar', 'a boolean, integer, number or string is written as that kind with the value given')
    L.rule('dynamic', 'a dynamic value is written as the value it holds, null as null')
    L.rule('object', 'every entry of an object is written once, under its own name')
    L.rule('array', 'every element of an array is written once, in its own place')
    L.rule('fields', 'every field is written under its own name, and a removed field does not appear')
    L.rule('failure', 'the enclosing call reports failure exactly when a nested value fails to encode')
    L.rule('forms', 'optional, variant, C string and array forms write the value they hold')
    L.rule('safe', 'encoding makes no access that the JSON library forbids')
    for be in BACK:
        P = program(be)
        L.count('back ends')
        encode_all(L, P, be)


def encode_all(L, P, be):
    V = ('o', 'v')

    def fresh():
        st = X.St()
        return st
    T1 = {'boolean': ('bool', sym('b', 'b')), 'integer': ('int', sym('n', 'i')), 'number': ('num', sym('x', 'f')), 'string': ('str', sym('s', 'o'))}
    for t, (k, p) in sorted(T1.items()):
        st = fresh()
        st.store[V] = wrapped(P, 'dap::' + t, p)
        r = enc(L, P, 'enc_' + t, st, [('L', V)])
        name = '%s: %s' % (be, t)
        content(L, 'scalar', name, r, ('J', k, p))
        outcome(L, name, r, nested_failed)
        releases(L, 'safe', name, r)
        st = fresh()
        st.store[V] = ('any', 'dap::' + t, wrapped(P, 'dap::' + t, p))
        r = enc(L, P, 'enc_any', st, [('L', V)])
        name = '%s: any holding %s' % (be, t)
        content(L, 'dynamic', name, r, ('J', k, p))
        outcome(L, name, r, nested_failed)
    st = fresh()
    st.store[V] = ('any', None, 0)
    r = enc(L, P, 'enc_any', st, [('L', V)])
    content(L, 'dynamic', '%s: null' % be, r, NULLJ)
    outcome(L, '%s: null' % be, r, nested_failed)
    for t in ('dap::array<dap::any>', 'witness::Custom'):
        st = fresh()
        st.store[V] = ('any', t, sym('held', 'o'))
        r = enc(L, P, 'enc_any', st, [('L', V)])
        name = '%s: any holding %s' % (be, t)
        content(L, 'dynamic', name, r, ('J', 'ti', (ti(t), sym('held', 'o'))))
        outcome(L, name, r, nested_failed)

    def entries(keys):
        return ('dobj', tuple(('rec', None, (('first', k), ('second', ('any', 'abs', 'a%d' % i)))) for i, k in enumerate(keys)))

    def objdoc(keys):
        return norm(('J', 'obj', tuple((k, ('J', 'enc', ('dap::any', ('any', 'abs', 'a%d' % i)))) for i, k in enumerate(keys))))
    for keys in KEYS:
        st = fresh()
        st.store[V] = entries(keys)
        name = '%s: object of %d' % (be, len(keys))
        r = enc(L, P, 'enc_object', st, [('L', V)])
        content(L, 'object', name, r, objdoc(keys))
        outcome(L, name, r, nested_failed)
        st = fresh()
        st.store[V] = ('any', 'dap::object', entries(keys))
        name = '%s: any holding an object of %d' % (be, len(keys))
        r = enc(L, P, 'enc_any', st, [('L', V)])
        content(L, 'dynamic', name, r, objdoc(keys))
        outcome(L, name, r, nested_failed)
    for n in (0, 1, 2, 3, 300):
        st = fresh()
        st.store[V] = ('vec', tuple(('any', 'abs', 'a%d' % i) for i in range(n)))
        name = '%s: array of %d' % (be, n)
        r = enc(L, P, 'enc_array', st, [('L', V)])
        content(L, 'array', name, r, ('J', 'arr', tuple(('J', 'enc', ('dap::any', ('any', 'abs', 'a%d' % i))) for i in range(n))))
        outcome(L, name, r, nested_failed)
        st = fresh()
        st.store[('o', 'cb')] = ('ucb', 'cb')
        name = '%s: array() of %d' % (be, n)
        r = enc(L, P, 'enc_visit', st, [n, ('L', ('o', 'cb'))], cb_encode(('ok', 'fail')))
        content(L, 'array', name, r, lambda s: ('J', 'arr', tuple(('J', 'cbval', i) for i in range(n))))
        outcome(L, name, r, nested_failed)
    for a, b in ((b'k', b'z'), (b'k', b'k\0x'), (b'k\0x', b'k'), (b'k\0x', b'k\0y')):
        st = fresh()
        st.store[('o', 'n0')], st.store[('o', 'n1')] = a, b
        st.store[('o', 'c0')], st.store[('o', 'c1')] = ('ucb', 0), ('ucb', 1)
        name = '%s: fields %s' % (be, (a + b' ' + b).decode().replace('\0', '\\0'))
        f = wit(P, 'enc_two')
        r = run(L, P, 'enc_two', None, [('L', ('o', 'n0')), ('L', ('o', 'c0')), ('L', ('o', 'n1')), ('L', ('o', 'c1')),
                                        ('ptr', ('o', 'r0')), ('ptr', ('o', 'r1')), ('ptr', RES)], st, cb_encode(('ok', 'fail', 'remove')))
        faults(L, 'safe', name, r)
        for s, v in r.paths or ():
            und = r.why is not None
            did = {e[3]: e[4] for e in cbs(s)}
            L.ob('fields', name + ', each once', None if und else sorted(e[3] for e in cbs(s)) == [0, 1], r.f.p, 'a field is not encoded exactly once')
            for i in (0, 1):
                res = r.I.load(s, ('o', 'r%d' % i), 'bool')
                L.ob('failure', name + ', result', None if und or not isinstance(res, int) or i not in did else bool(res) == (did[i] != 'fail'),
                     r.f.p, 'field() does not return whether the field was encoded')
            ok = v if isinstance(v, int) else None
            bad = any(x == 'fail' for x in did.values())
            L.ob('failure', name, None if und or ok is None else bool(ok) != bad, r.f.p, 'object() does not return what its callback returned')
            got = written(r, s)
            want = norm(('J', 'obj', tuple((n, ('J', 'cbval', i)) for i, n in enumerate((a, b)) if did.get(i) == 'ok')))
            if bad:
                continue
            e = None if und or got is None else got == want
            L.ob('fields', name, e if e is not False or known(got) else None, r.f.p, 'the fields written are not those encoded: ' + show(got))
        # values given directly
        st = fresh()
        st.store[('o', 'n0')] = b
        st.store[V] = ('any', 'abs', 'a')
        r = enc(L, P, 'enc_member', st, [('L', ('o', 'n0')), ('L', V)])
        name = '%s: field %s by value' % (be, b.decode().replace('\0', '\\0'))
        content(L, 'fields', name, r, ('J', 'obj', ((b, ('J', 'enc', ('dap::any', ('any', 'abs', 'a')))),)))
        outcome(L, name, r, nested_failed)
    for n in (0, 1, 2):
        st = fresh()
        st.store[('o', 'cb')] = ('ucb', 'cb')
        name = '%s: array of %d in an array' % (be, n)
        r = enc(L, P, 'enc_nestarray', st, [n, ('L', ('o', 'cb'))], cb_encode(('ok', 'fail')), True)
        content(L, 'array', name, r, ('J', 'arr', tuple(('J', 'arr', tuple(('J', 'cbval', i + n * j) for i in range(n))) for j in (0, 1))))
        outcome(L, name, r, nested_failed)
    st = fresh()
    st.store[('o', 'n0')] = b'k'
    r = enc(L, P, 'enc_nestobject', st, [('L', ('o', 'n0'))], None, True)
    content(L, 'object', be + ': object without fields in an object', r, ('J', 'obj', ((b'k', ('J', 'obj', ())),)))
    forms(L, P, be)


def forms(L, P, be):
    V = ('o', 'v')
    r = enc(L, P, 'enc_cstring', X.St(), [('ptr', ('e', ('str', b'text'), 0))])
    content(L, 'forms', be + ': C string', r, ('J', 'str', b'text'))
    # an optional with and without a value, built by its own constructors
    for w, has in (('some', True), ('none', False)):
        f = wit(P, 'enc_' + w)
        if f is None:
            continue
        st = X.St()
        st.store[('o', 'x')] = wrapped(P, 'dap::integer', sym('n', 'i'))
        st.store[('o', 'n0')] = b'k'
        r = enc(L, P, 'enc_' + w, st, [('L', ('o', 'n0')), ('L', ('o', 'x'))])
        want = ('J', 'obj', ((b'k', ('J', 'enc', ('dap::integer', wrapped(P, 'dap::integer', sym('n', 'i'))))),)) if has else ('J', 'obj', ())
        name = '%s: optional with%s a value' % (be, '' if has else 'out')
        content(L, 'forms', name, r, lambda s: strip_enc(want))
        outcome(L, name, r, nested_failed)
    st = X.St()
    st.store[('o', 'x')] = wrapped(P, 'dap::integer', sym('n', 'i'))
    r = enc(L, P, 'enc_held', st, [('L', ('o', 'x'))])
    content(L, 'forms', be + ': variant', r, ('J', 'int', sym('n', 'i')))
    outcome(L, be + ': variant', r, nested_failed)


def strip_enc(v):
    return v


def cb_encode(outs):
    def cb(I, st, f, ops, e):
        p = V_(I, st, ops[0])
        if not T.is_ptr(p):
            raise J.Give('argument of the callback')
        n = node_of(I, st, p[1])
        if n is None:
            raise J.Give('serialiser of the callback')
        k = f[1] if isinstance(f[1], int) else len([x for x in st.events() if x[0] == 'jcb'])
        res = []
        for o in outs:
            s = st.copy()
            s.ev('jcb', e['p'], k, {'ok': 'ok', 'fail': 'fail', 'remove': 'remove'}[o] if isinstance(f[1], int) else o != 'fail')
            if o == 'ok':
                I.put(s, n, ('J', 'cbval', k))
                res.append((s, 1))
            elif o == 'fail':
                res.append((s, 0))
            else:
                m = next(m for m in I.P.recs['dap::Serializer']['methods'] if m['n'] == 'remove')
                key = I.P.overrider(I.dyntype(s, p[1]), m['key'])
                if key is None or key not in I.P.fns:
                    raise J.Give('remove')
                for s2, _ in I.invoke(key, p[1], [], s, e['p']):
                    res.append((s2, 1))
        return res
    return cb
