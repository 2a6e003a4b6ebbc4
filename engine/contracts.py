"""Contracts of the (de)serialisation interface and of TypeInfo, used when the
session code is analysed independently of the JSON back end. The back ends are
checked against these contracts by C22-C24."""
import terms as T
import interp as X
import models as M


def V(I, st, o, t='?'):
    return I.rv(st, o, t)


def doc_of(I, st, loc):
    d = st.store.get(('x', loc, 'doc'))
    if d is None:
        return ('v', loc, 0, 'o')
    return d


def mkdeser(I, st, doc):
    l = ('h', I.newid(), 'deser')
    st.store[('x', l, 'doc')] = doc
    return l


NULLDOC = ('app', 'jnull')


def deserializer(I, st, fr, e, loc, ops):
    pos = e['p']
    if e['k'] == 'ctor':
        l = ('h', I.newid(), 'deser')
        a = V(I, st, ops[0], e['args'][0]['t']) if ops else 0
        if e['fn'].get('cm') in ('copy', 'move'):
            src = ops[0][1]
            st.store[('x', l, 'doc')] = doc_of(I, st, src)
        else:
            st.store[('x', l, 'doc')] = ('app', 'parse', a)
            st.ev('parse', pos, a)
        return [(st, ('L', l))]
    name = e['fn']['q'].split('::')[-1]
    doc = doc_of(I, st, loc)
    if name == 'field' and len(ops) == 2:
        nm = V(I, st, ops[0], 'std::string')
        cb = V(I, st, ops[1], e['args'][1]['t'])
        out = []
        if doc == NULLDOC:
            st.ev('dfield', pos, doc, nm, 'nullobj')
            return [(st, 0)]
        # not an object
        s0 = st.copy()
        if s0.facts.assume(('app', 'isobj', doc), False):
            s0.ev('dfield', pos, doc, nm, 'notobj')
            out.append((s0, 0))
        if st.facts.assume(('app', 'isobj', doc), True):
            has = ('app', 'hasfield', doc, nm)
            for s, b in I.fork(st, has):
                sub = ('app', 'jfield', doc, nm) if b else NULLDOC
                s.ev('dfield', pos, doc, nm, 'present' if b else 'missing')
                dl = mkdeser(I, s, sub)
                for s2, v in M.call_function(I, s, fr, e, cb, [('ptr', dl)], pos, ['dap::Deserializer *'], 'bool'):
                    v = V(I, s2, v, 'bool')
                    out.append((s2, v))
        return out
    if name == 'deserialize':
        p = V(I, st, ops[0], 'void *')
        out = []
        if doc == NULLDOC:
            return [(st, 0)]
        t = X.pointee(e['fn']['pt'][0])
        ok = ('app', 'jis', doc, t)
        for s, b in I.fork(st, ok):
            s.ev('deser', pos, doc, p, t, b)
            if b:
                l = I.deref(p, t)
                I.put(s, l, ('app', 'jval', doc, t))
            out.append((s, int(b)))
        return out
    if name == 'count':
        return [(st, ('app', 'jcount', doc))]
    if name == 'array':
        st.ev('darray', pos, doc)
        return [(st, I.fresh('darr', 'b'))]
    st.note('deserializer ' + name)
    return [(st, M.ret_of(I, e))]


def content(I, st, loc):
    return st.store.get(('x', loc, 'content'), ('junk', loc))


def serializer(I, st, fr, e, loc, ops):
    pos = e['p']
    if e['k'] == 'ctor':
        l = ('h', I.newid(), 'ser')
        st.store[('x', l, 'content')] = ('jempty',)
        return [(st, ('L', l))]
    name = e['fn']['q'].split('::')[-1]
    if name == 'object':
        cb = V(I, st, ops[0], e['args'][0]['t'])
        fl = ('h', I.newid(), 'fser')
        st.store[('x', fl, 'content')] = ('jobj',)
        out = []
        for s, v in M.call_function(I, st, fr, e, cb, [('ptr', fl)], pos, ['dap::FieldSerializer *'], 'bool'):
            v = V(I, s, v, 'bool')
            for s2, b in I.fork(s, v):
                s2.store[('x', loc, 'content')] = content(I, s2, fl)
                s2.ev('serobj', pos, content(I, s2, fl), b)
                out.append((s2, int(b)))
        return out
    if name == 'serialize':
        v = V(I, st, ops[0], X.noref(e['fn']['pt'][0]))
        st.store[('x', loc, 'content')] = ('jv', X.noref(e['fn']['pt'][0]), v)
        return [(st, 1)]
    if name == 'remove':
        st.store[('x', loc, 'content')] = ('jremoved',)
        return [(st, 0)]
    if name == 'array':
        st.store[('x', loc, 'content')] = ('jarr', I.newid())
        return [(st, I.fresh('sarr', 'b'))]
    if name == 'dump':
        return [(st, ('dump', content(I, st, loc)))]
    st.note('serializer ' + name)
    return [(st, M.ret_of(I, e))]


def fieldserializer(I, st, fr, e, loc, ops):
    pos = e['p']
    if e['k'] == 'ctor':
        l = ('h', I.newid(), 'fser')
        st.store[('x', l, 'content')] = ('jobj',)
        return [(st, ('L', l))]
    name = e['fn']['q'].split('::')[-1]
    if name == 'field' and len(ops) == 2:
        nm = V(I, st, ops[0], 'std::string')
        cb = V(I, st, ops[1], e['args'][1]['t'])
        sl = ('h', I.newid(), 'ser')
        st.store[('x', sl, 'content')] = ('jempty',)
        out = []
        for s, v in M.call_function(I, st, fr, e, cb, [('ptr', sl)], pos, ['dap::Serializer *'], 'bool'):
            v = V(I, s, v, 'bool')
            c = content(I, s, loc)
            s.store[('x', loc, 'content')] = c + ((nm, content(I, s, sl)),)
            out.append((s, v))
        return out
    st.note('fieldserializer ' + name)
    return [(st, M.ret_of(I, e))]


def ti_serialize(I, st, fr, e, fn, recv, ops):
    """TypeInfo::serialize(Serializer*, const void*)"""
    s0 = st.copy()
    s = V(I, st, ops[0], 'void *')
    p = V(I, st, ops[1], 'void *')
    l = I.deref(s, '?')
    st.ev('tiser', e['p'], recv, p, True)
    st.store[('x', l, 'content')] = ('ti', recv, p)
    s0.ev('tiser', e['p'], recv, p, False)
    return [(st, 1), (s0, 0)]


def ti_deserialize(I, st, fr, e, fn, recv, ops):
    d = V(I, st, ops[0], 'void *')
    p = V(I, st, ops[1], 'void *')
    l = I.deref(d, '?')
    doc = doc_of(I, st, l)
    s0 = st.copy()
    st.ev('tideser', e['p'], recv, p, doc, True)
    s0.ev('tideser', e['p'], recv, p, doc, False)
    return [(st, 1), (s0, 0)]


def ti_event(kind):
    def h(I, st, fr, e, fn, recv, ops):
        st.ev(kind, e['p'], recv, *[V(I, st, o, 'void *') for o in ops])
        return [(st, 0)]
    return h


def ti_pure(name):
    def h(I, st, fr, e, fn, recv, ops):
        return [(st, ('app', name, recv))]
    return h


def install(I):
    I.contract['dap::Deserializer'] = deserializer
    I.contract['dap::Serializer'] = serializer
    I.contract['dap::FieldSerializer'] = fieldserializer
    I.icalls.update({
        'dap::TypeInfo::serialize': ti_serialize, 'dap::TypeInfo::deserialize': ti_deserialize,
        'dap::TypeInfo::construct': ti_event('tictor'), 'dap::TypeInfo::destruct': ti_event('tidtor'),
        'dap::TypeInfo::copyConstruct': ti_event('ticopy'),
        'dap::TypeInfo::name': ti_pure('name'), 'dap::TypeInfo::size': ti_pure('size'),
        'dap::TypeInfo::alignment': ti_pure('align'),
    })
