"""Interprocedural, path-sensitive abstract interpretation of the exported AST.

Values are terms of terms.py (value numbering); control flow forks abstract
states and joins those that agree on everything but the branch facts; loops are
analysed once from a widened (havocked) head with recognised inductions; calls
are analysed in context; library calls are transfer functions (models.py).
Nothing is executed.
"""
import re
import sys

import terms as T
from terms import add, sub, mul, scale, eq, le, lt, neg, seqlen, mkseq, concat, parts_of, root, under

sys.setrecursionlimit(20000)


class Undecided(Exception):
    pass


class St(object):
    __slots__ = ('store', 'facts', 'trace', 'locks', 'cleanup', 'temps', 'notes')

    def __init__(self):
        self.store = {}
        self.facts = T.Facts()
        self.trace = None
        self.locks = ()
        self.cleanup = ()
        self.temps = ()
        self.notes = frozenset()

    def copy(self):
        s = St()
        s.store = dict(self.store)
        s.facts = self.facts.copy()
        s.trace, s.locks = self.trace, self.locks
        s.cleanup, s.temps, s.notes = self.cleanup, self.temps, self.notes
        return s

    def ev(self, kind, pos, *data):
        self.trace = (self.trace, (kind, pos, self.locks) + data)

    def note(self, n):
        self.notes = self.notes | frozenset([n])

    def events(self, since=None):
        out = []
        t = self.trace
        while t is not None and t is not since:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Frame(object):
    __slots__ = ('fid', 'fn', 'this', 'caps', 'retloc', 'clo')

    def __init__(self, fid, fn, this, caps, retloc):
        self.fid, self.fn, self.this, self.caps, self.retloc = fid, fn, this, caps, retloc
        self.clo = None


# -- types -------------------------------------------------------------------

def strip(t):
    t = t.strip()
    while True:
        if t.startswith('const '):
            t = t[6:]
        elif t.startswith('volatile '):
            t = t[9:]
        else:
            break
    return t


def noref(t):
    t = t.strip()
    if '(&)' in t:
        return strip(t.replace(' (&)', '').replace('(&)', ''))
    if t.endswith('&&'):
        t = t[:-2].strip()
    elif t.endswith('&'):
        t = t[:-1].strip()
    return strip(t)


def is_ref(t):
    return t.rstrip().endswith('&') or '(&)' in t


def is_pointer(t):
    t = norestrict(t)
    return t.rstrip().endswith('*') or t.rstrip().endswith('*const') or '(*)' in t


def norestrict(t):
    t = t.rstrip()
    for q in ('__restrict__', '__restrict', 'restrict'):
        if t.endswith(q):
            return t[:-len(q)].rstrip()
    return t


def pointee(t):
    t = norestrict(t).strip()
    if t.endswith('const'):
        t = t[:-5].strip()
    if t.endswith('*'):
        t = t[:-1].strip()
    return strip(t)


def sort_of(t):
    t = noref(t)
    if t == 'bool':
        return 'b'
    if t in ('unsigned char', 'char', 'signed char'):
        return 'c' if t == 'unsigned char' else 'i'
    if t.startswith('unsigned'):
        return 'u'
    if t in ('int', 'long', 'short', 'long long'):
        return 'i'
    if is_pointer(t):
        return 'p'
    if t in ('float', 'double'):
        return 'f'
    return 'o'


_base_cache = {}


def untemplate(q):
    """Remove template arguments from a qualified name."""
    if q in _base_cache:
        return _base_cache[q]
    head, op = q, ''
    i = q.rfind('operator')
    if i >= 0 and (i == 0 or q[i - 1] == ':') and not q[i + 8:i + 9].isalnum() and q[i + 8:i + 9] != '_':
        head, op = q[:i], q[i:]
        if op.startswith('operator ') and not op.startswith('operator bool') and '<' in op:
            op = 'operator ' + untemplate(op[9:])
    out, depth = [], 0
    for ch in head:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            out.append(ch)
    r = ''.join(out) + op
    _base_cache[q] = r
    return r


ALIAS = {
    'std::__shared_ptr': 'std::shared_ptr', 'std::__shared_ptr_access': 'std::shared_ptr',
    'std::__atomic_base': 'std::atomic', 'std::_Deque_iterator': 'iter',
    '__gnu_cxx::__normal_iterator': 'iter', 'std::basic_string': 'std::string',
    'std::__detail::_Node_iterator': 'miter', 'std::__detail::_Node_const_iterator': 'miter',
    'std::__detail::_Node_iterator_base': 'miter', 'std::_Rb_tree_iterator': 'miter',
    'std::_Rb_tree_const_iterator': 'miter', 'std::map': 'std::unordered_map',
    'std::set': 'std::unordered_set', 'std::recursive_mutex': 'std::mutex',
    'std::__detail::operator!=': 'std::operator!=', 'std::__detail::operator==': 'std::operator==',
    '__gnu_cxx::operator!=': 'std::operator!=', '__gnu_cxx::operator==': 'std::operator==',
    '__gnu_cxx::operator-': 'std::operator-', 'std::list': 'std::deque', 'std::condition_variable_any': 'std::condition_variable',
    'std::__mutex_base': 'std::mutex', 'std::scoped_lock': 'std::lock_guard', 'std::__basic_future': 'std::future',
}


def cls_of(t):
    c = untemplate(noref(t))
    return ALIAS.get(c, c)


GHOST = ('o', '$sent')      # bytes handed to the system so far (set by a sys_hook)


class Interp(object):
    MAXSTEPS = 400000
    zterm = None
    nojoin = False
    head_hook = None
    back_hook = None
    sys_hook = None
    peel_all = False
    peel = 0
    MAXSTATES = 3000
    MAXDEPTH = 60
    UNROLL = 40

    def __init__(self, prog):
        self.P = prog
        self.uid = 0
        self.steps = 0
        self.depth = 0
        self.stack = []
        self.accs = []          # access log: (loc, 'r'/'w'/..., locks, pos)
        self.log = False
        self.calls = 0
        self.analysed = set()   # functions whose body was analysed
        self.unmodelled = {}
        self.contract = {}      # class base name -> handler(I, st, fr, e, fn, objloc, args)
        self.prims = set()      # repo classes handled by models instead of by inlining
        self.icalls = {}        # 'dap::Reader::read' -> handler
        self.noinline = set()   # function q -> opaque
        self.on_ucall = None
        self.baseadj = False        # casts to a base class move the address
        self.oracle = None      # decides a branch condition the facts leave open
        self.aborts = None      # [(state, position)] of failed assertions, when collected
        self.dead = set()       # frames that have returned
        self.deadcheck = False
        self.dangling = set()   # locals of returned frames that were read
        self.summ = {}          # repo function q -> summary handler
        self.exact = {}         # root loc -> exact record
        import models
        self.M = models
        self.M.install(self)

    # -- helpers ---------------------------------------------------------------
    def fresh(self, hint='s', sort='o'):
        self.uid += 1
        return ('sym', hint, self.uid, sort)

    def newid(self):
        self.uid += 1
        return self.uid

    def is_repo_rec(self, t):
        t = noref(t)
        r = self.P.recs.get(t)
        return bool(r and r.get('in') and not r.get('lambda'))

    def is_rec(self, t):
        t = noref(t)
        if t in self.P.recs:
            return True
        return t.startswith('std::') or '::' in t and not is_pointer(t)

    def step(self):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided('step limit')

    # -- store -------------------------------------------------------------------
    def epoch(self, st, loc):
        while True:
            n = st.store.get(('ep', loc))
            if n is not None:
                return n
            if loc[0] in ('f', 'e', 'm', 'x'):
                loc = loc[1]
            else:
                return 0

    def project(self, v, name):
        if isinstance(v, tuple):
            if v[0] == 'rec':
                for n, x in v[2]:
                    if n == name:
                        return x
                if v[1] is not None:
                    return self.project(v[1], name)
                return ('undef', name)
            if v[0] == 'undef':
                return v
        if v == 0:
            return 0
        return ('proj', v, name)

    def load_opt(self, st, loc):
        """The stored (or projected) value of loc, or None if it was never set."""
        s = st.store
        v = s.get(loc)
        if v is not None:
            return v
        if loc[0] == 'f':
            b = self.load_opt(st, loc[1])
            if b is not None:
                return self.project(b, loc[2])
        elif loc[0] == 'e':
            return self.load_elem(st, loc, opt=True)
        elif loc[0] == 'val':
            return loc[1]
        elif loc[0] == 'str':
            return loc[1] + b'\0'
        return None

    def load_elem(self, st, loc, opt=False):
        base, idx = loc[1], loc[2]
        if base[0] == 'str':
            b = base[1] + b'\0'
            if isinstance(idx, int):
                return b[idx] if 0 <= idx < len(b) else ('undef', 'oob')
            return ('at', b, idx)
        wl = st.store.get(('wl', base))
        if wl is not None:
            if wl[0] == 'mess':
                return ('at', ('mess', base, wl[1]), idx)
            off = sub(idx, wl[0])
            if st.facts.decide(le(0, off)) and st.facts.decide(lt(off, seqlen(wl[1]))):
                return self.seq_at(st, wl[1], off)
            n = seqlen(wl[1])
            if not (st.facts.decide(lt(off, 0)) or st.facts.decide(le(n, off))):
                return ('at', ('wl', base, wl), idx)
        c = self.load_opt(st, base)
        if c is not None:
            if isinstance(c, tuple) and c[0] == 'undef':
                return c
            return self.seq_at(st, c, idx)
        if opt:
            return None
        return ('at', ('v', base, self.epoch(st, base), 'o'), idx)

    def subentries(self, st, loc):
        out = []
        for k in st.store:
            if k != loc and k[0] in ('f', 'e', 'm') and under(k[1], loc):
                out.append(k)
        return out

    def load(self, st, loc, t):
        s = st.store
        if self.deadcheck:
            r = root(loc)
            if r[0] == 'v' and r[1] in self.dead:
                self.dangling.add((r, self.stack[-1] if self.stack else None))
        v = s.get(loc)
        if v is not None:
            if isinstance(v, tuple) and v and v[0] == 'ref' and not is_ref(t):
                return self.load(st, v[1], t)
            if sort_of(t) == 'o':
                subs = self.subentries(st, loc)
                if subs:
                    return self.snapshot(st, loc, v, subs)
            return v
        if loc[0] == 'e':
            x = self.load_elem(st, loc, opt=sort_of(t) in ('o', 'p', 'b', 'u', 'i') and True)
            if x is not None:
                return x
        elif loc[0] == 'f':
            b = self.load_opt(st, loc[1])
            if b is not None and not (isinstance(b, tuple) and b[0] == 'obj'):
                return self.project(b, loc[2])
        elif loc[0] == 'val':
            return loc[1]
        elif loc[0] == 'str':
            return loc[1]
        if sort_of(t) == 'o':
            subs = self.subentries(st, loc)
            if subs:
                return self.snapshot(st, loc, None, subs)
        sort = sort_of(t)
        r = root(loc)
        if r[0] == 'v' and self.epoch(st, loc) == 0:
            return ('undef', loc)
        if sort == 'c' and loc[0] == 'e' or sort == 'i' and loc[0] == 'e' and noref(t) == 'char':
            return ('at', ('v', loc[1], self.epoch(st, loc[1]), 'o'), loc[2])
        return ('v', loc, self.epoch(st, loc), sort)

    def snapshot(self, st, loc, base, subs):
        if base is None:
            if root(loc)[0] not in ('v', 't', 'h'):
                base = ('v', loc, self.epoch(st, loc), 'o')
        top = {}
        for k in subs:
            x = k
            while x[1] != loc:
                x = x[1]
            if x[0] == 'f':
                top[x[2]] = x
        fields = []
        for n in sorted(top):
            fields.append((n, self.load(st, top[n], '?')))
        return ('rec', base, tuple(fields))

    def clear(self, st, loc):
        for k in self.subentries(st, loc):
            del st.store[k]
        for k in [k for k in st.store if k[0] in ('ep', 'wl', 'mhas', 'cstr', 'dyn') and under(k[1], loc)]:
            del st.store[k]

    def put(self, st, loc, v):
        if loc[0] == 'e':
            base = loc[1]
            if self.bytelike(st, base):
                self.put_elem(st, base, loc[2], v)
                return
        for k in self.subentries(st, loc):
            del st.store[k]
        st.store.pop(('wl', loc), None)
        st.store.pop(('cstr', loc), None)
        st.store[loc] = v

    def bytelike(self, st, base):
        return st.store.get(('elt', base), None) != 'obj'

    def put_elem(self, st, base, idx, v):
        st.store.pop(('cstr', base), None)
        wl = st.store.get(('wl', base))
        if wl is None:
            st.store[('wl', base)] = (idx, mkseq([('el', v)]))
        elif wl[0] != 'mess' and st.facts.decide(eq(add(wl[0], seqlen(wl[1])), idx)):
            st.store[('wl', base)] = (wl[0], concat(wl[1], mkseq([('el', v)])))
        elif wl[0] != 'mess' and isinstance(idx, int) and isinstance(wl[0], int) and isinstance(seqlen(wl[1]), int) \
                and wl[0] <= idx < wl[0] + seqlen(wl[1]):
            off = idx - wl[0]
            st.store[('wl', base)] = (wl[0], concat(self.seq_take(st, wl[1], off), mkseq([('el', v)]),
                                                    self.seq_drop(st, wl[1], off + 1)))
        else:
            if wl[0] != 'mess' and st.facts.decide(lt(idx, add(wl[0], seqlen(wl[1])))) and st.facts.decide(le(wl[0], idx)):
                st.ev('overwrite', None, base, idx)
            st.store[('wl', base)] = ('mess', self.newid())

    def havoc(self, st, loc):
        self.clear(st, loc)
        st.store.pop(loc, None)
        st.store[('ep', loc)] = self.newid()

    def acc(self, st, loc, rw, pos):
        if self.log:
            r = root(loc)
            if r[0] in ('o', 'd', 'g', 'h'):
                self.accs.append((loc, rw, st.locks, pos, self.stack[0] if self.stack else None,
                                  self.stack[-1] if self.stack else None, st.trace, dict(
                                      (k[1], v) for k, v in st.store.items() if k[0] == 'dyn')))

    # -- sequences (need facts) ---------------------------------------------------
    def seq_at(self, st, s, i):
        if isinstance(s, bytes) and isinstance(i, int):
            return s[i] if 0 <= i < len(s) else ('undef', 'oob')
        ps = parts_of(s)
        off = 0
        for p in ps:
            n = T.partlen(p)
            end = add(off, n)
            r = sub(i, off)
            inside = st.facts.decide(lt(i, end))
            if inside:
                if p[0] == 'lit':
                    if isinstance(r, int):
                        return p[1][r] if r >= 0 else ('undef', 'oob')
                    return ('at', p[1], r)
                if p[0] == 'el':
                    return p[1]
                if p[0] == 'sl':
                    return ('at', p[1], add(p[2], r))
                if p[0] == 'gen':
                    return p[1]
            if inside is None:
                break
            off = end
        return ('at', s, i)

    def seq_drop(self, st, s, n):
        if isinstance(s, bytes) and isinstance(n, int):
            return s[n:]
        ps = list(parts_of(s))
        while ps:
            if st.facts.decide(eq(n, 0)):
                break
            p = ps[0]
            L = T.partlen(p)
            whole = st.facts.decide(le(L, n))
            if whole:
                n = sub(n, L)
                ps.pop(0)
                continue
            if p[0] == 'lit' and isinstance(n, int):
                ps[0] = ('lit', p[1][n:])
                n = 0
                break
            if p[0] == 'sl' and (st.facts.decide(le(n, L)) or len(ps) == 1):
                ps[0] = ('sl', p[1], add(p[2], n), sub(p[3], n))
                n = 0
                break
            if p[0] == 'gen' and (st.facts.decide(le(n, L)) or len(ps) == 1):
                ps[0] = ('gen', p[1], sub(p[2], n))
                n = 0
                break
            whole_s = mkseq(ps)
            return mkseq([('sl', whole_s, n, sub(seqlen(whole_s), n))])
        return mkseq(ps)

    def seq_take(self, st, s, n):
        if isinstance(s, bytes) and isinstance(n, int):
            return s[:n]
        out = []
        ps = list(parts_of(s))
        for i, p in enumerate(ps):
            if st.facts.decide(eq(n, 0)):
                break
            L = T.partlen(p)
            if st.facts.decide(le(L, n)):
                out.append(p)
                n = sub(n, L)
                continue
            if p[0] == 'lit' and isinstance(n, int):
                out.append(('lit', p[1][:n]))
                n = 0
                break
            if p[0] == 'sl' and (st.facts.decide(le(n, L)) or i == len(ps) - 1):
                out.append(('sl', p[1], p[2], n))
                n = 0
                break
            if p[0] == 'gen' and (st.facts.decide(le(n, L)) or i == len(ps) - 1):
                out.append(('gen', p[1], n))
                n = 0
                break
            rest = mkseq(ps[i:])
            out.append(('sl', rest, 0, n))
            n = 0
            break
        return mkseq(out)

    # -- forking -------------------------------------------------------------------
    def fork(self, st, t):
        """[(state, truth)] for the feasible truths of t."""
        if isinstance(t, tuple) and t[0] == 'undef':
            t = ('app', 'undef', t)
        d = st.facts.decide(t)
        if d is None and self.oracle is not None:
            d = self.oracle(st, t)
        if d is not None:
            return [(st, d)]
        out = []
        s2 = st.copy()
        if st.facts.assume(t, True):
            out.append((st, True))
        if s2.facts.assume(t, False):
            out.append((s2, False))
        return out

    def join(self, rs):
        """Join states that differ only in their facts. rs: [(st, x)]"""
        if len(rs) < 2:
            return rs
        if self.nojoin:
            if len(rs) > self.MAXSTATES:
                raise Undecided('too many states')
            return rs
        out = []
        for st, x in rs:
            for i, (o, y) in enumerate(out):
                if (o.trace is st.trace and o.locks == st.locks and x == y and o.cleanup == st.cleanup
                        and o.temps == st.temps and len(o.store) == len(st.store) and o.store == st.store):
                    f = T.Facts()
                    ft = st.facts.truth
                    f.truth = {k: v for k, v in o.facts.truth.items() if ft.get(k) == v}
                    sc = set(st.facts.cons)
                    f.cons = tuple(c for c in o.facts.cons if c in sc or st.facts.entails_le(T.mk(c[0], dict(c[1]))))
                    extra = tuple(c for c in st.facts.cons
                                  if c not in f.cons and o.facts.entails_le(T.mk(c[0], dict(c[1]))))
                    f.cons = f.cons + extra
                    o.facts = f
                    o.notes = o.notes | st.notes
                    break
            else:
                out.append((st, x))
        if len(out) > self.MAXSTATES:
            raise Undecided('too many states')
        return out

    def cond(self, e, st, fr):
        """[(st, bool)]"""
        k = e['k']
        if k == 'bin' and e['op'] == '&&':
            out = []
            for s, b in self.cond(e['l'], st, fr):
                if b:
                    out.extend(self.cond(e['r'], s, fr))
                else:
                    out.append((s, False))
            return self.join(out)
        if k == 'bin' and e['op'] == '||':
            out = []
            for s, b in self.cond(e['l'], st, fr):
                if b:
                    out.append((s, True))
                else:
                    out.extend(self.cond(e['r'], s, fr))
            return self.join(out)
        if k == 'un' and e['op'] == '!':
            return [(s, not b) for s, b in self.cond(e['e'], st, fr)]
        if k == 'full':
            depth = len(st.temps)
            out = []
            for s, b in self.cond(e['e'], st, fr):
                for s2 in self.pop_temps(s, depth, e.get('p')):
                    out.append((s2, b))
            return out
        out = []
        for s, v in self.eval(e, st, fr):
            v = self.rv(s, v, e.get('t', 'bool'))
            out.extend(self.fork(s, v))
        return out

    def rv(self, st, v, t):
        """operand -> value"""
        if isinstance(v, tuple) and v and v[0] == 'L':
            return self.load(st, v[1], t)
        return v

    # -- destructors -----------------------------------------------------------------
    def pop_temps(self, st, depth, pos):
        sts = [st]
        while True:
            nxt, done = [], True
            for s in sts:
                if len(s.temps) > depth:
                    done = False
                    loc, t = s.temps[-1]
                    s.temps = s.temps[:-1]
                    for s2 in self.destroy(s, loc, t, pos):
                        self.clear(s2, loc)
                        s2.store.pop(loc, None)
                        nxt.append(s2)
                else:
                    nxt.append(s)
            sts = nxt
            if done:
                return sts

    def pop_cleanup(self, st, depth, pos):
        sts = [st]
        while True:
            nxt, done = [], True
            for s in sts:
                if len(s.cleanup) > depth:
                    done = False
                    loc, t = s.cleanup[-1]
                    s.cleanup = s.cleanup[:-1]
                    nxt.extend(self.destroy(s, loc, t, pos))
                else:
                    nxt.append(s)
            sts = nxt
            if done:
                return sts

    def destroy(self, st, loc, t, pos):
        t = noref(t) if not is_pointer(t) else t
        if is_pointer(t) or sort_of(t) != 'o':
            return [st]
        c = cls_of(t)
        h = self.dtors.get(c)
        if h is not None:
            return h(self, st, loc, t, pos)
        r = self.P.recs.get(t)
        if not r or not r.get('in') or r.get('lambda'):
            return [st]
        if any(self.P.derives(t, b) for b in self.contract):
            return [st]
        if t in self.prims:
            return [st]
        # polymorphic: the destructor of the dynamic type
        dyn = self.dyntype(st, loc)
        if dyn and dyn != t and self.P.derives(dyn, t):
            t = dyn
            r = self.P.recs.get(t)
        return self.run_dtor(st, loc, t, pos)

    def run_dtor(self, st, loc, t, pos):
        r = self.P.recs.get(t)
        sts = [st]
        if not r:
            return sts
        key = r.get('dtor')
        if key and key in self.P.fns and not r.get('dtordef'):
            if key not in self.stack and self.depth < self.MAXDEPTH:
                sts = [s for s, _ in self.invoke(key, loc, [], st, pos)]
        for f in reversed(r['fields']):
            if is_ref(f['t']):
                continue
            nxt = []
            for s in sts:
                nxt.extend(self.destroy(s, ('f', loc, f['n']), f['t'], pos))
            sts = nxt
        for b in r['bases']:
            nxt = []
            for s in sts:
                nxt.extend(self.run_dtor(s, loc, b['k'], pos))
            sts = nxt
        return sts

    def dyntype(self, st, loc):
        d = st.store.get(('dyn', loc))
        if d:
            return d
        return self.exact.get(loc)

    # -- calls -------------------------------------------------------------------------
    def invoke(self, key, this, args, st, pos, retloc=None, caps=None, clo=None):
        """Analyse a function body in context. args: list of operands
        ('L', loc) or terms; returns [(st, retval)]"""
        fn = self.P.fns[key]
        self.calls += 1
        self.analysed.add(key)
        if self.depth > self.MAXDEPTH:
            raise Undecided('call depth')
        fid = self.newid()
        fr = Frame(fid, fn, this, caps or {}, retloc)
        fr.clo = clo
        depth = len(st.cleanup)
        tdepth = len(st.temps)
        for p, a in zip(fn.params, args):
            vl = ('v', fid, p['d'])
            if is_ref(p['t']):
                if isinstance(a, tuple) and a[0] == 'L':
                    st.store[vl] = ('ref', a[1])
                else:
                    tl = ('t', self.newid())
                    st.store[tl] = a
                    st.store[vl] = ('ref', tl)
            else:
                if isinstance(a, tuple) and a and a[0] == 'L':
                    a = self.load(st, a[1], p['t'])
                self.put(st, vl, a)
        self.depth += 1
        self.stack.append(key)
        try:
            sts = self.run_inits(fn, this, st, fr)
            out = []
            for s in sts:
                if fn.body is None:
                    out.append((s, None))
                    continue
                for s2, sig in self.exec(fn.body, s, fr):
                    for s3 in self.pop_cleanup(s2, depth, fn.pe or pos):
                        if sig is None:
                            out.append((s3, 0 if fn.ret == 'void' or fn.kind in ('ctor', 'dtor') else ('undef', 'noret')))
                        elif sig[0] == 'ret':
                            out.append((s3, sig[1]))
                        elif sig[0] in ('throw', 'abort'):
                            pass
                        else:
                            out.append((s3, ('undef', 'noret')))
            res = []
            for s, v in out:
                for k in [k for k in s.store if self.frame_of(k) == fid]:
                    del s.store[k]
                res.append((s, v))
        finally:
            self.stack.pop()
            self.depth -= 1
            self.dead.add(fid)
        return self.join(res)

    def frame_of(self, k):
        if k[0] in ('ep', 'wl', 'mhas', 'cstr', 'dyn', 'elt'):
            k = k[1]
        r = root(k)
        return r[1] if r[0] == 'v' else None

    def run_inits(self, fn, this, st, fr):
        if fn.kind != 'ctor' or this is None:
            return [st]
        sts = [st]
        for i in fn.inits:
            nxt = []
            for s in sts:
                if i.get('deleg') or ('base' in i and i['base']):
                    dyn = s.store.get(('dyn', this))
                    for s2 in self.eval_into(i['e'], this, s, fr):
                        if dyn is not None:
                            s2.store[('dyn', this)] = dyn
                        nxt.append(s2)
                else:
                    ft = i.get('ft', '?')
                    floc = ('f', this, i['f'])
                    if is_ref(ft):
                        for s2, v in self.eval(i['e'], s, fr):
                            s2.store[floc] = ('ref', v[1]) if isinstance(v, tuple) and v[0] == 'L' else v
                            nxt.append(s2)
                    else:
                        nxt.extend(self.full_into(i['e'], floc, s, fr))
            sts = nxt
        for s in sts:
            self.acc(s, this, 'init', fn.p)
        return sts

    def full_into(self, e, loc, st, fr):
        depth = len(st.temps)
        out = []
        for s in self.eval_into(e, loc, st, fr):
            out.extend(self.pop_temps(s, depth, e.get('p') if e else None))
        return out

    def call_closure(self, st, clo, ops, pos, retloc=None):
        key = clo[1]
        if key not in self.P.fns:
            st.note('no body: ' + key)
            return [(st, self.fresh('r'))]
        if self.stack.count(key) > 1:
            st.note('recursive closure')
            return [(st, self.fresh('r'))]
        caps = {}
        cid = self.newid()
        for d, kind, v in clo[3]:
            if kind == 'ref':
                caps[d] = v
            else:
                l = ('t', cid, d)
                st.store[l] = v
                caps[d] = l
        return self.invoke(key, clo[2], ops, st, pos, retloc=retloc, caps=caps, clo=clo)

    def args(self, exprs, st, fr):
        """Evaluate operands left to right: [(st, [op...])]"""
        cur = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in cur:
                for s2, v in self.eval(e, s, fr):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    # -- statements ----------------------------------------------------------------------
    def exec(self, s, st, fr):
        self.step()
        if s is None:
            return [(st, None)]
        return getattr(self, 's_' + s['k'])(s, st, fr)

    def seq_exec(self, stmts, st, fr):
        cur = [(st, None)]
        done = []
        for x in stmts:
            nxt = []
            for s, sig in cur:
                for s2, g in self.exec(x, s, fr):
                    if g is None:
                        nxt.append((s2, None))
                    else:
                        done.append((s2, g))
            cur = self.join(nxt)
            if not cur:
                break
        return done + cur

    def s_block(self, s, st, fr):
        depth = len(st.cleanup)
        out = []
        for s2, g in self.seq_exec(s['b'], st, fr):
            for s3 in self.pop_cleanup(s2, depth, s.get('pe')):
                out.append((s3, g))
        return self.join(out)

    def s_expr(self, s, st, fr):
        e = s['e']
        depth = len(st.temps)
        out = []
        for s2, v in self.eval(e, st, fr):
            if isinstance(v, tuple) and v and v[0] == 'sig':
                out.append((s2, v[1]))
                continue
            for s3 in self.pop_temps(s2, depth, s['p']):
                out.append((s3, None))
        return self.join(out)

    def s_nop(self, s, st, fr):
        return [(st, None)]

    def s_unk(self, s, st, fr):
        st.note('statement ' + s.get('cls', '?'))
        return [(st, None)]

    def s_label(self, s, st, fr):
        return self.exec(s['s'], st, fr)

    def declare(self, v, st, fr):
        loc = ('v', fr.fid, v['d'])
        if v.get('static'):
            loc = ('g', 'static', v['d'])
            if ('init', loc) in st.store:
                return [st]
            st.store[('init', loc)] = 1
            st.ev('static', v['p'], v['n'], loc, v['t'])
            if v.get('init') is None:
                return [st]
            out = self.full_into(v['init'], loc, st, fr)
            for s2 in out:
                s2.ev('staticend', v['p'], loc)
            return out
        t = v['t']
        self.clear(st, loc)
        st.store.pop(loc, None)
        if is_ref(t):
            out = []
            for s2, x in self.eval_keep(v['init'], st, fr):
                if isinstance(x, tuple) and x and x[0] == 'L':
                    s2.store[loc] = ('ref', x[1])
                else:
                    tl = ('v', fr.fid, ('tmp', v['d']))
                    s2.store[tl] = x
                    s2.store[loc] = ('ref', tl)
                out.append(s2)
            return out
        out = []
        if v.get('init') is None:
            sts = [st]
        else:
            sts = self.full_into(v['init'], loc, st, fr)
        for s2 in sts:
            if self.needs_dtor(t):
                s2.cleanup = s2.cleanup + ((loc, t),)
            out.append(s2)
        return out

    def needs_dtor(self, t):
        if is_pointer(t) or sort_of(t) != 'o' or t.endswith(']'):
            return False
        if cls_of(t) in self.dtors:
            return True
        r = self.P.recs.get(noref(t))
        return bool(r and r.get('in') and not r.get('lambda') and not r.get('trivdtor'))

    def eval_keep(self, e, st, fr):
        depth = len(st.temps)
        out = []
        for s, v in self.eval(e, st, fr):
            for s2 in self.pop_temps(s, depth, e.get('p')):
                out.append((s2, v))
        return out

    def s_decl(self, s, st, fr):
        sts = [st]
        for v in s['vars']:
            nxt = []
            for x in sts:
                nxt.extend(self.declare(v, x, fr))
            sts = nxt
        return self.join([(x, None) for x in sts])

    def s_ret(self, s, st, fr):
        e = s.get('e')
        if e is None:
            return [(st, ('ret', 0))]
        if fr.retloc is not None and self.is_repo_rec(fr.fn.ret) and not is_ref(fr.fn.ret):
            return [(x, ('ret', ('L', fr.retloc))) for x in self.full_into(e, fr.retloc, st, fr)]
        out = []
        depth = len(st.temps)
        for x, v in self.eval(e, st, fr):
            if not is_ref(fr.fn.ret):
                v = self.rv(x, v, fr.fn.ret)
            x.store[('v', fr.fid, '$ret')] = v if not (isinstance(v, tuple) and v and v[0] == 'L') else ('ref', v[1])
            for y in self.pop_temps(x, depth, s['p']):
                out.append((y, ('ret', v)))
        return out

    def s_break(self, s, st, fr):
        return [(st, ('break',))]

    def s_continue(self, s, st, fr):
        return [(st, ('cont',))]

    def s_if(self, s, st, fr):
        depth = len(st.cleanup)
        out = []
        for x, g in (self.exec(s['init'], st, fr) if s.get('init') else [(st, None)]):
            ys = self.declare(s['cv'], x, fr) if s.get('cv') else [x]
            for y in ys:
                tdepth = len(y.temps)
                for z, b in self.cond(s['c'], y, fr):
                    for w in self.pop_temps(z, tdepth, s['p']):
                        rs = self.exec(s['a'], w, fr) if b else (
                            self.exec(s['b'], w, fr) if s.get('b') else [(w, None)])
                        for a, g2 in rs:
                            for c in self.pop_cleanup(a, depth, s['p']):
                                out.append((c, g2))
        return self.join(out)

    def s_switch(self, s, st, fr):
        depth = len(st.cleanup)
        body = s['body']['b'] if s['body']['k'] == 'block' else [s['body']]
        # flatten case labels
        flat = []
        def flatten(x):
            labels = []
            while x and x['k'] in ('case', 'default'):
                labels.append(('d', None) if x['k'] == 'default' else ('c', x['v']))
                x = x['s']
            flat.append((labels, x))
        for x in body:
            flatten(x)
        out = []
        for y, v in self.eval_keep(s['c'], st, fr):
            v = self.rv(y, v, 'int')
            rest = [y]
            default = None
            targets = []
            for i, (labels, x) in enumerate(flat):
                for k, le_ in labels:
                    if k == 'd':
                        default = i
                        continue
                    cv = self.eval(le_, st.copy(), fr)[0][1]
                    nrest = []
                    for z in rest:
                        for w, b in self.fork(z, eq(v, cv)):
                            if b:
                                targets.append((i, w))
                            else:
                                nrest.append(w)
                    rest = nrest
            for z in rest:
                if default is not None:
                    targets.append((default, z))
                else:
                    out.append((z, None))
            for i, w in targets:
                for a, g in self.seq_exec([x for _, x in flat[i:]], w, fr):
                    if g == ('break',):
                        g = None
                    for c in self.pop_cleanup(a, depth, s['p']):
                        out.append((c, g))
        return self.join(out)

    def s_case(self, s, st, fr):
        return self.exec(s['s'], st, fr)

    s_default = s_case

    def s_try(self, s, st, fr):
        return self.exec(s['b'], st, fr)

    # -- loops ------------------------------------------------------------------------
    def s_loop(self, s, st, fr):
        depth = len(st.cleanup)
        out = []
        starts = self.exec(s['init'], st, fr) if s.get('init') else [(st, None)]
        for x, g in starts:
            for y, sig in self.run_loop(s, x, fr):
                for z in self.pop_cleanup(y, depth, s['p']):
                    out.append((z, sig))
        return self.join(out)

    def s_rfor(self, s, st, fr):
        h = self.M.range_for(self, s, st, fr)
        if h is not None:
            return h
        depth = len(st.cleanup)
        sts = [st]
        for part in ('range', 'begin', 'end'):
            nxt = []
            for x in sts:
                nxt.extend(y for y, _ in self.exec(s[part], x, fr))
            sts = nxt
        loop = {'k': 'loop', 'sub': 'for', 'c': s['c'], 'inc': s['inc'], 'p': s['p'],
                'body': {'k': 'block', 'b': [s['lv'], s['body']], 'p': s['p']}}
        out = []
        for x in sts:
            for y, sig in self.run_loop(loop, x, fr):
                for z in self.pop_cleanup(y, depth, s['p']):
                    out.append((z, sig))
        return self.join(out)

    def iter_cond(self, s, st, fr):
        """Evaluates the loop condition (with its variable): [(st, bool)]"""
        ys = self.declare(s['cv'], st, fr) if s.get('cv') else [st]
        out = []
        for y in ys:
            if s.get('c') is None:
                out.append((y, True))
                continue
            depth = len(y.temps)
            for z, b in self.cond(s['c'], y, fr):
                for w in self.pop_temps(z, depth, s['p']):
                    out.append((w, b))
        return out

    def iteration(self, s, st, fr, concrete=False):
        """One generic iteration from the head. Returns (exits, backs, outs):
        exits: states leaving because the condition is false, backs: states at
        the back edge, outs: [(state, sig)] leaving by break/return."""
        depth = len(st.cleanup)
        exits, backs, outs = [], [], []
        if self.head_hook and not concrete:
            self.head_hook(self, s, st)

        def after_body(x, g):
            if g is None or g == ('cont',):
                ys = [x]
                if s.get('inc') is not None:
                    ys = []
                    d = len(x.temps)
                    for y, _ in self.eval(s['inc'], x, fr):
                        ys.extend(self.pop_temps(y, d, s['p']))
                return ys
            outs.append((x, None if g == ('break',) else g))
            return []

        if s['sub'] == 'do':
            for x, g in self.exec(s['body'], st, fr):
                for y in after_body(x, g):
                    for z, b in self.iter_cond(s, y, fr):
                        (backs if b else exits).append(z)
            return exits, backs, outs
        for x, b in self.iter_cond(s, st, fr):
            if not b:
                exits.extend(self.pop_cleanup(x, depth, s['p']))
                continue
            for y, g in self.exec(s['body'], x, fr):
                for z in self.pop_cleanup(y, depth, s['p']):
                    if g is None or g == ('cont',):
                        backs.extend(after_body(z, g))
                    else:
                        outs.append((z, None if g == ('break',) else g))
        if self.back_hook and not concrete:
            for b in backs:
                self.back_hook(self, s, b)
        return exits, backs, outs

    def const_cond(self, s):
        c = s.get('c')
        while c is not None and c['k'] in ('full', 'cast'):
            c = c['e']
        return c is None or c['k'] == 'int'

    def run_loop(self, s, st, fr):
        res = []
        cur = [st]
        n = 0
        # concrete unrolling while the condition is decided
        if not self.const_cond(s) and s['sub'] != 'do' and not s.get('cv'):
            while cur and n < self.UNROLL:
                nxt, stop = [], False
                for x in cur:
                    probe = x.copy()
                    save = self.uid
                    try:
                        pr = self.iter_cond(s, probe, fr)
                    except Undecided:
                        pr = [1, 2]
                    if len(pr) != 1 or pr[0][0].trace is not x.trace:
                        stop = True
                        break
                if stop:
                    break
                for x in cur:
                    ex, ba, ou = self.iteration(s, x, fr, True)
                    res.extend((y, None) for y in ex)
                    res.extend(ou)
                    nxt.extend(ba)
                cur = [y for y, _ in self.join([(y, None) for y in nxt])]
                n += 1
                if len(cur) > 16:
                    break
            if n >= self.UNROLL and cur:
                # give up on unrolling: restart generically
                res, cur = [], [st]
        for x in cur:
            for y in self.peeled(s, x.copy(), fr) if self.peel and (self.peel_all or self.const_cond(s)) else ():
                res.append(y)
            res.extend(self.generic_loop(s, x, fr))
        return self.join(res)

    def peeled(self, s, st, fr):
        """The paths that leave an endless loop in its first iterations, exactly."""
        out, cur = [], [st]
        for i in range(self.peel):
            nxt = []
            for x in cur:
                ex, ba, ou = self.iteration(s, x, fr, True)
                out.extend(ou)
                out.extend((y, None) for y in ex)
                nxt.extend(ba)
            cur = nxt[:16]
        return out

    def diff(self, a, b, base=None):
        """Locations of store a changed (or removed) in store b; not those reached
        through a value that got its name after base, which the next round renames."""
        out = set()
        for k, v in a.items():
            if b.get(k, self) != v:
                out.add(k)
        for k in b:
            if k not in a:
                r = k[1] if k[0] in ('ep', 'wl', 'mhas', 'cstr', 'dyn', 'elt', 'init') else k
                rr = root(r) if isinstance(r, tuple) and r and r[0] in ('f', 'e', 'm', 'x', 'v', 't', 'o', 'd', 'g', 'h') else None
                if rr is None:
                    continue
                if rr[0] in ('v', 't'):
                    # live outside the loop only if some entry with this root existed
                    if not any(root(q) == rr for q in a if q[0] in ('v', 't', 'f', 'e', 'm')):
                        continue
                if base is not None and rr[0] == 'd' and self.named_after(rr, base):
                    continue
                if rr[0] == 'h' and not any(q[0] in ('f', 'e', 'm', 'h') and root(q) == rr for q in a):
                    continue
                out.add(k)
        return out

    def named_after(self, t, base):
        if not isinstance(t, tuple):
            return False
        if t and t[0] in ('v', 'sym') and len(t) == 4 and isinstance(t[2], int) and t[2] > base:
            return True
        return any(self.named_after(x, base) for x in t)

    def widen_value(self, old, hint):
        if isinstance(old, bool) or isinstance(old, int):
            return None
        return None

    def havoc_loc(self, st, k, old, news, sorts):
        """Put a fresh head value into location k; returns the head symbol."""
        if k[0] == 'ep':
            st.store[k] = self.newid()
            return None
        if k[0] in ('mhas', 'cstr', 'dyn', 'elt', 'init'):
            st.store.pop(k, None)
            return None
        if k[0] == 'wl':
            st.store[k] = (0, self.fresh('wl', 'o')) if False else None
            return None
        allv = [v for v in [old] + news if v is not None]
        if allv and all(T.is_ptr(v) for v in allv):
            bases = set(v[1][1] if v[1][0] == 'e' else v[1] for v in allv)
            if len(bases) == 1:
                i = self.fresh('idx', 'u')
                st.store[k] = ('ptr', ('e', bases.pop(), i))
                return ('pidx', i)
        if allv and all(isinstance(v, tuple) and v[0] == 'it' for v in allv):
            if len(set(v[1] for v in allv)) == 1:
                i = self.fresh('idx', 'u')
                st.store[k] = ('it', allv[0][1], i)
                return ('iidx', i)
        sort = 'o'
        if any(isinstance(v, int) or T.is_lin(v) for v in allv):
            sort = sorts.get(k, 'i')
            if sort == 'o':
                sort = 'i'
        else:
            for v in allv:
                if isinstance(v, tuple) and v[0] in ('sym', 'v'):
                    sort = v[3]
                if isinstance(v, tuple) and v[0] == 'at':
                    sort = 'c'
        h = self.fresh('h', sort)
        self.put_raw(st, k, h)
        return h

    def link_written(self, st0, h, k, old, heads, links, nolink):
        """Conjecture that the counter or cursor k moves in step with the number
        of elements written through some pointer (checked on every back edge)."""
        sign = {0: 1, 1: -1}.get(nolink.get(k, 0))
        hs = heads[k]
        ws = sorted((w for w in heads if w[0] == 'wl' and heads[w] is not None), key=T.tid)
        if sign is None or hs is None or old is None or not ws:
            return
        pi = isinstance(hs, tuple) and hs[0] == 'pidx'
        if pi:
            v = h.store[k]
            ws = [w for w in ws if w[1] in (v[1][1], GHOST)]
            old = (old[1][2] if old[1][0] == 'e' else 0) if T.is_ptr(old) else None
            if old is None:
                return
        elif not (isinstance(hs, tuple) and hs[0] == 'sym' and (hs[3] in ('u', 'i') or hs[3] == 'p' and ws[0][1] == GHOST)):
            return
        if len(ws) != 1 or T.opaque_value(old):
            return
        w = ws[0]
        o = st0.store.get(w)
        len0 = seqlen(o[1]) if o else 0
        # x == old + sign * (len(w) - len0)
        c = sub(old, scale(len0, sign))
        x = add(c, scale(('len', heads[w]), sign))
        if pi:
            h.store[k] = ('ptr', ('e', v[1][1], x))
            heads[k] = ('pidx', x)
        else:
            self.put_raw(h, k, x)
            heads[k] = x
        links[k] = (w, c, sign, pi)
        if not pi and ('nn', k) not in nolink and st0.facts.decide(le(0, old)) is True:
            h.facts.assume(le(0, x), True)
            links[k] += (True,)

    def link_holds(self, b, k, link):
        w, c, sign, pi = link[:4]
        v, wv = b.store.get(k), b.store.get(w)
        if v is None or wv is None or wv[0] == 'mess':
            return False
        if pi:
            if not T.is_ptr(v):
                return False
            v = v[1][2] if v[1][0] == 'e' else 0
        if T.opaque_value(v):
            return False
        d = sub(v, add(c, scale(seqlen(wv[1]), sign)))
        return d == 0 or b.facts.decide(eq(d, 0)) is True

    def put_raw(self, st, k, v):
        for q in self.subentries(st, k):
            del st.store[q]
        st.store[k] = v

    def generic_loop(self, s, st0, fr):
        self.step()
        mods = set()
        sorts = self.loop_sorts(s, fr)
        backs = []
        rounds = 0
        heads = {}
        news = {}
        links = {}
        nolink = {}
        while True:
            rounds += 1
            if rounds > 12:
                raise Undecided('loop does not stabilise')
            base = self.uid
            h = st0.copy()
            heads = {}
            links = {}
            for k in sorted(mods, key=lambda k: (k[0] != 'wl', T.tid(k))):
                if k not in h.store and k[0] not in ('ep', 'mhas', 'cstr', 'dyn', 'elt', 'init', 'wl'):
                    # first written in the loop
                    pass
                if k[0] == 'wl':
                    old = h.store.get(k)
                    start = old[0] if old and old[0] != 'mess' else None
                    sym = self.fresh('w', 'o')
                    if old is None or old[0] == 'mess':
                        h.store[k] = ('mess', self.newid())
                        ns = [n for n in news.get(k, []) if n is not None]
                        if old is None and ns:
                            # all iterations start writing at the same place?
                            h.store[k] = (self.wl_start(st0, k, ns), sym)
                            heads[k] = sym
                    else:
                        h.store[k] = (start, sym)
                        heads[k] = sym
                    continue
                old = h.store.get(k)
                heads[k] = self.havoc_loc(h, k, old, news.get(k, []), sorts)
                self.link_written(st0, h, k, old, heads, links, nolink)
            ex, ba, ou = self.iteration(s, h.copy(), fr)
            if links:
                bad = [k for k in links if not all(self.link_holds(b, k, links[k]) for b in ba)]
                for k in bad:
                    nolink[k] = nolink.get(k, 0) + 1
                if not bad:
                    bad = [('nn', k) for k in links if len(links[k]) > 4
                           and not all(b.facts.decide(le(0, b.store[k])) is True for b in ba)]
                    for k in bad:
                        nolink[k] = 1
                if bad:
                    continue
            new = set()
            news2 = {}
            for b in ba:
                d = self.diff(h.store, b.store, base)
                new |= d
            for k in new | mods:
                news2[k] = [b.store.get(k) for b in ba]
            if new <= mods:
                backs = ba
                break
            news = news2
            mods |= new
            for k in new:
                # a container first touched in the loop: name its value at entry
                if k not in st0.store and k[0] in ('f', 'o', 'd') and root(k)[0] in ('o', 'd', 'h') \
                        and not self.subentries(st0, k) \
                        and any(isinstance(v, tuple) and v[0] == 'seq' for v in news[k]):
                    st0.store[k] = ('v', k, self.epoch(st0, k), 'o')
        # recognise inductions
        K = self.fresh('K', 'u')
        ind = {}
        for k in sorted(mods, key=T.tid):
            hs = heads.get(k)
            vals = [b.store.get(k) for b in backs]
            if not backs or any(v is None for v in vals) or hs is None:
                continue
            if k[0] == 'wl':
                continue
            old = st0.store.get(k)
            if isinstance(hs, tuple) and hs[0] in ('pidx', 'iidx'):
                i = hs[1]
                if hs[0] == 'pidx':
                    steps = set(sub(v[1][2] if v[1][0] == 'e' else 0, i) if T.is_ptr(v) else None for v in vals)
                    o = old[1][2] if old[1][0] == 'e' else 0
                else:
                    steps = set(sub(v[2], i) if isinstance(v, tuple) and v[0] == 'it' else None for v in vals)
                    o = old[2]
                if len(steps) == 1:
                    stp = steps.pop()
                    if isinstance(stp, int) and stp:
                        nv = add(o, scale(K, stp))
                        hv = h.store[k]
                        ind[k] = ('ptr', ('e', hv[1][1], nv)) if hs[0] == 'pidx' else ('it', hv[1], nv)
                continue
            if old is None:
                continue
            if (isinstance(old, int) or not T.opaque_value(old)):
                steps = set()
                ok = True
                for v in vals:
                    if T.opaque_value(v):
                        ok = False
                        break
                    d = sub(v, hs)
                    if not isinstance(d, int):
                        ok = False
                        break
                    steps.add(d)
                if ok and len(steps) == 1:
                    ind[k] = add(old, scale(K, steps.pop()))
                    continue
            # sequences
            acc = self.seq_induction(st0, old, hs, vals, K)
            if acc is not None:
                ind[k] = acc
        # second pass: appended elements may depend on other inductions
        if ind:
            h = st0.copy()
            heads2 = {}
            for k in sorted(mods, key=T.tid):
                if k in ind and not (isinstance(ind[k], tuple) and ind[k] and ind[k][0] == 'append'):
                    self.put_raw(h, k, ind[k])
                elif k[0] == 'wl':
                    old = h.store.get(k)
                    if heads.get(k) is not None:
                        ns = [b.store.get(k) for b in backs]
                        start = old[0] if old else self.wl_start(st0, k, ns)
                        h.store[k] = (start, self.subst_head(st0, old, heads[k]))
                        heads2[k] = heads[k]
                    else:
                        h.store[k] = ('mess', self.newid())
                elif k[0] in ('ep', 'mhas', 'cstr', 'dyn', 'elt', 'init'):
                    self.havoc_loc(h, k, None, [], sorts)
                else:
                    hv = heads[k]
                    if k in links:
                        w, c, sign, pi = links[k][:4]
                        if pi:
                            b0 = st0.store.get(k)
                            h.store[k] = ('ptr', ('e', b0[1][1] if b0[1][0] == 'e' else b0[1], hv[1]))
                        else:
                            self.put_raw(h, k, hv)
                    elif isinstance(hv, tuple) and hv[0] in ('pidx', 'iidx'):
                        hv = self.havoc_loc(h, k, st0.store.get(k), [b.store.get(k) for b in backs], sorts)
                    else:
                        self.put_raw(h, k, hv)
                    heads2[k] = hv
            for k, lk in links.items():
                w, c, sign, pi = lk[:4]
                if len(lk) > 4 and k not in ind:
                    h.facts.assume(le(0, h.store[k]), True)
                if k in ind:
                    x = ind[k]
                    if pi:
                        x = x[1][2]
                    if heads.get(w) is not None:
                        # the number written follows from the induction
                        h.facts.assume(eq(('len', heads[w]), scale(sub(x, c), sign)), True)
            self.invariants(st0, h, mods, ind, heads2, backs, heads)
            ex, ba, ou = self.iteration(s, h.copy(), fr)
            again = {}
            for k in sorted(mods, key=T.tid):
                hs = heads2.get(k)
                vals = [b.store.get(k) for b in ba]
                if k[0] == 'wl':
                    if hs is not None and ba and all(v is not None and v[0] != 'mess' for v in vals):
                        start = h.store[k][0]
                        app = self.appended(hs, [v[1] for v in vals], K)
                        if app is not None and all(v[0] == start for v in vals):
                            old = st0.store.get(k)
                            again[k] = (start, concat(old[1] if old else b'', app))
                    continue
                if k in ind and isinstance(ind[k], tuple) and ind[k] and ind[k][0] == 'append' or k not in ind:
                    if hs is None or not vals or any(v is None for v in vals):
                        continue
                    if isinstance(hs, tuple) and hs[0] in ('pidx', 'iidx'):
                        continue
                    app = self.appended(hs, vals, K)
                    old = st0.store.get(k)
                    if app is not None and old is not None:
                        again[k] = concat(old, app)
            if again:
                for k, v in again.items():
                    if k[0] == 'wl':
                        h.store[k] = v
                    else:
                        self.put_raw(h, k, v)
                ex, ba, ou = self.iteration(s, h.copy(), fr)
        else:
            self.invariants(st0, h, mods, {}, heads, backs, heads)
            if h.facts.cons != st0.facts.cons:
                ex, ba, ou = self.iteration(s, h.copy(), fr)
        # trace: the back-edge iterations as one event
        base = st0.trace
        bt = tuple(tuple(b.events(base)) for b in ba)
        bodies = tuple(sorted(set(bt), key=lambda x: (len(x), T.tid(x) if self.hashable(x) else 0)))
        lev = ('loop', s['p'], st0.locks, bodies, K if ind else None)
        self.M.on_loop(self, s, st0, h, ba, lev, fr)

        def relink(x):
            evs = x.events(base)
            if any(len(b) for b in bodies) or ba:
                x.trace = (base, lev)
            else:
                x.trace = base
            for e in evs:
                x.trace = (x.trace, e)
            return x
        out = []
        for x, g in ou:
            out.append((relink(x), g))
        # leaving because the condition is false: 0 iterations, or >= 1 after a
        # previous iteration for which it was true
        if s['sub'] != 'do' and not self.const_cond(s):
            e0, _, _ = self.cond_only(s, st0.copy(), fr)
            out.extend((x, None) for x in e0)
            if ba:
                h1 = h.copy()
                ok = True
                if ind:
                    ok = h1.facts.assume(le(1, K), True)
                    self.prev_cond(s, h1, K, fr, st0)
                if self.head_hook:
                    self.head_hook(self, s, h1)
                e1, _, _ = self.cond_only(s, h1, fr) if ok else ([], [], [])
                out.extend((relink(x), None) for x in e1)
        else:
            out.extend((relink(x), None) for x in ex)
        return out

    def hashable(self, x):
        try:
            hash(x)
            return True
        except TypeError:
            return False

    def cond_only(self, s, st, fr):
        depth = len(st.cleanup)
        ex = []
        for x, b in self.iter_cond(s, st, fr):
            if not b:
                ex.extend(self.pop_cleanup(x, depth, s['p']))
        return ex, None, None

    def prev_cond(self, s, h, K, fr, st0):
        """Facts of the condition holding one iteration earlier."""
        prev = h.copy()
        mp = {K: sub(K, 1)}
        for k in list(prev.store):
            v = prev.store[k]
            if isinstance(v, tuple):
                prev.store[k] = T.subst(v, mp)
        n = len(prev.facts.cons)
        if s.get('cv'):
            return
        try:
            rs = [x for x, b in self.iter_cond(s, prev, fr) if b]
        except Undecided:
            return
        if len(rs) == 1 and rs[0].trace is h.trace:
            for c in rs[0].facts.cons[n:]:
                if any(T.contains(a, K) for a, _ in c[1]):
                    h.facts.cons = h.facts.cons + (c,)
            for t, v in rs[0].facts.truth.items():
                if t not in h.facts.truth and T.contains(t, K):
                    h.facts.truth[t] = v

    def invariants(self, st0, h, mods, ind, heads, backs, heads0):
        """Monotone variables: bounded by their initial value."""
        for k in mods:
            if k in ind or k[0] in ('ep', 'wl', 'mhas', 'cstr', 'dyn', 'elt', 'init'):
                continue
            hs0 = heads0.get(k)
            hs = heads.get(k)
            old = st0.store.get(k)
            if hs is None or hs0 is None or old is None or T.opaque_value(old):
                continue
            if isinstance(hs, tuple) and hs[0] in ('pidx', 'iidx'):
                continue
            if not (isinstance(hs, tuple) and hs[0] == 'sym' and hs[3] in ('u', 'i', 'c')):
                continue
            up = down = bool(backs)
            for b in backs:
                v = b.store.get(k)
                if v is None or T.opaque_value(v):
                    up = down = False
                    break
                d = sub(v, hs0)
                if not (isinstance(d, int) and d >= 0 or b.facts.entails_le(scale(d, -1)) if not isinstance(d, int) or d < 0 else True):
                    up = False
                if not (isinstance(d, int) and d <= 0 or (not isinstance(d, int) and b.facts.entails_le(d))):
                    down = False
            if up:
                h.facts.assume(le(old, hs), True)
            if down:
                h.facts.assume(le(hs, old), True)

    def subst_head(self, st0, old, hs):
        return hs

    def wl_start(self, st0, k, ns):
        starts = set(n[0] for n in ns if n is not None and n[0] != 'mess')
        if len(starts) == 1:
            s = starts.pop()
            # the start must be the value at loop entry of whatever indexes it
            return s if isinstance(s, int) else self.wl_entry(st0, s)
        return 0

    def wl_entry(self, st0, s):
        return 0

    def seq_induction(self, st0, old, hs, vals, K):
        """hs: head symbol of a sequence; recognise dropping c from the front."""
        steps = set()
        for v in vals:
            ps = parts_of(v)
            if len(ps) == 1 and ps[0][0] == 'sl' and ps[0][1] == hs and isinstance(ps[0][2], int) and ps[0][2] > 0 \
                    and add(ps[0][2], ps[0][3]) == ('len', hs):
                steps.add(ps[0][2])
            elif len(ps) > 1 and ps[0] == ('sl', hs, 0, ('len', hs)):
                steps.add('append')
            else:
                return None
        if len(steps) == 1:
            c = steps.pop()
            if c == 'append':
                return ('append',)
            n = scale(K, c)
            return mkseq([('sl', old, n, sub(seqlen(old), n))]) if not isinstance(old, tuple) or old[0] != 'seq' \
                else self.seq_drop_lazy(old, n)
        return None

    def seq_drop_lazy(self, old, n):
        if len(old[1]) == 1 and old[1][0][0] == 'sl':
            p = old[1][0]
            return mkseq([('sl', p[1], add(p[2], n), sub(p[3], n))])
        return mkseq([('sl', old, n, sub(seqlen(old), n))])

    def appended(self, hs, vals, K):
        """vals are hs ++ one element each; the elements appended in iterations
        0..K-1, if they form a slice."""
        if not vals:
            return None
        if len(set(vals)) != 1:
            return None
        ps = parts_of(vals[0])
        if not ps or ps[0] != ('sl', hs, 0, ('len', hs)):
            return None
        rest = ps[1:]
        if len(rest) != 1:
            return None
        p = rest[0]
        if T.contains(p, hs):
            return None
        if p[0] == 'sl' and p[3] == 1:
            off = p[2]
            o0 = T.subst(off, {K: 0}) if isinstance(off, tuple) else off
            d = sub(off, o0)
            if not T.contains(p[1], K):
                if d == K:
                    return mkseq([('sl', p[1], o0, K)])
                return mkseq([('gen', ('at', p[1], off), K)])
        if p[0] == 'sl' and not T.contains(p[1], K):
            # blocks of constant length n at stride n
            off, n = p[2], p[3]
            o0 = T.subst(off, {K: 0}) if isinstance(off, tuple) else off
            if isinstance(n, int) and sub(off, o0) == scale(K, n):
                return mkseq([('sl', p[1], o0, scale(K, n))])
        if p[0] == 'el':
            return mkseq([('gen', p[1], K)])
        if p[0] == 'lit' and len(p[1]) == 1:
            return mkseq([('gen', p[1][0], K)])
        return None

    def loop_sorts(self, s, fr):
        """Sorts of the scalar variables assigned in a loop (by declared type)."""
        out = {}

        def walk(o):
            if isinstance(o, dict):
                if o.get('k') == 'ref' and o.get('dk') in ('var', 'parm'):
                    out[('v', fr.fid, o['d'])] = sort_of(o['dt'])
                    if o['d'] in fr.caps:
                        out[fr.caps[o['d']]] = sort_of(o['dt'])
                for v in o.values():
                    if isinstance(v, (dict, list)):
                        walk(v)
            elif isinstance(o, list):
                for v in o:
                    if isinstance(v, (dict, list)):
                        walk(v)
        walk(s)
        return out

    # -- expressions ------------------------------------------------------------------
    def eval(self, e, st, fr):
        self.step()
        k = e['k']
        if 'cv' in e and k in ('bin', 'un', 'cast', 'cond', 'call'):
            return [(st, int(e['cv']))]
        return getattr(self, 'e_' + k)(e, st, fr)

    def e_full(self, e, st, fr):
        depth = len(st.temps)
        out = []
        for s, v in self.eval(e['e'], st, fr):
            if isinstance(v, tuple) and v and v[0] == 'sig':
                out.append((s, v))
                continue
            if not e.get('lv') and isinstance(v, tuple) and v and v[0] == 'L' and not self.is_repo_rec(e['t']):
                v = self.load(s, v[1], e['t'])
            for s2 in self.pop_temps(s, depth, e['p']):
                out.append((s2, v))
        return out

    def e_bind(self, e, st, fr):
        return self.eval(e['e'], st, fr)

    def e_defarg(self, e, st, fr):
        return self.eval(e['e'], st, fr)

    def e_mat(self, e, st, fr):
        loc = ('t', self.newid())
        if 'ext' in e:
            loc = ('v', fr.fid, ('ext', e['ext']))
        out = []
        t = e['t']
        for s in self.eval_into(e['e'], loc, st, fr):
            if self.needs_dtor(t):
                if 'ext' in e:
                    s.cleanup = s.cleanup + ((loc, t),)
                else:
                    s.temps = s.temps + ((loc, t),)
            out.append((s, ('L', loc)))
        return out

    def e_int(self, e, st, fr):
        return [(st, int(e['v']))]

    def e_float(self, e, st, fr):
        return [(st, ('flt', e['v']))]

    def e_str(self, e, st, fr):
        return [(st, ('L', ('str', bytes.fromhex(e['v']))))]

    def e_null(self, e, st, fr):
        return [(st, 0)]

    def e_zero(self, e, st, fr):
        return [(st, 0)]

    def e_this(self, e, st, fr):
        return [(st, ('ptr', fr.this) if fr.this is not None else self.fresh('this', 'p'))]

    def var_loc(self, st, fr, d):
        if d in fr.caps:
            return fr.caps[d]
        return ('v', fr.fid, d)

    def e_ref(self, e, st, fr):
        dk = e['dk']
        if dk == 'enum':
            return [(st, int(e['cv']))]
        if dk == 'fn':
            return [(st, ('fnref', e['fn']['key'], e['fn']['q']))]
        if 'cval' in e:
            loc = ('val', int(e['cval']))
            return [(st, ('L', loc))]
        if dk == 'global':
            loc = ('g', e['q'])
        elif dk == 'static':
            loc = ('g', 'static', e['d'])
        else:
            loc = self.var_loc(st, fr, e['d'])
        v = st.store.get(loc)
        if isinstance(v, tuple) and v and v[0] == 'ref':
            loc = v[1]
        return [(st, ('L', loc))]

    def deref(self, p, t):
        """pointer term -> location of the pointee of type t"""
        if T.is_ptr(p):
            loc = p[1]
            return loc
        if T.is_lin(p):
            c, d = T.lin(p)
            ptrs = [a for a, k in d.items() if k == 1 and isinstance(a, tuple) and
                    (a[0] in ('sym', 'v') and a[3] in ('p', 'o') or a[0] in ('app', 'proj', 'at'))]
            if len(ptrs) == 1:
                rest = sub(p, ptrs[0])
                return ('e', ('d', ptrs[0]), rest)
        if sort_of(t) != 'o':
            return ('e', ('d', p), 0)
        return ('d', p)

    def e_mem(self, e, st, fr):
        dk = e['dk']
        if dk == 'enum':
            return [(st, int(e['cv']))]
        if dk == 'global':
            return [(st, ('L', ('g', e['q'])))]
        out = []
        for s, b in self.eval(e['b'], st, fr):
            if dk == 'fn':
                out.append((s, ('fnref', e['fn']['key'], e['fn']['q'])))
                continue
            if e['arrow']:
                b = self.rv(s, b, e['b']['t'])
                self.check_deref(s, b, e['p'])
                base = self.deref(b, '?')
            else:
                base = b[1] if isinstance(b, tuple) and b and b[0] == 'L' else self.as_temp(s, b)
            loc = ('f', base, e['n'])
            loc = self.field_loc(s, base, e)
            v = s.store.get(loc)
            if isinstance(v, tuple) and v and v[0] == 'ref':
                loc = v[1]
            elif is_ref(e.get('dt', '')) and v is None:
                loc = ('d', ('v', loc, self.epoch(s, loc), 'p'))
            out.append((s, ('L', loc)))
        return out

    def field_loc(self, st, base, e):
        return ('f', base, e['n'])

    def as_temp(self, st, v):
        loc = ('t', self.newid())
        st.store[loc] = v
        return loc

    def check_deref(self, st, p, pos):
        if p == 0 or st.facts.decide(eq(p, 0)):
            st.ev('nullderef', pos, p)

    def e_cast(self, e, st, fr):
        ck = e['ck']
        out = []
        if ck == 'ToVoid':
            return [(s, 0) for s, _ in self.eval(e['e'], st, fr)]
        for s, v in self.eval(e['e'], st, fr):
            if isinstance(v, tuple) and v and v[0] == 'sig':
                out.append((s, v))
                continue
            if ck == 'LValueToRValue':
                if isinstance(v, tuple) and v and v[0] == 'L':
                    self.acc(s, v[1], 'r', e['p'])
                    r = self.load(s, v[1], e['t'])
                    out.append((s, r))
                else:
                    out.append((s, v))
            elif ck == 'ArrayToPointerDecay':
                if isinstance(v, tuple) and v and v[0] == 'L':
                    out.append((s, ('ptr', ('e', v[1], 0))))
                else:
                    out.append((s, v))
            elif ck in ('IntegralToBoolean', 'PointerToBoolean'):
                v = self.rv(s, v, e['from'])
                out.append((s, neg(eq(v, 0)) if not (isinstance(v, tuple) and v[0] in ('undef',)) else v))
            elif ck == 'FloatingToBoolean':
                out.append((s, ('app', 'f2b', v)))
            elif ck in ('NullToPointer', 'NullToMemberPointer'):
                out.append((s, 0))
            elif ck == 'IntegralCast':
                v = self.rv(s, v, e['from'])
                if isinstance(v, tuple) and v[0] == 'sym' and v[1] in ('fgetc', 'getc') and self.WIDTH.get(noref(e['t']), (0,))[0] == 8:
                    out += self.narrow_char(s, v, self.WIDTH[noref(e['t'])][1])
                    continue
                out.append((s, self.int_cast(s, v, e)))
            elif ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'Dynamic',
                        'IntegralToPointer', 'PointerToIntegral', 'LValueBitCast', 'AddressSpaceConversion'):
                x = v if e.get('lv') else (self.rv(s, v, e['from']) if is_pointer(e['from']) or sort_of(e['from']) != 'o' else v)
                if self.baseadj and e.get('boff') and is_pointer(e['from']):
                    x = add(x, e['boff']) if e['boff'] > 0 else self.fresh('virtual base', 'p')
                out.append((s, x))
            elif ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
                v = self.rv(s, v, e['from'])
                out.append((s, ('app', ck, v)))
            else:
                out.append((s, v))
        return out

    narrowterms = False     # an integer conversion that may lose bits yields a new value

    WIDTH = {'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0),
             'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1),
             'unsigned long long': (64, 0), 'bool': (1, 0)}

    def int_cast(self, st, v, e):
        t = noref(e['t'])
        w = self.WIDTH.get(t)
        if isinstance(v, int) and w:
            m = 1 << w[0]
            v %= m
            if w[1] and v >= m // 2:
                v -= m
            return v
        f = self.WIDTH.get(noref(e['from']))
        if w and f and f[0] > w[0] and not self.fits(st, v, w):
            if self.narrowterms == 'small' and w[0] < 32:
                return ('app', 'narrow', t, v)
            if w[0] == 8:
                return v
            st.ev('narrow', e['p'], v, t)
            if self.narrowterms is True and not (w[0] >= 32 and all(isinstance(a, tuple) and a[0] == 'len' for a in T.lin(v)[1])):
                return ('app', 'narrow', t, v)
        return v

    def narrow_char(self, st, v, signed):
        """A byte, or the end of the file, converted to a char."""
        if st.facts.decide(eq(v, -1)) is not None:
            return [(st, v)]
        out = []
        for s, b in self.fork(st, T.le(128, v) if signed else T.le(v, -1)):
            out.append((s, add(v, -256 if signed else 256) if b else v))
        return out

    def fits(self, st, v, w):
        hi = (1 << (w[0] - w[1])) - 1
        return st.facts.entails_le(sub(v, hi)) if not T.opaque_value(v) and not T.is_ptr(v) else True

    def e_un(self, e, st, fr):
        op = e['op']
        if op == '!':
            return [(s, 0 if b else 1) for s, b in self.cond(e['e'], st, fr)] if self.effects(e['e']) else \
                [(s, self.notv(s, v, e)) for s, v in self.eval(e['e'], st, fr)]
        out = []
        for s, v in self.eval(e['e'], st, fr):
            if op == '&':
                if isinstance(v, tuple) and v and v[0] == 'L':
                    out.append((s, ('ptr', v[1])))
                else:
                    out.append((s, v))
            elif op == '*':
                p = self.rv(s, v, e['e']['t'])
                self.check_deref(s, p, e['p'])
                if isinstance(p, tuple) and p[0] == 'fnref':
                    out.append((s, p))
                else:
                    out.append((s, ('L', self.deref(p, e['t']))))
            elif op in ('++', '--'):
                loc = v[1]
                t = e['e']['t']
                self.acc(s, loc, 'r', e['p'])
                self.acc(s, loc, 'w', e['p'])
                old = self.load(s, loc, t)
                new = add(old, 1 if op == '++' else -1)
                self.put(s, loc, new)
                s.ev('set', e['p'], loc, new, old)
                out.append((s, old if e['post'] else ('L', loc)))
            elif op == '-':
                out.append((s, scale(self.rv(s, v, e['t']), -1)))
            elif op == '+':
                out.append((s, self.rv(s, v, e['t'])))
            elif op == '~':
                out.append((s, ('app', '~', self.rv(s, v, e['t']))))
            else:
                out.append((s, v))
        return out

    def notv(self, st, v, e):
        v = self.rv(st, v, e['e']['t'])
        if isinstance(v, int):
            return 0 if v else 1
        return neg(v)

    def effects(self, e):
        return e['k'] in ('bin',) and e['op'] in ('&&', '||')

    def e_bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            return [(s, 1 if b else 0) for s, b in self.cond(e, st, fr)]
        if op == ',':
            out = []
            for s, _ in self.eval(e['l'], st, fr):
                out.extend(self.eval(e['r'], s, fr))
            return out
        if op == '=':
            return self.assign_builtin(e, st, fr)
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            out = []
            for s, r in self.eval(e['r'], st, fr):
                r = self.rv(s, r, e['r']['t'])
                for s2, l in self.eval(e['l'], s, fr):
                    loc = l[1]
                    self.acc(s2, loc, 'r', e['p'])
                    self.acc(s2, loc, 'w', e['p'])
                    old = self.load(s2, loc, e['l']['t'])
                    new = self.arith(s2, op[:-1], old, r, e)
                    self.put(s2, loc, new)
                    s2.ev('set', e['p'], loc, new, old)
                    out.append((s2, ('L', loc)))
            return out
        out = []
        for s, l in self.eval(e['l'], st, fr):
            l = self.rv(s, l, e['l']['t'])
            for s2, r in self.eval(e['r'], s, fr):
                r = self.rv(s2, r, e['r']['t'])
                out.append((s2, self.arith(s2, op, l, r, e)))
        return out

    def assign_builtin(self, e, st, fr):
        out = []
        for s, r in self.eval(e['r'], st, fr):
            r = self.rv(s, r, e['r']['t'])
            for s2, l in self.eval(e['l'], s, fr):
                loc = l[1]
                self.acc(s2, loc, 'w', e['p'])
                old = s2.store.get(loc)
                if old is None and loc[0] == 'f':
                    old = self.load(s2, loc, e['l']['t'])
                self.put(s2, loc, r)
                s2.ev('set', e['p'], loc, r, old)
                out.append((s2, ('L', loc)))
        return out

    def arith(self, st, op, l, r, e):
        for x in (l, r):
            if isinstance(x, tuple) and x and x[0] == 'undef':
                return ('app', op, l, r)
        if op == '+':
            return add(l, r)
        if op == '-':
            return sub(l, r)
        if op == '*':
            return mul(l, r)
        if op == '<':
            return lt(l, r) if self.ordered(l, r) else ('app', '<', l, r)
        if op == '<=':
            return le(l, r) if self.ordered(l, r) else ('app', '<=', l, r)
        if op == '>':
            return lt(r, l) if self.ordered(l, r) else ('app', '<', r, l)
        if op == '>=':
            return le(r, l) if self.ordered(l, r) else ('app', '<=', r, l)
        if op == '==':
            return eq(l, r)
        if op == '!=':
            return neg(eq(l, r))
        if isinstance(l, int) and isinstance(r, int):
            if op == '/' and r:
                return int(l / r) if abs(l) < 1 << 50 else l // r
            if op == '%' and r:
                return l % r
            if op == '<<' and 0 <= r < 64:
                return l << r
            if op == '>>' and 0 <= r < 64:
                return l >> r
            if op == '&':
                return l & r
            if op == '|':
                return l | r
            if op == '^':
                return l ^ r
        return ('app', op, l, r)

    def ordered(self, l, r):
        if T.is_ptr(l) or T.is_ptr(r):
            d = sub(l, r)
            return not (isinstance(d, tuple) and T.atoms_of(d) and any(x[0] == 'ptr' for x in T.atoms_of(d) if x))
        return not (T.opaque_value(l) or T.opaque_value(r) or
                    any(isinstance(x, tuple) and x[0] in ('flt',) for x in (l, r)))

    def e_cond(self, e, st, fr):
        out = []
        for s, b in self.cond(e['c'], st, fr):
            x = e['a'] if b else e['b']
            for s2, v in self.eval(x, s, fr):
                if not e.get('lv'):
                    v = self.rv(s2, v, e['t']) if not self.is_repo_rec(e['t']) else v
                out.append((s2, v))
        return self.join(out)

    def e_idx(self, e, st, fr):
        out = []
        for s, b in self.eval(e['b'], st, fr):
            b = self.rv(s, b, e['b']['t'])
            for s2, i in self.eval(e['i'], s, fr):
                i = self.rv(s2, i, e['i']['t'])
                p = add(b, i)
                if p == b and T.is_ptr(b) and b[1][0] != 'e':
                    loc = ('e', b[1], 0)
                else:
                    loc = self.deref(p, e['t'])
                if loc[0] == 'd':
                    loc = ('e', loc, 0)
                out.append((s2, ('L', loc)))
        return out

    def e_new(self, e, st, fr):
        out = []
        at = e['at']
        pls = self.args(e['place'], st, fr)
        for s, pv in pls:
            if pv:
                p = self.rv(s, pv[0], 'void *')
                loc = self.deref(p, at)
                if loc[0] == 'e' and loc[2] == 0 and loc[1][0] == 'd':
                    loc = loc[1]
                s.ev('placenew', e['p'], p, at)
                self.clear(s, loc)
            else:
                loc = ('h', self.newid(), at)
            n = None
            arrs = [(s, None)]
            if e.get('arr') is not None:
                arrs = [(s2, self.rv(s2, n2, 'unsigned long')) for s2, n2 in self.eval(e['arr'], s, fr)]
            for s2, n in arrs:
                if not pv:
                    s2.ev('new', e['p'], ('ptr', loc), at, n)
                if self.is_repo_rec(at):
                    s2.store[('dyn', loc)] = noref(at)
                if e.get('init') is not None and n is None:
                    for s3 in self.eval_into(e['init'], loc, s2, fr):
                        out.append((s3, ('ptr', loc)))
                else:
                    out.append((s2, ('ptr', loc if n is None else ('e', loc, 0))))
        return out

    def e_del(self, e, st, fr):
        out = []
        for s, v in self.eval(e['e'], st, fr):
            v = self.rv(s, v, 'void *')
            for s2, isnull in self.fork(s, eq(v, 0)):
                if isnull:
                    out.append((s2, 0))
                    continue
                for s3 in self.delete(s2, v, e['dty'], e['p'], arr=e['arr']):
                    out.append((s3, 0))
        return out

    def delete(self, st, p, t, pos, arr=False):
        sts = [st]
        if T.is_ptr(p):
            loc = p[1]
            if loc[0] == 'e' and loc[2] == 0:
                loc = loc[1]
            if self.is_repo_rec(t) or self.dyntype(st, loc):
                sts = self.destroy(st, loc, self.dyntype(st, loc) or t, pos)
        for s in sts:
            s.ev('free', pos, p, t, arr)
        return sts

    def e_lambda(self, e, st, fr):
        cur = [(st, [], None)]
        this = None
        for c in e['caps']:
            nxt = []
            for s, caps, th in cur:
                if c.get('this'):
                    nxt.append((s, caps, fr.this))
                    continue
                if c['byref']:
                    for s2, v in self.eval(c['init'], s, fr):
                        loc = v[1] if isinstance(v, tuple) and v and v[0] == 'L' else self.as_temp(s2, v)
                        nxt.append((s2, caps + [(c['d'], 'ref', loc)], th))
                else:
                    tl = ('t', self.newid())
                    for s2 in self.eval_into(c['init'], tl, s, fr):
                        v = self.load(s2, tl, c['init']['t'])
                        self.clear(s2, tl)
                        s2.store.pop(tl, None)
                        nxt.append((s2, caps + [(c['d'], 'val', v)], th))
            cur = nxt
        return [(s, ('clo', e['key'], th, tuple(caps))) for s, caps, th in cur]

    def e_silist(self, e, st, fr):
        return self.eval(e['e'], st, fr)

    def e_init(self, e, st, fr):
        loc = ('t', self.newid())
        return [(s, ('L', loc)) for s in self.init_into(e, loc, st, fr)]

    def init_into(self, e, loc, st, fr):
        t = e['t']
        if sort_of(t) != 'o' or is_pointer(t):
            if not e['elts']:
                st.store[loc] = 0
                return [st]
            return self.eval_into(e['elts'][0], loc, st, fr)
        rec = self.P.recs.get(noref(t))
        sts = [st]
        if rec and rec.get('in'):
            names = [f['n'] for f in rec['fields']]
            for i, x in enumerate(e['elts']):
                if i >= len(names):
                    break
                nxt = []
                for s in sts:
                    nxt.extend(self.eval_into(x, ('f', loc, names[i]), s, fr))
                sts = nxt
            for s in sts:
                s.store.setdefault(('dyn', loc), noref(t))
            return sts
        # arrays / foreign aggregates
        if e['elts'] or True:
            for s in sts:
                s.store[('elt', loc)] = 'obj'
            for i, x in enumerate(e['elts']):
                nxt = []
                for s in sts:
                    nxt.extend(self.eval_into(x, ('e', loc, i), s, fr))
                sts = nxt
            if not rec:
                for s in sts:
                    s.store[('x', loc, 'count')] = len(e['elts'])
            return sts

    def e_pseudodtor(self, e, st, fr):
        return [(st, 0)]

    def e_vaarg(self, e, st, fr):
        return [(st, self.fresh('va'))]

    def e_throw(self, e, st, fr):
        st.ev('throw', e['p'])
        return [(st, ('sig', ('throw',)))]

    def e_stmtexpr(self, e, st, fr):
        out = []
        for s, g in self.exec(e['s'], st, fr):
            out.append((s, self.fresh('se')))
        return out

    def e_unk(self, e, st, fr):
        st.note('expression ' + e.get('cls', '?'))
        cur = self.args(e.get('ch', []), st, fr)
        return [(s, self.fresh('unk', sort_of(e['t']))) for s, _ in cur]

    # class prvalues into a location
    def eval_into(self, e, loc, st, fr):
        k = e['k']
        if k == 'full':
            depth = len(st.temps)
            out = []
            for s in self.eval_into(e['e'], loc, st, fr):
                out.extend(self.pop_temps(s, depth, e['p']))
            return out
        if k in ('bind', 'defarg', 'silist'):
            return self.eval_into(e['e'], loc, st, fr)
        if k == 'mat' and self.is_repo_rec(e['t']) and False:
            return self.eval_into(e['e'], loc, st, fr)
        if k == 'ctor':
            if e.get('elid') and e['args']:
                a = e['args'][0]
                if a['k'] == 'mat':
                    return self.eval_into(a['e'], loc, st, fr)
            if self.is_repo_rec(e['fn']['rec']) and not self.is_prim(e['fn']['rec']):
                return self.construct(e, loc, st, fr)
        if k == 'init':
            return self.init_into(e, loc, st, fr)
        if k == 'cond' and self.is_repo_rec(e['t']):
            out = []
            for s, b in self.cond(e['c'], st, fr):
                out.extend(self.eval_into(e['a'] if b else e['b'], loc, s, fr))
            return out
        if k == 'call' and self.is_repo_rec(e['t']) and not e.get('lv'):
            out = []
            for s, v in self.call(e, st, fr, retloc=loc):
                if v != ('L', loc):
                    self.copy_value(s, v, loc, e['t'])
                out.append(s)
            return out
        out = []
        for s, v in self.eval(e, st, fr):
            if isinstance(v, tuple) and v and v[0] == 'L':
                self.copy_value(s, v, loc, e['t'])
            elif isinstance(v, tuple) and v and v[0] == 'sig':
                continue
            else:
                self.put(s, loc, v)
            out.append(s)
        return out

    def copy_value(self, st, v, loc, t):
        if isinstance(v, tuple) and v and v[0] == 'L':
            if v[1] == loc:
                return
            x = self.load(st, v[1], t)
            cnt = st.store.get(('x', v[1], 'count'))
            if st.store.get(('elt', v[1])):
                for k in self.subentries(st, v[1]):
                    st.store[self.rebase(k, v[1], loc)] = st.store[k]
                st.store[('elt', loc)] = 'obj'
                if cnt is not None:
                    st.store[('x', loc, 'count')] = cnt
                return
            self.put(st, loc, x)
            for a in ('doc', 'content'):
                if ('x', v[1], a) in st.store:
                    st.store[('x', loc, a)] = st.store[('x', v[1], a)]
        else:
            self.put(st, loc, v)

    def rebase(self, k, a, b):
        if k == a:
            return b
        return (k[0], self.rebase(k[1], a, b)) + tuple(k[2:])

    def is_prim(self, rec):
        return rec in self.prims or any(self.P.derives(rec, b) for b in self.contract)

    def construct(self, e, loc, st, fr):
        fn = e['fn']
        rec = fn['rec']
        key = fn['key']
        self.clear(st, loc)
        st.store.pop(loc, None)
        f = self.P.fns.get(key)
        st.store.setdefault(('dyn', loc), rec)
        if f is None:
            # trivial / implicit without a body
            if fn.get('cm') in ('copy', 'move') and e['args']:
                out = []
                for s, v in self.eval(e['args'][0], st, fr):
                    self.copy_value(s, v, loc, rec)
                    if rec.startswith('witness::') and isinstance(v, tuple) and v and v[0] == 'L':
                        s.ev('cmcopy', e['p'], loc, rec, v[1])
                    if fn['cm'] == 'move' and isinstance(v, tuple) and v and v[0] == 'L' and root(v[1])[0] in ('o', 'd'):
                        s.ev('movefrom', e['p'], v[1])
                    out.append(s)
                return out
            if rec.startswith('witness::') and not e['args']:
                st.ev('cmnew', e['p'], loc, rec)
            if e.get('zero'):
                st.store[loc] = ('rec', None, ())
                r = self.P.recs.get(rec)
                if r:
                    for fl in r['fields']:
                        if sort_of(fl['t']) != 'o':
                            st.store[('f', loc, fl['n'])] = 0
            return [st]
        if e.get('zero'):
            r = self.P.recs.get(rec)
            if r:
                for fl in r['fields']:
                    if sort_of(fl['t']) != 'o':
                        st.store[('f', loc, fl['n'])] = 0
        out = []
        for s, ops in self.bind_args(f, e['args'], st, fr):
            if fn.get('cm') == 'move' and ops and isinstance(ops[0], tuple) and ops[0] and ops[0][0] == 'L' \
                    and root(ops[0][1])[0] in ('o', 'd'):
                s.ev('movefrom', e['p'], ops[0][1])
            for s2, _ in self.invoke(key, loc, ops, s, e['p']):
                out.append(s2)
        return out

    def e_ctor(self, e, st, fr):
        rec = e['fn']['rec']
        if self.is_repo_rec(rec) and not self.is_prim(rec):
            loc = ('t', self.newid())
            return [(s, ('L', loc)) for s in self.eval_into(e, loc, st, fr)]
        if e.get('elid') and e['args'] and e['args'][0]['k'] == 'mat':
            inner = e['args'][0]['e']
            out = []
            for s, v in self.eval(inner, st, fr):
                out.append((s, self.rv(s, v, e['t'])))
            return out
        h = None
        for b in list(self.contract):
            if self.P.derives(rec, b):
                h = self.contract[b]
                out = []
                for s, ops in self.args(e['args'], st, fr):
                    out.extend(h(self, s, fr, e, None, ops))
                return out
        c = cls_of(rec)
        out = []
        r = self.P.recs.get(rec)
        if r and r.get('lambda'):
            for s, ops in self.args(e['args'], st, fr):
                out.append((s, self.rv(s, ops[0], rec)))
            return out
        for s, ops in self.args(e['args'], st, fr):
            out.extend(self.M.construct(self, s, fr, e, c, ops))
        return out

    def bind_args(self, f, exprs, st, fr):
        """Operands for inlining: class-type by-value parameters are built in
        temporaries so that constructors run."""
        cur = [(st, [])]
        for i, e in enumerate(exprs):
            pt = f.params[i]['t'] if i < len(f.params) else '?'
            nxt = []
            for s, vs in cur:
                if not is_ref(pt) and self.is_repo_rec(pt):
                    tl = ('t', self.newid())
                    for s2 in self.eval_into(e, tl, s, fr):
                        nxt.append((s2, vs + [('L', tl)]))
                else:
                    for s2, v in self.eval(e, s, fr):
                        if not is_ref(pt):
                            v = self.rv(s2, v, pt)
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def e_call(self, e, st, fr):
        return self.call(e, st, fr)

    def call(self, e, st, fr, retloc=None):
        fn = e.get('fn')
        if fn is None:
            out = []
            for s, c in self.eval(e['callee'], st, fr):
                c = self.rv(s, c, 'void *')
                for s2, ops in self.args(e['args'], s, fr):
                    if isinstance(c, tuple) and c[0] == 'fnref' and c[1] in self.P.fns:
                        out.extend(self.invoke(c[1], None, ops, s2, e['p'], retloc=retloc))
                    elif isinstance(c, tuple) and c[0] == 'clo':
                        out.extend(self.call_closure(s2, c, ops, e['p'], retloc))
                    else:
                        s2.ev('ucall', e['p'], c, self.evargs(s2, ops, []))
                        out.append((s2, self.fresh('r', sort_of(e['t']))))
            return out
        key = fn['key']
        # closures called through their operator()
        if key.startswith('L:') and 'obj' in e:
            out = []
            for s, o in self.eval(e['obj'], st, fr):
                c = self.rv(s, o, e['obj']['t'])
                if isinstance(c, tuple) and c and c[0] == 'ptr':
                    c = self.load(s, c[1], '?')
                if isinstance(c, tuple) and c and c[0] == 'clo':
                    f = self.P.fns.get(key)
                    for s2, ops in (self.bind_args(f, e['args'], s, fr) if f else self.args(e['args'], s, fr)):
                        out.extend(self.call_closure(s2, c, ops, e['p'], retloc))
                else:
                    for s2, ops in self.args(e['args'], s, fr):
                        s2.ev('ucall', e['p'], c, self.evargs(s2, ops, fn['pt']))
                        out.append((s2, self.fresh('r', sort_of(e['t']))))
            return out
        out = []
        if 'obj' in e:
            for s, o in self.eval(e['obj'], st, fr):
                if e.get('arrow'):
                    p = self.rv(s, o, e['obj']['t'])
                    if not (isinstance(p, tuple) and p and p[0] == 'undef'):
                        self.check_deref(s, p, e['p'])
                    loc = self.deref(p, '?')
                else:
                    loc = o[1] if isinstance(o, tuple) and o and o[0] == 'L' else self.as_temp(s, o)
                out.extend(self.call_on(e, fn, loc, s, fr, retloc))
            return out
        return self.call_on(e, fn, None, st, fr, retloc)

    def call_on(self, e, fn, loc, st, fr, retloc):
        key, q = fn['key'], fn['q']
        if fn.get('kind') == 'dtor' and loc is not None:
            t = noref(e['obj']['t']) if 'obj' in e else fn.get('rec')
            t = pointee(t) if e.get('arrow') and 'obj' in e else t
            t = re.sub(r'^((const|volatile) )+', '', t or '')
            st.ev('xdtor', e['p'], loc, t)
            return [(s, 0) for s in self.destroy(st, loc, t, e['p'])]
        if fn.get('in'):
            rec = fn.get('rec')
            # contract classes
            if rec:
                for b in self.contract:
                    if self.P.derives(rec, b) and self.contract_applies(b, fn, st, loc):
                        out = []
                        for s, ops in self.args(e['args'], st, fr):
                            r = self.contract[b](self, s, fr, e, loc, ops)
                            out.extend(r)
                        return out
                if rec in self.prims:
                    out = []
                    for s, ops in self.args(e['args'], st, fr):
                        out.extend(self.M.prim_call(self, s, fr, e, loc, ops))
                    return out
            target = key
            if fn.get('virt') and not e.get('nonvirt') and loc is not None:
                dyn = self.dyntype(st, loc)
                if dyn is None or (not self.P.derives(dyn, rec)):
                    out = []
                    for s, ops in self.args(e['args'], st, fr):
                        out.extend(self.icall(s, fr, e, fn, loc, ops))
                    return out
                target = self.P.overrider(dyn, key) or key
            f = self.P.fns.get(target)
            if f is None and (fn.get('def') or fn.get('cm')):
                out = []
                for s, ops in self.args(e['args'], st, fr):
                    if fn.get('cm') in ('copy=', 'move=') and loc is not None:
                        self.copy_value(s, ops[0], loc, rec)
                        if rec.startswith('witness::'):
                            s.ev('cmassign', e['p'], q, loc, self.evargs(s, ops, fn['pt']))
                        out.append((s, ('L', loc)))
                    else:
                        out.append((s, 0))
                return out
            h = self.summ.get(untemplate(q))
            if h is not None:
                out = []
                for s, ops in self.args(e['args'], st, fr):
                    out.extend(h(self, s, fr, e, fn, loc, ops))
                return out
            if f is not None and untemplate(q) not in self.noinline:
                if self.stack.count(target) >= 1 and self.depth > 2 and self.stack.count(target) > self.recursion_limit(target):
                    out = []
                    for s, ops in self.args(e['args'], st, fr):
                        s.ev('reccall', e['p'], q, loc, self.evargs(s, ops, fn['pt']))
                        self.clobber(s, ops, fn['pt'])
                        out.append((s, self.opaque_result(s, e, retloc)))
                    return out
                out = []
                rl = retloc
                if rl is None and self.is_repo_rec(f.ret) and not is_ref(f.ret):
                    rl = ('t', self.newid())
                for s, ops in self.bind_args(f, e['args'], st, fr):
                    if f.variadic:
                        s.ev('varcall', e['p'], q, self.evargs(s, ops, fn['pt']))
                    for s2, v in self.invoke(target, loc, ops, s, e['p'], retloc=rl):
                        if is_ref(f.ret) and isinstance(v, tuple) and v and v[0] != 'L':
                            v = ('L', self.as_temp(s2, v))
                        out.append((s2, v))
                return out
            out = []
            for s, ops in self.args(e['args'], st, fr):
                s.ev('opaque', e['p'], q, loc, self.evargs(s, ops, fn['pt']))
                self.unmodelled[q] = self.unmodelled.get(q, 0) + 1
                self.clobber(s, ops, fn['pt'])
                out.append((s, self.opaque_result(s, e, retloc)))
            return out
        out = []
        for s, ops in self.args(e['args'], st, fr):
            out.extend(self.M.call(self, s, fr, e, fn, loc, ops))
        return out

    def contract_applies(self, b, fn, st, loc):
        return fn.get('virt') or fn.get('kind') in ('ctor',) or fn['q'].endswith('::dump')

    def recursion_limit(self, key):
        return 1 if key.startswith('L:') else 1

    def opaque_result(self, st, e, retloc):
        if e.get('lv'):
            return ('L', ('d', self.fresh('ref', 'p')))
        return self.fresh('r', sort_of(e['t']))

    def evargs(self, st, ops, pts):
        out = []
        for i, o in enumerate(ops):
            if isinstance(o, tuple) and o and o[0] == 'L':
                pt = pts[i] if i < len(pts) else '?'
                out.append(('ref', o[1], self.load(st, o[1], noref(pt))))
            else:
                out.append(o)
        return tuple(out)

    def clobber(self, st, ops, pts):
        """Unknown callee: arguments passed by non-const pointer/reference."""
        for i, o in enumerate(ops):
            pt = pts[i] if i < len(pts) else ''
            if isinstance(o, tuple) and o and o[0] == 'L':
                if is_ref(pt) and not pt.startswith('const '):
                    self.havoc(st, o[1])
            elif T.is_ptr(o) and is_pointer(pt) and not pt.startswith('const '):
                l = o[1]
                if l[0] == 'e':
                    l = l[1]
                if l[0] not in ('str', 'val'):
                    self.havoc(st, l)

    def icall(self, st, fr, e, fn, loc, ops):
        q = untemplate(fn['q'])
        h = self.icalls.get(q)
        recv = self.recv(loc)
        if h is not None:
            return h(self, st, fr, e, fn, recv, ops)
        ret = self.fresh(q.split('::')[-1], sort_of(e['t'])) if e['t'] != 'void' else 0
        st.ev('icall', e['p'], q, recv, self.evargs(st, ops, fn['pt']), ret)
        self.clobber(st, ops, fn['pt'])
        return [(st, ret)]

    def recv(self, loc):
        if loc[0] == 'd':
            return loc[1]
        return ('ptr', loc)

    def ucall(self, st, f, ops, pts, e, rett):
        """Call of an unknown std::function: user code."""
        ret = self.fresh('u', sort_of(rett)) if rett != 'void' else 0
        extra = self.on_ucall(st, f, ops) if self.on_ucall else ()
        st.ev('ucall', e['p'], f, self.evargs(st, ops, pts), ret, extra)
        return [(st, ret)]
