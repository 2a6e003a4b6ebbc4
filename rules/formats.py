"""C30: formatted output."""
import re
from common import *
from protocol import nodes

SRC = ('content_stream.cpp', 'io.cpp', 'network.cpp', 'session.cpp', 'socket.cpp', 'typeinfo.cpp', 'typeof.cpp',
       'nlohmann_json_serializer.cpp')
BACK = {'rapid': ('rapid_json_serializer.cpp',), 'jsoncpp': ('jsoncpp_json_serializer.cpp',)}

# libc: name -> (index of format, index of destination, index of size, takes a va_list)
LIBC = {'printf': (0, None, None, False), 'fprintf': (1, None, None, False), 'sprintf': (1, 0, None, False),
        'snprintf': (2, 0, 1, False), 'vprintf': (0, None, None, True), 'vfprintf': (1, None, None, True),
        'vsprintf': (1, 0, None, True), 'vsnprintf': (2, 0, 1, True), 'dprintf': (1, None, None, False),
        'asprintf': (1, None, None, False), 'vasprintf': (1, None, None, True), 'syslog': (1, None, None, False)}
INT = {'hh': ('int', 'char', 'signed char', 'unsigned char'), 'h': ('int', 'short', 'unsigned short'),
       '': ('int',), 'l': ('long',), 'll': ('long long',), 'z': ('unsigned long', 'long'), 'j': ('long', 'unsigned long'),
       't': ('long', 'unsigned long')}


def strip(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'bind', 'mat', 'full', 'defarg', 'paren', 'const') and isinstance(e.get('e'), dict):
        e = e['e']
    return e


def libc(fn):
    q = fn['q']
    q = q[5:] if q.startswith('std::') else q
    return LIBC.get(q)


def parse(fmt):
    """[(flags.., conversion spec, length, star count)] or None when malformed"""
    out = []
    i = 0
    while i < len(fmt):
        if fmt[i] != '%':
            i += 1
            continue
        m = re.match(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|z|j|t|L)?(.)', fmt[i:], re.S)
        if not m:
            return None
        i += m.end()
        if m.group(5) == '%':
            continue
        for s in (m.group(2), m.group(3)):
            if s == '*':
                out.append(('*', ''))
        out.append((m.group(5), m.group(4) or ''))
    return out


def fits(conv, ty):
    c, l = conv
    ty = re.sub(r'\b(const|volatile)\b ?', '', ty).strip()
    if c == '*':
        return ty == 'int'
    if c in 'dioxXuc':
        want = INT.get(l)
        if c == 'c' and l == '':
            want = ('int', 'char')
        if want is None:
            return None
        opts = set()
        for w in want:
            opts |= {w, 'unsigned ' + w} if not w.startswith('unsigned') else {w}
        if 'enum' in ty or ty == 'bool':
            return None
        return ty in opts
    if c in 'eEfFgGaA':
        return ty == ('long double' if l == 'L' else 'double')
    if c == 's':
        return None if l else ty in ('char *', 'unsigned char *', 'signed char *')
    if c == 'p':
        return ty.endswith('*')
    if c == 'n':
        return False
    return False


class Finder(object):
    def __init__(self, P):
        self.P = P
        self.wrap = {}      # key -> (format index, [positions of v-calls])
        changed = True
        while changed:
            changed = False
            for f in P.fns.values():
                if f.key in self.wrap:
                    continue
                for i, p in enumerate(f.params):
                    if 'char *' not in p['t'] and 'std::string' not in p['t']:
                        continue
                    for n in nodes([f.inits, f.body]):
                        r = self.callee(n)
                        if not r:
                            continue
                        fi = r[0]
                        if fi < len(n['args']):
                            a = strip(n['args'][fi])
                            if isinstance(a, dict) and a.get('k') == 'ref' and a.get('dk') == 'parm' and a.get('n') == p['n'] and \
                                    not f.q.startswith('std::'):
                                self.wrap[f.key] = (i, None, None, not f.variadic)
                                changed = True

    def callee(self, n):
        fn = n.get('fn') if n.get('k') in ('call', 'ctor') else None
        if not isinstance(fn, dict):
            return None
        r = libc(fn)
        if r:
            return r
        return self.wrap.get(fn.get('key'))


def literals(f, a):
    """The constant strings expression a can be: list, 'param', 'dynamic' or None when unknown."""
    a = strip(a)
    if not isinstance(a, dict):
        return None
    k = a.get('k')
    if k == 'str':
        return [bytes.fromhex(a['v']).decode('utf-8', 'replace')]
    if k == 'cond':
        x, y = literals(f, a['a']), literals(f, a['b'])
        if isinstance(x, list) and isinstance(y, list):
            return x + y
        return 'dynamic' if 'dynamic' in (x, y) else None
    if k == 'call' and isinstance(a.get('fn'), dict):
        q = a['fn']['q']
        if q.startswith('std::') and q.split('::')[-1] in ('c_str', 'data'):
            return 'dynamic'
        return None
    if k == 'ref' and a.get('dk') == 'parm':
        return ('param', a['n'])
    if k == 'ref' and a.get('dk') == 'var':
        out = []
        for n in nodes(f.body):
            if n.get('k') == 'decl':
                for v in n['vars']:
                    if v.get('d') == a.get('d') and v.get('init'):
                        i = strip(v['init'])
                        if isinstance(i, dict) and i.get('k') in ('int', 'nullptr') or (isinstance(i, dict) and i.get('k') == 'null'):
                            continue
                        r = literals(f, v['init'])
                        if r == 'dynamic':
                            return r
                        if not isinstance(r, list):
                            return None
                        out += r
            if n.get('k') in ('bin', 'assign') and n.get('op') == '=' and strip(n.get('l')).get('d') == a.get('d'):
                r = literals(f, n['r'])
                if r == 'dynamic':
                    return r
                if not isinstance(r, list):
                    return None
                out += r
        return out or None
    if k == 'mem' and 'std::string' in (a.get('dt') or ''):
        return 'dynamic'
    return None


def array_size(e):
    """Number of elements of the array an expression decays from."""
    while isinstance(e, dict):
        m = re.match(r'(?:const )?(?:unsigned |signed )?char ?\[(\d+)\]$', e.get('t') or '')
        if m and e.get('k') in ('ref', 'mem'):
            return int(m.group(1))
        if e.get('k') in ('cast', 'paren') and isinstance(e.get('e'), dict):
            e = e['e']
            continue
        if e.get('k') == 'un' and e.get('op') == '&':
            i = strip(e['e'])
            if isinstance(i, dict) and i.get('k') in ('index', 'idx') and const(i.get('i')) == 0:
                e = i.get('b')
                continue
        return None


def const(e):
    while isinstance(e, dict):
        if e.get('cv') is not None:
            return int(e['cv'])
        if e.get('k') == 'int':
            return int(e['v'])
        if e.get('k') in ('cast', 'paren', 'full', 'const'):
            e = e.get('e')
            continue
        return None


def C30(L):
    L.rule('constant-format', 'every format string is a constant (or the format parameter of a formatting function)')
    L.rule('arguments-match', 'the arguments match the conversions of the format in number and type')
    L.rule('bounded', 'formatted output is limited to the size of its destination')
    L.rule('length-of-result', 'the length that is sent of a formatted buffer cannot exceed the buffer')
    L.rule('terminated', 'the byte that ends a formatted text is not overwritten with another')
    L.rule('va-list-once', 'a variable argument list is started before it is used, used once and ended')
    units = [(ir.extract(ir.src(*SRC)), 'nlohmann')]
    units += [(ir.extract(ir.src(*v), b), b) for b, v in BACK.items()]
    nsites = 0
    for P, be in units:
        F = Finder(P)
        L.count('formatting_functions', len(F.wrap))
        for f in P.fns.values():
            if not f.body and not f.inits:
                continue
            if not f.p or not f.p[0].startswith(ir.REPO):
                continue
            L.functions.add(f.q)
            for n in nodes([f.inits, f.body]):
                r = F.callee(n)
                if not r:
                    continue
                fi, di, si, va = r
                name = X.untemplate(n['fn']['q'])
                inst = '%s in %s' % (name, X.untemplate(f.q))
                nsites += 1
                if fi >= len(n['args']):
                    L.ob('constant-format', inst, None, n['p'], 'no format argument')
                    continue
                lit = literals(f, n['args'][fi])
                if isinstance(lit, tuple):
                    fwd = f.key in F.wrap and f.params[F.wrap[f.key][0]]['n'] == lit[1]
                    L.ob('constant-format', inst + ' #%d' % nsites, True if fwd else None, n['p'], 'the format is the parameter %s' % lit[1])
                elif lit == 'dynamic':
                    L.ob('constant-format', inst + ' #%d' % nsites, False, n['p'], 'text that is not a constant is used as the format')
                elif lit is None:
                    L.ob('constant-format', inst + ' #%d' % nsites, None, n['p'], 'the format is not recognised')
                else:
                    L.ob('constant-format', inst + ' #%d' % nsites, True, n['p'])
                    if not va:
                        rest = n['args'][fi + 1:]
                        for s in lit:
                            cs = parse(s)
                            if cs is None:
                                L.ob('arguments-match', inst + ' #%d' % nsites, False, n['p'], 'malformed format "%s"' % s)
                                continue
                            if len(cs) != len(rest):
                                L.ob('arguments-match', inst + ' #%d' % nsites, False if len(cs) > len(rest) else None, n['p'],
                                     'the format "%s" takes %d arguments, %d given' % (s, len(cs), len(rest)))
                                continue
                            for c, a in zip(cs, rest):
                                L.ob('arguments-match', inst + ' #%d' % nsites, fits(c, a['t']), a['p'],
                                     '%%%s%s of "%s" is given a %s' % (c[1], c[0], s, a['t']))
                if di is not None:
                    size = array_size(n['args'][di])
                    if si is None:
                        L.ob('bounded', inst + ' #%d' % nsites, False if (va or lit is None or not isinstance(lit, list) or
                                                       any('s' in [c[0] for c in parse(x) or []] for x in lit)) else None,
                             n['p'], '%s does not limit what it writes' % name)
                    else:
                        lim = const(n['args'][si])
                        ended(L, f, n, strip(n['args'][di]), lim, inst + ' #%d' % nsites)
                        if size is None or lim is None:
                            L.ob('bounded', inst + ' #%d' % nsites, None, n['p'], 'size of the destination not recognised')
                        else:
                            L.ob('bounded', inst + ' #%d' % nsites, lim <= size, n['p'],
                                 'up to %d bytes are written to a buffer of %d' % (lim, size))
        # what is done with the result
        for key in sorted(F.wrap):
            f = P.fns[key]
            if not f.p or not f.p[0].startswith(ir.REPO):
                continue
            check_use(L, P, f, be)
    L.count('format_call_sites', nsites)
    if nsites < 20:
        raise AnalysisError('only %d formatting call sites found' % nsites)


def ended(L, f, call, dest, lim, inst):
    if not isinstance(dest, dict) or dest.get('k') != 'ref' or lim is None:
        return
    last = None
    for n in nodes(f.body):
        if n.get('k') != 'bin' or n.get('op') != '=' or tuple(n['p'][1:]) < tuple(call['p'][1:]):
            continue
        l = strip(n['l'])
        if isinstance(l, dict) and l.get('k') == 'idx' and strip(l['b']).get('d') == dest.get('d') and const(l['i']) == lim - 1:
            last = n
    v = const(last['r']) if last else None
    L.ob('terminated', inst, v in (None, 0), last['p'] if v else call['p'],
         'byte %d of the buffer, which ends the longest text, is overwritten' % (lim - 1))


def check_use(L, P, f, be):
    """Interpret the formatting function: lengths taken from a formatted buffer, and the va_list protocol."""
    r = run(L, P, f, f.rec if f.rec in P.recs else None)
    inst = X.untemplate(f.q)
    if not r:
        L.ob('va-list-once', inst, None, f.p, 'not analysable')
        return
    sizes = {}
    for n in nodes(f.body):
        if n.get('k') == 'decl':
            for v in n['vars']:
                m = re.match(r'char ?\[(\d+)\]$', v.get('t') or '')
                if m:
                    sizes[v['d']] = int(m.group(1))
    for st, _ in r.rs:
        started = used = ended = 0
        copies = 0
        for e in flat(st.events()):
            if e[0] == 'va':
                q = e[3]
                if 'start' in q:
                    started += 1
                elif 'copy' in q:
                    copies += 1
                elif 'end' in q:
                    ended += 1
            elif e[0] == 'fmt' and 'vsn' in e[3]:
                used += 1
                if f.variadic:
                    L.ob('va-list-once', inst + ' started', started > 0, e[1], 'the argument list is used before va_start')
                    L.ob('va-list-once', inst + ' not ended', ended < started + copies, e[1], 'the argument list is used after va_end')
            elif e[0] == 'icall' and e[3].endswith('::write') and len(e[5]) == 2:
                p, n = e[5]
                if T.is_ptr(p):
                    loc = p[1]
                    base = loc[1] if loc[0] == 'e' else loc
                    if ('cstr', base) in st.store or any(x[0] == 'fmt' and T.is_ptr(x[4]) and same_base(x[4], base) for x in st.events()):
                        size = arr_size(base, sizes)
                        if size is None:
                            continue
                        if has_term(n, lambda x: isinstance(x, tuple) and len(x) == 4 and x[0] == 'sym' and x[1] == 'vsn'):
                            ok = st.facts.decide(T.le(n, size))
                            low = st.facts.decide(T.le(0, n))
                            L.ob('length-of-result', inst, True if ok and low else False, e[1],
                                 'the length sent is the length the text would have had: it can exceed the %d bytes of the buffer' % size)
                        elif isinstance(n, int):
                            L.ob('length-of-result', inst, True if n <= size else False, e[1], '%d bytes of a buffer of %d are sent' % (n, size))
                        else:
                            L.ob('length-of-result', inst, True, e[1])
        if f.variadic:
            L.ob('va-list-once', inst + ' once', used <= started + copies, f.p, 'the argument list is used %d times but set up %d times' % (used, started + copies))
            L.ob('va-list-once', inst + ' ended', None if ended < started else True, f.p, 'va_end is missing')


def same_base(p, base):
    loc = p[1]
    return (loc[1] if loc[0] == 'e' else loc) == base


def arr_size(base, sizes):
    if base[0] == 'v':
        for d, n in sizes.items():
            if d in base or (len(base) > 2 and base[2] == d):
                return n
    return None
