"""C28: the protocol structures and their wire tables."""
import re
import subprocess
import tempfile
from common import *

FILES = ('protocol_events.cpp', 'protocol_requests.cpp', 'protocol_response.cpp', 'protocol_types.cpp')


def nodes(o):
    """Every AST node below o, in source order."""
    stack = [o]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            stack.extend(reversed([v for k, v in x.items() if k != 'rexpr']))   # (a second copy of the range)
        elif isinstance(x, (list, tuple)):
            stack.extend(reversed(list(x)))


def reach(P, f, keep):
    """f and the repository functions (and lambdas) it reaches for which keep holds."""
    out, todo = [], [f]
    seen = set()
    while todo:
        g = todo.pop()
        if g.key in seen:
            continue
        seen.add(g.key)
        out.append(g)
        for n in nodes([g.inits, g.body]):
            k = None
            if n.get('k') == 'lambda':
                k = n['key']
            elif isinstance(n.get('fn'), dict):
                k = n['fn'].get('key')
            h = P.fns.get(k) if k else None
            if h is not None and keep(h):
                todo.append(h)
    return out


def bare(t):
    return re.sub(r'^((const|volatile) )+', '', t or '').strip()


def rows(P, fns):
    """The dap::Field table rows built in the given functions: (wire, member record, member, member type, typeinfo type, pos)."""
    out, seen = [], set()
    bodies = [[g.inits, g.body] for g in fns]
    # tables held in variables of namespace scope
    for g in fns:
        for n in nodes(g.body):
            if n.get('k') == 'ref' and n.get('q') in P.globals:
                bodies.append(P.globals[n['q']].get('init'))
    for b in bodies:
        for n in nodes(b):
            if n.get('k') == 'init' and bare(n.get('t')) == 'dap::Field' and len(n['elts']) == 3 and id(n) not in seen:
                seen.add(id(n))
                wire = [x for x in nodes(n['elts'][0]) if x.get('k') == 'str']
                mem = [x for x in nodes(n['elts'][1]) if x.get('k') == 'mem']
                ty = [x for x in nodes(n['elts'][2]) if isinstance(x.get('fn'), dict) and x['fn']['q'].endswith('::type')
                      and x['fn']['q'].startswith('dap::TypeOf<')]
                off = n['elts'][1].get('cv')
                out.append((bytes.fromhex(wire[0]['v']).decode('utf-8', 'replace') if len(wire) == 1 else None,
                            mem[0]['rec'] if len(mem) == 1 else None,
                            mem[0]['n'] if len(mem) == 1 else None,
                            bare(mem[0]['dt']) if len(mem) == 1 else None,
                            ty[0]['fn']['q'][len('dap::TypeOf<'):-len('>::type')] if len(ty) == 1 else None,
                            n['p'], off))
    return out


def tables(P):
    """struct -> {'ser': rows, 'des': rows, 'name': wire name}"""
    out = {}
    for f in P.fns.values():
        m = re.match(r'dap::TypeOf<(.*)>::(serializeFields|deserializeFields)$', f.q)
        if m and f.static:
            keep = (lambda s: lambda h: h.q.startswith('dap::TypeOf<%s>::' % s))(m.group(1))
            d = out.setdefault(m.group(1), {})
            d['ser' if m.group(2)[0] == 's' else 'des'] = (rows(P, reach(P, f, keep)), f)
        m = re.match(r'dap::TypeOf<(.*)>::type$', f.q)
        if m and f.static and 'static' not in f.q:
            s = m.group(1)
            ctors = [g for g in P.fns.values() if g.kind == 'ctor' and g.q.startswith('dap::TypeOf<%s>::type()::' % s)]
            names = []
            for g in [f] + ctors:
                for n in nodes([g.inits, g.body]):
                    if isinstance(n.get('fn'), dict) and n['fn']['q'].startswith('dap::BasicTypeInfo<') and n['fn']['kind'] == 'ctor':
                        names += [(bare(n['fn']['rec'])[len('dap::BasicTypeInfo<'):-1], bytes.fromhex(x['v']).decode())
                                  for x in nodes(n['args']) if x.get('k') == 'str']
            if len(names) == 1:
                out.setdefault(s, {})['name'] = names[0] + (f,)
    return out


def load():
    with open(os.path.join(HERE, 'wire.json')) as fh:
        return json.load(fh)


def C28(L):
    P = ir.extract(ir.src(*FILES))
    spec = load()
    T_ = tables(P)
    L.rule('every-member-listed', 'each data member of a protocol structure is in the encoding and in the decoding table exactly once')
    L.rule('own-type', "each row carries the type description of the member's own declared type")
    L.rule('unique-wire-name', 'no two rows of a structure (base structures included) share a wire name')
    L.rule('wire-name', "each wire name of the protocol is mapped to the protocol's type for it, optional where the protocol says so")
    L.rule('struct-name', "each structure is registered under the protocol's own command or event name, describing that structure")
    L.rule('response-type', "each request names the protocol's response structure, and requests, responses and events have their own base")
    structs = [s for s in T_ if s in P.recs]
    L.count('structures', len(structs))
    if len(structs) < len(spec) // 2:
        raise AnalysisError('only %d protocol structures found' % len(structs))
    for s in sorted(structs):
        rec = P.recs[s]
        own = {f['n']: f for f in rec['fields']}
        for which in ('ser', 'des'):
            word = 'encoding' if which == 'ser' else 'decoding'
            if which not in T_[s]:
                if s in spec:
                    L.ob('every-member-listed', '%s %s' % (s, word), None, rec['p'], 'no table found')
                continue
            rs, fn = T_[s][which]
            L.functions.add(fn.q)
            L.count('rows', len(rs))
            if any(r[0] is None or r[2] is None for r in rs) or (own and not rs):
                L.ob('every-member-listed', '%s %s' % (s, word), None, fn.p, 'table not recognised')
                continue
            listed = {}
            for r in rs:
                listed.setdefault(r[2], []).append(r)
            for n, f in own.items():
                c = len(listed.get(n, []))
                L.ob('every-member-listed', '%s::%s %s' % (s, n, word), c == 1, listed[n][1][5] if c > 1 else fn.p,
                     'the member is in the table %d times' % c)
            for r in rs:
                if r[2] not in own:
                    ok = r[1] in P.bases(s)
                    L.ob('every-member-listed', '%s::%s %s' % (s, r[2], word), None if ok else False, r[5], 'not a member of the structure')
                    continue
                L.ob('own-type', '%s::%s %s' % (s, r[2], word), None if r[4] is None else r[4] == bare(own[r[2]]['t']), r[5],
                     'the member is %s but is described as %s' % (bare(own[r[2]]['t']), r[4]))
            names = [r[0] for r in rs]
            for b in P.bases(s)[1:]:
                if b in T_ and which in T_[b]:
                    names += [r[0] for r in T_[b][which][0]]
            dup = sorted({n for n in names if names.count(n) > 1})
            L.ob('unique-wire-name', '%s %s' % (s, word), not dup, fn.p, 'wire name used twice: %s' % ', '.join(dup))
            if s in spec:
                have = {r[0]: bare(own[r[2]]['t']) for r in rs if r[2] in own}
                for w, (ty, mem) in spec[s]['fields'].items():
                    if w not in have:
                        L.ob('wire-name', '%s %s %s' % (s, w, word), False, fn.p, 'nothing is mapped to the wire name "%s" of the protocol' % w)
                    else:
                        L.ob('wire-name', '%s %s %s' % (s, w, word), have[w] == ty, fn.p,
                             'wire name "%s" is mapped to a member of type %s, the protocol says %s' % (w, have[w], ty))
                        # the member of that name still exists but the name now leads to another one
                        to = next(r[2] for r in rs if r[0] == w)
                        if mem in own and to != mem:
                            L.ob('wire-name', '%s %s %s member' % (s, w, word), False, fn.p,
                                 'wire name "%s" is mapped to the member %s instead of %s' % (w, to, mem))
        nm = T_[s].get('name')
        if s in spec:
            if nm is None:
                L.ob('struct-name', s, None, rec['p'], 'name not recognised')
            else:
                L.ob('struct-name', s, nm[1] == spec[s]['name'] and nm[0] == s, nm[2].p,
                     'registered as "%s" describing %s, the protocol says "%s"' % (nm[1], nm[0], spec[s]['name']))
    for s in spec:
        if s not in T_:
            L.ob('every-member-listed', s, None, None, 'structure not found')
    # type-level witness: one assertion per line, so that the failing line names the fact
    lines = ['#include "dap/protocol.h"', '#include <type_traits>']
    facts = {}
    for s, d in sorted(spec.items()):
        if s not in P.recs:
            continue
        if d.get('base'):
            lines.append('static_assert(std::is_base_of<%s, %s>::value, "");' % (d['base'], s))
            facts[len(lines)] = ('%s base' % s, '%s does not derive from %s' % (s, d['base']))
        if d.get('response'):
            lines.append('static_assert(std::is_same<%s::Response, %s>::value, "");' % (s, d['response']))
            facts[len(lines)] = ('%s response' % s, '%s::Response is not %s' % (s, d['response']))
    bad = compile_lines(lines)
    for ln, (inst, why) in facts.items():
        L.ob('response-type', inst, ln not in bad, P.recs[inst.split()[0]]['p'], why)


def compile_lines(lines, extra=()):
    """Type-checks the lines as one unit; the set of line numbers with errors."""
    with tempfile.NamedTemporaryFile('w', suffix='.cpp', prefix='vp-w-', delete=False) as fh:
        fh.write('\n'.join(lines) + '\n')
    try:
        r = subprocess.run(['/usr/bin/clang++', '-fsyntax-only', '-ferror-limit=0'] +
                           [f for f in ir.flags() if not f.startswith('-ferror')] + list(extra) + [fh.name],
                           capture_output=True, text=True)
        bad = set()
        for l in r.stderr.splitlines():
            m = re.match(r'(.*?):(\d+):\d+: (fatal )?error', l)
            if m:
                if m.group(1) != fh.name:
                    continue
                bad.add(int(m.group(2)))
            elif fh.name in l:
                m = re.search(re.escape(fh.name) + r':(\d+):\d+: note: in instantiation', l)
                if m:
                    bad.add(int(m.group(1)))
        return bad
    finally:
        os.unlink(fh.name)


if __name__ == '__main__' and sys.argv[1:] == ['freeze']:
    P = ir.extract(ir.src(*FILES))
    out = {}
    text = open(ir.REPO + '/include/dap/protocol.h').read()
    for s, d in sorted(tables(P).items()):
        if s not in P.recs or 'name' not in d:
            continue
        own = {f['n']: bare(f['t']) for f in P.recs[s]['fields']}
        b = [x['k'] for x in P.recs[s]['bases']]
        m = re.search(r'struct %s : public Request \{.*?using Response = (\w+);' % s[5:], text, re.S)
        out[s] = {'name': d['name'][1], 'fields': {r[0]: (own[r[2]], r[2]) for r in d['des'][0]},
                  'base': b[0] if b else None, 'response': 'dap::' + m.group(1) if b == ['dap::Request'] and m else None}
    json.dump(out, open(os.path.join(HERE, 'wire.json'), 'w'), indent=0, sort_keys=True)
    print(len(out))
