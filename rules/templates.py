"""C32 and the template part of C02: the typed front of dap::Session."""
import os
from common import *
import values
from values import ti, verdict, bverdict, witnesses

WIT = os.path.join(VERIF, 'witness', 'handlers.cpp')
HANDLE = ('ptr', ('o', 'decoded'))
REQ, RESP, EV = ti('witness::Req'), ti('witness::Resp'), ti('witness::Ev')
EMPTY = b''


def program():
    return ir.extract(ir.src('session.cpp') + [WIT])


def setup(I):
    values.setup(I)
    I.oracle = None

    def set_value(I, st, fr, e, fn, loc, ops):
        v = ops[0] if ops else 0
        x = v[1] if isinstance(v, tuple) and v and v[0] == 'L' else I.as_temp(st, v)
        rec = X.noref(fn['pt'][0]) if fn.get('pt') else '?'
        st.ev('pset', e['p'], state_of(I, st, loc), roe_value(I, st, x), rec)
        return [(st, 0)]
    I.summ['dap::promise::set_value'] = set_value

    def look(st, f, ops):
        """What the objects passed to a callback hold at that moment."""
        out = []
        for o in ops:
            l = o[1] if isinstance(o, tuple) and o and o[0] in ('L', 'ptr') else None
            if l is None:
                out.append(None)
            else:
                s = st.copy()
                out.append((I.load(s, ('f', l, 'text'), 'std::string'), I.load(s, ('f', l, 'message'), 'std::string')))
        return tuple(out)
    I.on_ucall = look


def state_of(I, st, loc):
    """The identity of the state a promise or future refers to: its shared pointer."""
    t = M.type_of_loc(I, st, loc)
    rec = I.P.recs.get(X.noref(t or ''), None)
    for f in (rec or {'fields': ()})['fields']:
        if 'shared_ptr' in f['t']:
            return I.load(st, ('f', loc, f['n']), f['t'])
    return None


def roe_value(I, st, loc):
    """(response text, error message) of a response-or-error object."""
    return (I.load(st, ('f', ('f', loc, 'response'), 'text'), 'std::string'),
            I.load(st, ('f', ('f', loc, 'error'), 'message'), 'std::string'))


class Front(object):
    def __init__(self, L, P, name):
        self.L, self.P = L, P
        self.f = next((f for f in P.fns.values() if f.q == 'witness::' + name), None)
        self.I = new_interp(P, setup)
        self.I.nojoin = True
        self.pos = None
        self.rs = []
        if self.f is None:
            return
        try:
            self.rs = self.I.invoke(self.f.key, None, params(self.f), X.St(), self.f.p)
        except X.Undecided as e:
            L.note('%s: %s' % (name, e))
        L.ran(self.I, self.rs)

    def calls(self, st, q, since=None):
        return [e for e in flat(st.events(since)) if e[0] == 'icall' and e[3] == q]

    def closure(self, st, args):
        for a in reversed(args):
            v = a[2] if isinstance(a, tuple) and a and a[0] == 'ref' else a
            if isinstance(v, tuple) and v and v[0] == 'clo':
                return v
        return None

    def enter(self, clo, ops, st, pos):
        """Run a stored closure later: [(state, events of the run)]."""
        out = []
        self.I.steps = 0
        for s, v in self.I.call_closure(st.copy(), clo, ops, pos):
            out.append((s, list(flat(s.events(st.trace)))))
        return out


def refs_in(I, clo, seen=None):
    """Captures by reference in a closure and in the closures it holds."""
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] == 'clo' and len(x) >= 4:
                for c in x[3]:
                    if len(c) >= 3 and c[1] == 'ref':
                        out.append(c[2])
            for y in x:
                walk(y)
    walk(clo)
    return out


def arg_loc(I, a):
    """Location an event argument refers to."""
    if isinstance(a, tuple) and a and a[0] == 'ref':
        return a[1]
    if T.is_ptr(a):
        return a[1]
    return None


def C32(L):
    L.rule('type', 'a typed handler is registered once, under the description of its own request, event or response type')
    L.rule('argument', 'the handler is called once, with the decoded object')
    L.rule('answer', 'a returned response, error or response-or-error is answered exactly once')
    L.rule('outcome', 'the answer is an error exactly when the handler returned one, and carries what it returned')
    L.rule('response-type', 'the answer names the response type of the request')
    L.rule('lifetime', 'what is called later captures nothing by reference')
    L.rule('sent', 'a response-sent handler is called once with the outcome it is given')
    L.rule('send', 'send passes the request or event and its own type descriptions on')
    L.rule('reject', 'handlers whose signature does not fit are rejected at compile time, fitting ones accepted')
    S = ir.extract(ir.src('session.cpp'))
    pos = next((r['p'] for k, r in S.recs.items() if k == 'dap::Session'), None)
    compile_rules(L, pos)
    try:
        P = program()
    except AnalysisError as e:
        L.note('the witness program was not analysed: %s' % str(e)[:200])
        return
    for name in ('onResponse', 'onError', 'onEither', 'onLater', 'onEitherLater'):
        request_form(L, P, name, pos)
    event_form(L, P, pos)
    sent_form(L, P, pos)
    F = Front(L, P, 'sendEvent')
    for st, _ in F.rs:
        cs = F.calls(st, 'dap::Session::send')
        L.ob('send', 'event', len(cs) == 1 and cs[0][5][0] == EV and arg_loc(F.I, cs[0][5][1]) == ('o', 'e'), cs[0][1] if cs else pos,
             'the event is not sent exactly once under its own type')
    F = Front(L, P, 'sendRequest')
    for st, _ in F.rs:
        cs = F.calls(st, 'dap::Session::send')
        L.ob('send', 'request', len(cs) == 1 and cs[0][5][0] == REQ and cs[0][5][1] == RESP and
             arg_loc(F.I, cs[0][5][2]) == ('o', 'r'), cs[0][1] if cs else pos,
             'the request is not sent exactly once under its own type and its response\'s')


def registered(L, F, st, want, name, pos):
    cs = F.calls(st, 'dap::Session::registerHandler')
    if len(cs) != 1:
        L.ob('type', name, False if not st.notes else None, pos, 'registers %d handlers' % len(cs))
        return None, None
    e = cs[0]
    L.ob('type', name, e[5][0] == want, e[1], 'registered under another description')
    clo = F.closure(st, e[5])
    if clo is None:
        L.ob('argument', name, None, e[1], 'the handler passed on is not a known function')
        return None, e
    rf = refs_in(F.I, clo)
    L.ob('lifetime', name, not rf, e[1], 'the handler registered refers to an object of the caller')
    return clo, e


def ucalls(evs, f):
    return [e for e in evs if e[0] == 'ucall' and e[3] == f]


def request_form(L, P, name, pos):
    F = Front(L, P, name)
    I = F.I
    hv = ('v', ('o', 'h'), 0, 'o')
    if not F.rs:
        L.ob('type', name, None, pos, 'not analysed')
    for st, _ in F.rs:
        clo, e = registered(L, F, st, REQ, name, pos)
        if clo is None:
            continue
        ok, bad = ('o', 'onSuccess'), ('o', 'onError')
        okv, badv = I.load(st, ok, 'o'), I.load(st, bad, 'o')
        for s, evs in F.enter(clo, [HANDLE, ('L', ok), ('L', bad)], st, e[1]):
            hs = ucalls(evs, hv)
            und = bool(s.notes)
            if len(hs) != 1:
                L.ob('argument', name, None if und else False, e[1], 'the handler is called %d times' % len(hs))
                continue
            h = hs[0]
            L.ob('argument', name, len(h[4]) > 0 and arg_loc(I, h[4][0]) == HANDLE[1], h[1], 'the handler is not given the decoded request')
            if 'Later' in name:
                cb = None
                for a in h[4][1:]:
                    v = a[2] if isinstance(a, tuple) and a and a[0] == 'ref' else a
                    if isinstance(v, tuple) and v and v[0] == 'clo':
                        cb = v
                L.ob('answer', name + ', before the callback is used', not [x for x in evs if x[0] == 'ucall' and x is not h], e[1],
                     'answers on its own')
                if cb is None:
                    L.ob('answer', name, None, h[1], 'the callback is not a known function')
                    continue
                rf = refs_in(I, cb)
                L.ob('lifetime', name + ' callback', not rf, h[1], 'the callback given to the handler refers to objects that may be gone')
                res = ('o', 'res')
                roe = 'Either' in name
                I.exact[res] = 'dap::ResponseOrError<witness::Resp>' if roe else 'witness::Resp'
                for s2, evs2 in F.enter(cb, [('L', res)], s, h[1]):
                    if roe:
                        val = roe_value(I, s2, res)
                    else:
                        val = (I.load(s2, ('f', res, 'text'), 'std::string'), EMPTY)
                    answered(L, I, s2, evs2, okv, badv, val, name, h[1])
            else:
                i = evs.index(h)
                ret = h[5]
                if name == 'onResponse':
                    val = (('proj', ret, 'text'), EMPTY)
                elif name == 'onError':
                    val = (None, ('proj', ret, 'message'))
                else:
                    val = (('proj', ('proj', ret, 'response'), 'text'), ('proj', ('proj', ret, 'error'), 'message'))
                answered(L, I, s, evs[i + 1:], okv, badv, val, name, h[1])
                L.ob('answer', name + ', before the handler', not ucalls(evs[:i], okv) and not ucalls(evs[:i], badv), e[1],
                     'answers before the handler has run')


def answered(L, I, st, evs, okv, badv, val, name, pos):
    a = [(x, True) for x in ucalls(evs, okv)] + [(x, False) for x in ucalls(evs, badv)]
    und = bool(st.notes)
    if len(a) != 1:
        L.ob('answer', name, None if und else False, pos, 'the request is answered %d times' % len(a))
        return
    L.ob('answer', name, True, pos)
    x, good = a[0]
    L.ob('response-type', name, x[4][0] == RESP if x[4] else False, x[1], 'answered under another description')
    # which outcome it must be
    want = val[1] == EMPTY or None
    if val[1] != EMPTY:
        d = st.facts.decide(T.eq(T.seqlen(val[1]), 0))
        want = d
    if want is None:
        # the path did not look at the error
        L.ob('outcome', name, None if und else False, x[1], 'the outcome does not depend on whether there is an error')
        return
    L.ob('outcome', name, want == good, x[1], 'reported as %s' % ('success although there is an error' if good else 'an error although there is none'))
    if want != good or len(x[4]) < 2:
        return
    seen = x[6][1] if len(x) > 6 and len(x[6]) > 1 else None
    if seen is None:
        L.ob('outcome', name + ' content', None, x[1], 'unknown content')
    elif good and val[0] is not None:
        L.ob('outcome', name + ' content', verdict(st, seen[0], val[0]), x[1], 'answered with another response than the one returned')
    elif not good:
        L.ob('outcome', name + ' content', verdict(st, seen[1], val[1]), x[1], 'answered with another error than the one returned')


def event_form(L, P, pos):
    F = Front(L, P, 'onEvent')
    hv = ('v', ('o', 'h'), 0, 'o')
    if not F.rs:
        L.ob('type', 'onEvent', None, pos, 'not analysed')
    for st, _ in F.rs:
        clo, e = registered(L, F, st, EV, 'onEvent', pos)
        if clo is None:
            continue
        for s, evs in F.enter(clo, [HANDLE], st, e[1]):
            hs = ucalls(evs, hv)
            L.ob('argument', 'onEvent', (len(hs) == 1 and arg_loc(F.I, hs[0][4][0]) == HANDLE[1]) or (None if s.notes else False), e[1],
                 'the handler is called %d times, or not with the decoded event' % len(hs))


def sent_form(L, P, pos):
    F = Front(L, P, 'onSent')
    I = F.I
    hv = ('v', ('o', 'h'), 0, 'o')
    if not F.rs:
        L.ob('type', 'onSent', None, pos, 'not analysed')
    for st, _ in F.rs:
        clo, e = registered(L, F, st, RESP, 'onSent', pos)
        if clo is None:
            continue
        r, er = ('o', 'sentResponse'), ('o', 'sentError')
        I.exact[r], I.exact[er] = 'witness::Resp', 'dap::Error'
        rv = I.load(st.copy(), ('f', r, 'text'), 'std::string')
        ev = I.load(st.copy(), ('f', er, 'message'), 'std::string')
        for what, ops in (('a response', [('ptr', r), 0]), ('an error', [0, ('ptr', er)])):
            for s, evs in F.enter(clo, ops, st, e[1]):
                hs = ucalls(evs, hv)
                und = bool(s.notes)
                if len(hs) != 1 or any(x[0] == 'nullderef' for x in evs):
                    L.ob('sent', what, None if und else False, e[1], 'the handler is called %d times, or a null pointer is used' % len(hs))
                    continue
                a = hs[0][4][0]
                v = a[2] if isinstance(a, tuple) and a[0] == 'ref' else None
                if v is None:
                    L.ob('sent', what, None, e[1], 'unknown argument')
                    continue
                resp = I.project(I.project(v, 'response'), 'text')
                msg = I.project(I.project(v, 'error'), 'message')
                if what == 'a response':
                    L.ob('sent', what, verdict(s, resp, rv), e[1], 'the handler is not given the response')
                    L.ob('sent', what + ', no error', verdict(s, msg, EMPTY), e[1], 'the handler is given an error')
                else:
                    L.ob('sent', what, verdict(s, msg, ev), e[1], 'the handler is not given the error')


HEAD = '''#include "dap/protocol.h"
#include "dap/session.h"
struct NotARequest { int x; };
struct OtherResponse : dap::Response {};
using Rq = dap::InitializeRequest; using Rs = dap::InitializeResponse; using Ev = dap::ThreadEvent;
'''


def compile_rules(L, pos):
    def f(body):
        return 'void f(dap::Session& s) { %s }' % body
    good = [
        ('request handler returning a response', f('s.registerHandler([](const Rq&) { return Rs(); });')),
        ('request handler returning an error', f('s.registerHandler([](const Rq&) { return dap::Error("x"); });')),
        ('request handler returning either', f('s.registerHandler([](const Rq&) -> dap::ResponseOrError<Rs> { return Rs(); });')),
        ('request handler with a callback', f('s.registerHandler([](const Rq&, std::function<void(Rs)> c) { c(Rs()); });')),
        ('request handler with a callback for either',
         f('s.registerHandler([](const Rq&, std::function<void(dap::ResponseOrError<Rs>)> c) { c(Rs()); });')),
        ('event handler', f('s.registerHandler([](const Ev&) {});')),
        ('sent handler', f('s.registerSentHandler([](const dap::ResponseOrError<Rs>&) {});')),
        ('sending a request', f('s.send(Rq());')),
        ('sending an event', f('s.send(Ev());')),
    ]
    bad = [
        ('handler of something that is neither request nor event', f('s.registerHandler([](const NotARequest&) {});')),
        ('handler of a number', f('s.registerHandler([](int) { return Rs(); });')),
        ('handler without parameters', f('s.registerHandler([]() { return Rs(); });')),
        ('request handler returning nothing', f('s.registerHandler([](const Rq&) {});')),
        ('request handler returning another response', f('s.registerHandler([](const Rq&) { return OtherResponse(); });')),
        ('request handler returning either of another response',
         f('s.registerHandler([](const Rq&) -> dap::ResponseOrError<OtherResponse> { return OtherResponse(); });')),
        ('request handler returning text', f('s.registerHandler([](const Rq&) { return 1; });')),
        ('callback of another response', f('s.registerHandler([](const Rq&, std::function<void(OtherResponse)>) {});')),
        ('callback of a number', f('s.registerHandler([](const Rq&, std::function<void(int)>) {});')),
        ('request handler with a second parameter of another type', f('s.registerHandler([](const Rq&, int) {});')),
        ('request handler with three parameters',
         f('s.registerHandler([](const Rq&, std::function<void(Rs)>, int) {});')),
        ('event handler with a second parameter', f('s.registerHandler([](const Ev&, int) {});')),
        ('handler of a response', f('s.registerHandler([](const Rs&) {});')),
        ('sent handler of a response alone', f('s.registerSentHandler([](const Rs&) {});')),
        ('sent handler of a number', f('s.registerSentHandler([](int) {});')),
        ('sending something else', f('s.send(NotARequest());')),
        ('sending a response', f('s.send(Rs());')),
    ]
    witnesses(L, 'reject', HEAD, good, bad, pos)


def send_future(L):
    """C02: the future returned by send is completed exactly once."""
    L.rule('future', 'the future of a request is completed once: by its response, or at once with an error when sending failed')
    P = program()
    F = Front(L, P, 'sendRequest')
    I = F.I
    pos = next((r['p'] for k, r in P.recs.items() if k == 'dap::Session'), None)
    if not F.rs:
        L.ob('future', 'send', None, pos, 'not analysed')
    for st, ret in F.rs:
        cs = F.calls(st, 'dap::Session::send')
        if len(cs) != 1:
            L.ob('future', 'send', None if st.notes else False, pos, 'the request is sent %d times' % len(cs))
            continue
        e = cs[0]
        sent = st.facts.decide(e[6])
        ps = [x for x in flat(st.events()) if x[0] == 'pset']
        clo = F.closure(st, e[5])
        states = set()
        if sent is None:
            L.ob('future', 'not sent', None if st.notes else False, e[1], 'ignores whether the request could be sent')
        elif sent:
            L.ob('future', 'sent', not ps, ps[0][1] if ps else e[1], 'completed although the response is still to come')
        else:
            ok = len(ps) == 1
            L.ob('future', 'not sent', ok or (None if st.notes else False), e[1], 'completed %d times when sending failed' % len(ps))
            if ok:
                m = ps[0][4][1]
                L.ob('future', 'not sent: error', False if m == EMPTY or (isinstance(m, tuple) and m[:3] == ('app', 'fmt', b'')) else True, ps[0][1], 'completed without an error message')
                states.add(ps[0][3])
        fut = ret[2] if isinstance(ret, tuple) and ret and ret[0] == 'rec' else ()
        shared = {v for n, v in fut if T.is_ptr(v)} if fut else set()
        if clo is None:
            L.ob('future', 'response', None, e[1], 'the response handler is not a known function')
            continue
        L.ob('future', 'lifetime', not refs_in(I, clo), e[1], 'the response handler refers to a local variable of send')
        if sent is not True:
            if states and shared:
                L.ob('future', 'same future', states <= shared, e[1], 'completes another future than the one returned')
            continue
        r, er = ('o', 'gotResponse'), ('o', 'gotError')
        I.exact[r], I.exact[er] = 'witness::Resp', 'dap::Error'
        rv = I.load(st.copy(), ('f', r, 'text'), 'std::string')
        ev = I.load(st.copy(), ('f', er, 'message'), 'std::string')
        for what, ops in (('response', [('ptr', r), 0]), ('error', [0, ('ptr', er)])):
            for s, evs in F.enter(clo, ops, st, e[1]):
                ps = [x for x in evs if x[0] == 'pset']
                und = bool(s.notes)
                if len(ps) != 1 or any(x[0] == 'nullderef' for x in evs):
                    L.ob('future', what, None if und else False, e[1], 'completed %d times by the %s, or a null pointer is used' % (len(ps), what))
                    continue
                v = verdict(s, ps[0][4][0 if what == 'response' else 1], rv if what == 'response' else ev)
                L.ob('future', what, v, ps[0][1], 'completed with something other than the ' + what)
                if what == 'response':
                    L.ob('future', 'response: no error', verdict(s, ps[0][4][1], EMPTY), ps[0][1], 'completed with an error')
                if shared and ps[0][3] is not None:
                    L.ob('future', 'same future', ps[0][3] in shared, ps[0][1], 'completes another future than the one returned')
