"""Contracts of the call side: recorded bodies, action sequences, actions."""
import z3, ir
from engine import *
from spec import Spec, Group, off
from stdmodels import VContract, PContract, Contract, getset
import stdmodels
from verify import q, setarg, heap_unchanged
I = z3.IntSort(); B = z3.BoolSort(); MAXN = 1 << 28
M = z3.Function('M', I, I, B)                    # M(matcher, call): the matcher accepts the call
NOMORE = '_ZTIN6fakeit29NoMoreRecordedActionExceptionE'
UNEXP = '_ZTIN6fakeit29UnexpectedMethodCallExceptionE'
def ti(E, id):
    g = E.m.glob('ti_' + id)
    if g is None or g[1] is None: raise Unsupported('type information ' + id)
    return g[1][1]

class Lay:
    """where the parts of one instantiation are"""
    def __init__(s, E, p):
        for f in ('handlers', 'history', 'fakeit', 'method', 'matcher', 'action', 'recorded', 'used', 'args', 'accepted'):
            try: setattr(s, f, off(E, p + '_' + f))
            except Exception: setattr(s, f, None)

# ---- interface contracts
def v_matches(E, st, name, a, inst): return M(E.enc(a[0]), E.enc(a[1]))
def world(E, st):
    """what a user's action may change: stubbings and histories of the same mock, any other object"""
    for k in list(st.heap): st.heap[k] = z3.Array('H!%d' % fresh_id(), I, I)
    for p, nm in E.shared:
        v = E.getvec(st, p); E.setvec(st, p, Vec(E.int(nm + '.n', lo=0, hi=MAXN), {c: E.arr(nm) for c in v.comps}, v.esize))
    for f in E.rely: f(st)
def anything(E, name, ret, extra=()):
    """the callee returns, throws an exception of its own, or one of the given types"""
    out = [Alt([], None, ret=ret), Alt([], None, throw=lambda: Exc(None, E.ref('exc')))]
    return out + [Alt([], None, throw=lambda t=t: Exc(t, E.ref('exc'))) for t in extra]
def act(kind, extra=()):
    def f(E, st, name, a, inst):
        res = None if inst.ty == ir.VOID else E.fresh(inst.ty, 'result')
        def note(s2, how, ex=None):
            old = snap(E, s2); world(E, s2)
            s2.ghost[kind] = s2.ghost.get(kind, ()) + ((E.enc(a[0]), a[1:], old, how, res, ex, snap(E, s2)),)
        alts = [Alt([], lambda s2: note(s2, 'ret'), ret=res)]
        for t in (None,) + tuple(extra):
            ex = Exc(t, E.ref('exc'))
            alts.append(Alt([z3.Not(E.excisa(ex, NOMORE))] if t is None else [], lambda s2, ex=ex, t=t: note(s2, t or 'exc', ex), throw=ex))
        return Alts(alts)
    return f
def snap(E, st): return st.copy()
def v_event(E, st, name, a, inst):
    def note(s2, how, ex=None): s2.ghost['events'] = s2.ghost.get('events', ()) + ((E.enc(a[0]), E.load(s2, Ptr(a[1].base, add(a[1].off, off(E, 'ev_type'))), ir.I32), E.load(s2, Ptr(a[1].base, add(a[1].off, off(E, 'ev_inv'))), ir.PTR), how, ex),)
    ex = Exc(None, E.ref('exc'))
    return Alts([Alt([], lambda s2: note(s2, 'ret')), Alt([], lambda s2: note(s2, 'exc', ex), throw=ex)])
def v_format(E, st, name, a, inst):
    stdmodels.putstr(E, st, a[0], E.int('text')); st.ghost['formatted'] = st.ghost.get('formatted', 0) + 1
def v_done(E, st, name, a, inst): return z3.Select(st.ghost['done'], E.enc(a[0]))
def v_stub(E, st, name, a, inst):
    """the stored elements are MatchedInvocationHandlers (invariant): their code is walked"""
    r = [n for n, d in E.dem.items() if n in E.m.funcs and d.startswith('fakeit::RecordedMethodBody<%s>::MatchedInvocationHandler::handleMethodInvocation(' % SIG[E.sig])]
    if len(r) != 1: raise Unsupported('MatchedInvocationHandler::handleMethodInvocation')
    return Walk(r[0], a)
NOTHING = lambda E, st, name, a, inst: None
VIRT = [VContract(r'MatchedInvocationHandler::handleMethodInvocation\(', v_stub, 'the handlers stored in a recorded body are MatchedInvocationHandlers (data structure invariant, established by addMethodInvocationHandler)'),
        VContract(r'Matcher::matches\(', v_matches, 'ActualInvocation::Matcher::matches is a function of (matcher, call) (interface contract)'),
        VContract(r'ActualInvocationHandler<.*>::handleMethodInvocation\(', act('acted', (NOMORE,)), 'ActualInvocationHandler::handleMethodInvocation runs user code: may return, throw, and change every stubbing, history and object (interface contract)'),
        VContract(r'Action<.*>::invoke\(', act('acted', (NOMORE,)), 'Action::invoke runs user code: may return, throw and re-enter the mock (interface contract)'),
        VContract(r'Action<.*>::isDone\(', v_done, 'Action::isDone reads the state of the action (interface contract)'),
        VContract(r'FakeitContext::handle\(|EventHandler::handle\(', v_event, 'EventHandler::handle is user code: may return or throw (interface contract; FakeitContext::handle is verified in group events2)'),
        VContract(r'FakeitContext::format\(|EventFormatter::format\(', v_format, 'EventFormatter::format returns a text (interface contract)'),
        VContract(r'::~|Destructible::~', NOTHING, 'destructors')]

def shared(E, st, base, o, name, lo=0):
    p = Ptr(base, o); v = E.vec(st, p, 16, name=name, hi=MAXN)
    if lo: E.fact(toz(v.n) >= lo)
    E.shared.append((p, name)); return p, v
def nonnull(E, v):
    (x,) = q('x'); a = v.comps[0]
    E.fact(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(v.n)), z3.And(z3.Select(a, x) > 0, z3.Select(a, x) < BASE0)), patterns=[z3.Select(a, x)]))

# ---- RecordedMethodBody
class Body: pass
def body(E, st, p):
    """an arbitrary recorded body that satisfies the data structure invariant"""
    b = Body(); b.l = Lay(E, p); b.p = p; E.sig = p; E.shared = []; E.rely = []
    b.reg = E.region('body', None, sym=True); b.this = Ptr(b.reg, 0)
    b.ph, b.h = shared(E, st, b.reg, b.l.handlers, 'handlers'); b.pi, b.i = shared(E, st, b.reg, b.l.history, 'history')
    nonnull(E, b.h); nonnull(E, b.i)
    b.ctx = E.ref('context'); st.setcell(b.reg, b.l.fakeit, 8, ir.PTR, b.ctx)
    b.mih = ti(E, p + '_mih')
    b.mt = ti(E, p + '_m')
    b.ht = ti(E, p + '_h')
    b.it = ti(E, p + '_i')
    isa, view = stdmodels.isa_fn, stdmodels.view_fn
    b.H0 = E.hmap(st, ('class.std::__shared_ptr', 0))
    # the invariant: every stored element is a MatchedInvocationHandler that owns a matcher and a handler
    (x,) = q('x'); e = z3.Select(b.h.comps[0], x)
    def own(o, t):
        y = z3.Select(b.H0, e + o); v = view(t)(y)
        return z3.And(y > 0, y < BASE0, isa(t)(y), v > 0, v < BASE0)
    E.fact(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(b.h.n)), z3.And(isa(b.mih)(e), view(b.mih)(e) == e, own(b.l.matcher, b.mt), own(b.l.action, b.ht))), patterns=[e]))
    (x,) = q('x'); c = z3.Select(b.i.comps[0], x)
    E.fact(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(b.i.n)), z3.And(isa(b.it)(c), view(b.it)(c) == c)), patterns=[c]))
    b.matcher = lambda x: view(b.mt)(z3.Select(b.H0, z3.Select(b.h.comps[0], x) + b.l.matcher))
    b.handler = lambda x: view(b.ht)(z3.Select(b.H0, z3.Select(b.h.comps[0], x) + b.l.action))
    return b
SIG = {'ii': 'int, int', 'v': 'void', 'li': 'long, int, long, int'}; ARGS = {'ii': 'int', 'v': '', 'li': 'int, long, int'}
ARGW = {'ii': [32], 'v': [], 'li': [32, 64, 32]}
def samevec(w, v):
    (x,) = q('x')
    return z3.And(toz(w.n) == toz(v.n), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(v.n)), z3.Select(w.comps[0], x) == z3.Select(v.comps[0], x))))
def pushed(E, w, v, e):
    (x,) = q('x')
    return z3.And(toz(w.n) == toz(v.n) + 1, z3.Select(w.comps[0], toz(v.n)) == E.enc(e), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(v.n)), z3.Select(w.comps[0], x) == z3.Select(v.comps[0], x))))
def tuple_args(E, st, p, ws):
    """the values in a std::tuple of integers (libstdc++ stores them in reverse order)"""
    out = {}; o = 0
    for i in reversed(range(len(ws))):
        z = ws[i] // 8; o = (o + z - 1) // z * z; out[i] = E.load(st, Ptr(p.base, add(p.off, o)), ('int', ws[i])); o += z
    return [out[i] for i in range(len(ws))]
def run_call(p):
    def run(E, fn):
        st = State(); b = body(E, st, p); E.ctx = b; args = [E.int('arg%d' % i, w) for i, w in enumerate(ARGW[p])]
        b.call = None; h = b.h; n = toz(h.n)
        E.ords = 0
        def end(st2, out):
            acted = st2.ghost.get('acted', ()); ev = st2.ghost.get('events', ())
            ok = lambda nm, f: E.prove(nm, f)
            ok('at most one action runs', z3.BoolVal(len(acted) <= 1)); ok('at most one event', z3.BoolVal(len(ev) <= 1))
            (x,) = q('x')
            if acted:
                who, (targs,), s1, how, res, ex, _ = acted[0]
                w = E.getvec(s1, b.pi); inv = E.dec(z3.Select(w.comps[0], toz(b.i.n))) if isz(w.comps[0]) else None
                inv = newest(E, s1, b, targs); io = E.enc(inv)
                k = z3.Int('stub!%d' % fresh_id())
                ok('the action of the last stubbing whose matcher accepts the call runs', z3.Exists([k], z3.And(k >= 0, k < n, who == b.handler(k), M(b.matcher(k), io), z3.ForAll([x], z3.Implies(z3.And(x > k, x < n), z3.Not(M(b.matcher(x), io)))))))
                ok('the call is recorded, once and last, before its action runs', pushed(E, w, b.i, inv))
                for i, (g, v) in enumerate(zip(tuple_args(E, s1, targs, ARGW[p]), args)): ok('the action gets argument %d of the call' % (i + 1), toz(g) == toz(v))
                facts_of(E, ok, s1, b, inv)
                ok('no stubbing is added or removed', samevec(E.getvec(s1, b.ph), h))
                if how == 'ret':
                    ok('the call returns what the action returned', z3.BoolVal(out[0] == 'ret' and (res is None or out[1] is res)) if out[0] != 'ret' or res is None or out[1] is res else toz(out[1]) == toz(res)); ok('no event is raised', z3.BoolVal(not ev)); return
                if how == 'exc':
                    ok('the call throws what the action threw', z3.BoolVal(out[0] == 'throw' and out[1] is ex)); ok('no event is raised', z3.BoolVal(not ev)); return
            else:
                # nothing ran: no stubbing accepts the call
                ok('a call that no stubbing answers raises one event', z3.BoolVal(len(ev) == 1))
                if not ev: return
                inv = ev[0][2]; io = E.enc(inv)
                ok('no action runs only when no stubbing accepts the call', z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), z3.Not(M(b.matcher(x), io)))))
                ok('a call that is not answered is not recorded', samevec(E.getvec(st2, b.pi), b.i)); ok('no stubbing is added or removed', samevec(E.getvec(st2, b.ph), h))
            # unexpected call
            ok('an unexpected call raises one event', z3.BoolVal(len(ev) == 1))
            if not ev: return
            ctx, ty, einv, how, ex = ev[0]
            ok('the event goes to the context of the mock', ctx == b.ctx.off); ok('the event says the call was not matched', toz(ty) == 1); ok('the event carries the call', E.enc(einv) == io)
            for i, (g, v) in enumerate(zip(tuple_args(E, st2, Ptr(einv.base, add(einv.off, b.l.args)), ARGW[p]), args)): ok('the event shows argument %d of the call' % (i + 1), toz(g) == toz(v))
            facts_of(E, ok, st2, b, einv, False)
            if how == 'exc': ok('what the event handler throws leaves the call', z3.BoolVal(out[0] == 'throw' and out[1] is ex))
            else: ok('otherwise the call throws UnexpectedMethodCallException', z3.BoolVal(out[0] == 'throw' and out[1].ti == UNEXP))
        E.verify(fn, st.copy(), [b.this] + args, end)
    return run
def newest(E, s1, b, targs): return Ptr(targs.base, sub(targs.off, b.l.args))
def facts_of(E, ok, st, b, inv, hit=True):
    ld = lambda o, t: E.load(st, Ptr(inv.base, add(inv.off, o)), t)
    ok('the recorded call belongs to its method', z3.And(E.enc(ld(off(E, 'inv_method'), ir.PTR)) == E.enc(Ptr(b.reg, b.l.method))))
    os = st.ghost.get('ordinals', ())
    if os: ok('a call takes one position in the call order', z3.BoolVal(len(os) == 1)); ok('the recorded call has that position', toz(ld(off(E, 'inv_ordinal'), ir.I32)) == os[0])
    ok('a new call is not verified', z3.Not(b2z(E.tobool(ld(off(E, 'inv_verified'), ir.I8)))))
def call_hints(E, st0):
    b = E.ctx; n = toz(b.h.n)
    news = [r for r in st0.mem if Reg.table[r].name == 'new']
    def none(st, k):
        (x,) = q('x'); inv = E.enc(Ptr(Reg.table[min(news)], 0))
        return z3.ForAll([x], z3.Implies(z3.And(x >= n - k, x < n), z3.Not(M(b.matcher(x), inv))), patterns=[z3.Select(b.h.comps[0], x)])
    return {'invs': [('the last k stubbings do not accept the call', none), ('k within the stubbings', lambda st, k: k <= n)]}


def run_added(p, acts):
    def run(E, fn):
        st = State(); b = body(E, st, p); m, h = E.ref('matcher'), E.ref('handler')
        # an object converts to its own class
        E.fact(z3.And(stdmodels.isa_fn(b.ht)(h.off), stdmodels.view_fn(b.ht)(h.off) == h.off))
        t = E.region('args', None, sym=True)
        def end(st2, out):
            ac = st2.ghost.get('acted', ())
            if acts:
                E.prove('the stored handler runs, once', z3.BoolVal(len(ac) == 1))
                if not ac: return
                E.prove('the stored handler is the given one', ac[0][0] == h.off); E.prove('it gets the arguments', z3.BoolVal(ac[0][1][0].base is t and ac[0][1][0].off == 0)); s1 = ac[0][2]
            else:
                if out[0] != 'ret': return E.prove('adding a stubbing does not throw', False)
                E.prove('the stored matcher is the given one', E.tobool(out[1]) if not isz(out[1]) or not z3.is_bool(out[1]) else out[1]); E.prove('no action runs', z3.BoolVal(not ac)); s1 = st2
            w = E.getvec(s1, b.ph); n = toz(b.h.n); (x,) = q('x')
            E.prove('a new stubbing comes last', toz(w.n) == n + 1)
            E.prove('the earlier stubbings are kept in order', z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), z3.Select(w.comps[0], x) == z3.Select(b.h.comps[0], x))))
            E.prove('the history is kept', samevec(E.getvec(s1, b.pi), b.i))
        E.verify(fn, st.copy(), [b.this, m, h] + ([Ptr(t, 0)] if acts else []), end)
    return run
def run_clear(handlers):
    def run(E, fn):
        st = State(); b = body(E, st, 'ii')
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            E.prove('the history is empty', toz(E.getvec(st2, b.pi).n) == 0)
            if handlers: E.prove('there is no stubbing', toz(E.getvec(st2, b.ph).n) == 0)
            else: E.prove('the stubbings are kept', samevec(E.getvec(st2, b.ph), b.h))
        E.verify(fn, st.copy(), [b.this], end)
    return run
def run_history(E, fn):
    st = State(); b = body(E, st, 'ii'); ps, s0 = setarg(E, st, 'into'); E.ctx = (b, ps, s0)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        x, t = q('x', 't'); w = getset(E, st2, ps).mem
        E.prove('exactly the recorded calls are added', z3.ForAll([x], z3.Select(w, x) == z3.Or(z3.Select(s0.mem, x), z3.Exists([t], z3.And(t >= 0, t < toz(b.i.n), z3.Select(b.i.comps[0], t) == x)))))
        E.prove('the history is kept', samevec(E.getvec(st2, b.pi), b.i)); E.prove('the stubbings are kept', samevec(E.getvec(st2, b.ph), b.h))
    E.verify(fn, st.copy(), [b.this, ps], end)
def history_hints(E, st0):
    b, ps, s0 = E.ctx
    def sofar(st, k):
        x, t = q('x', 't'); w = getset(E, st, ps).mem; a = b.i.comps[0]
        return z3.And(z3.ForAll([x], z3.Implies(z3.Select(w, x), z3.Or(z3.Select(s0.mem, x), z3.Exists([t], z3.And(t >= 0, t < k, z3.Select(a, t) == x)))), patterns=[z3.Select(w, x)] if not z3.is_store(w) else []),
                      z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < k), z3.Select(w, z3.Select(a, t))), patterns=[z3.Select(a, t)]),
                      z3.ForAll([x], z3.Implies(z3.Select(s0.mem, x), z3.Select(w, x)), patterns=[z3.Select(s0.mem, x)]))
    return {'invs': [('the first k calls were added', sofar), ('k within the history', lambda st, k: k <= toz(b.i.n))]}
def logged(E, st, x):
    st.ghost['log'] = z3.Store(st.ghost['log'], toz(st.ghost['logn']), toz(x)); st.ghost['logn'] = add(st.ghost['logn'], 1)
def newlog(E, st): st.ghost['log'] = E.arr('log'); st.ghost['logn'] = z3.IntVal(0)
def log_hints(E, st0):
    v = E.ctx
    def sofar(st, k):
        (x,) = q('x'); g = st.ghost['log']
        return z3.And(toz(st.ghost['logn']) == k, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < k), z3.Select(g, x) == z3.Select(v.comps[0], x)), patterns=[z3.Select(v.comps[0], x)]))
    return {'invs': [('the first k were called, in order', sofar), ('k within the list', lambda st, k: k <= toz(v.n))]}
def prefix(E, st2, v, n):
    (x,) = q('x')
    return z3.And(toz(st2.ghost['logn']) >= n, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), z3.Select(st2.ghost['log'], x) == z3.Select(v.comps[0], x))))
def run_scan(E, fn):
    st = State(); b = body(E, st, 'ii'); newlog(E, st); E.ctx = b.i
    f = E.region('scanner', 32, sym=True); mgr = E.ref('manager'); st.setcell(f, 16, 8, ir.PTR, mgr); E.fnlog = True
    def end(st2, out):
        n = toz(b.i.n)
        if out[0] == 'ret': E.prove('the scanner sees every recorded call, each once', toz(st2.ghost['logn']) == n)
        else: n = toz(st2.ghost['logn']); E.prove('only what the scanner threw leaves', z3.And(z3.BoolVal(out[1] is st2.ghost.get('thrown')), n <= toz(b.i.n)))
        E.prove('the scanner sees the calls in the order they were recorded', prefix(E, st2, b.i, n))
        E.prove('the history is kept', samevec(E.getvec(st2, b.pi), b.i))
    E.verify(fn, st.copy(), [b.this, Ptr(f, 0)], end)
def run_of(E, fn):
    st = State(); b = body(E, st, 'ii'); m = E.ref('method')
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        i = off(E, 'mi_id')
        other = E.load(st2, Ptr(None, add(m.off, i), key('MethodInfo', E)), ir.I32); own = E.load(st2, Ptr(b.reg, b.l.method + i), ir.I32)
        E.prove('a body is of a method exactly when the ids are equal', b2z(out[1]) == (toz(other) == toz(own)))
    E.verify(fn, st.copy(), [b.this, m], end)
def key(cls, E):
    """heap map of MethodInfo::_id, found from its accessor"""
    for n, d in E.dem.items():
        if d == 'fakeit::MethodInfo::id() const' and n in E.m.funcs:
            for bl in E.m.func(n).blocks.values():
                for i in bl:
                    if i.op == 'gep': return (i.ty[1], i.a['idx'][1][1][1])
    raise Unsupported('MethodInfo::id')

# ---- ActionSequence
def fn_act(E, st, name, a, inst):
    """a call of the function held by a std::function: user code"""
    if getattr(E, 'fnlog', False):
        ex = Exc(None, E.ref('exc'))
        def bad(s2): s2.ghost['thrown'] = ex
        x = E.enc(a[1])
        logged(E, st, x)
        return Alts([Alt([]), Alt([], bad, throw=ex)])
    return act('called')(E, st, name, a, inst)
def sequence(E, st, p):
    b = Body(); b.l = Lay(E, p); b.p = p; E.sig = p; E.shared = []; E.rely = []
    b.reg = E.region('sequence', None, sym=True); b.this = Ptr(b.reg, 0)
    b.pr, b.r = shared(E, st, b.reg, b.l.recorded, 'recorded'); b.pu, b.u = shared(E, st, b.reg, b.l.used, 'used')
    b.at = ti(E, p + '_a'); b.last = E.ref('no_more')
    st.ghost['done'] = z3.Array('done!%d' % fresh_id(), I, B)
    def inv(s2):
        v = E.getvec(s2, b.pr); n = toz(v.n); (x,) = q('x'); e = z3.Select(v.comps[0], x); d = s2.ghost['done']
        E.fact(z3.And(n >= 1, z3.Select(v.comps[0], n - 1) == b.last.off, z3.Not(z3.Select(d, b.last.off))))
        E.fact(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), z3.And(e > 0, e < BASE0, stdmodels.isa_fn(b.at)(e), stdmodels.view_fn(b.at)(e) == e)), patterns=[e]))
    def rely(s2):
        s2.ghost['done'] = z3.Array('done!%d' % fresh_id(), I, B); inv(s2)
    inv(st); E.rely.append(rely)
    return b
def run_seq(p):
    def run(E, fn):
        st = State(); b = sequence(E, st, p); E.ctx = (b, st.ghost['done']); d0 = st.ghost['done']; t = E.region('args', None, sym=True); n = toz(b.r.n)
        def end(st2, out):
            ac = st2.ghost.get('acted', ()); ok = E.prove; (x,) = q('x'); A = b.r.comps[0]
            ok('exactly one action runs', z3.BoolVal(len(ac) == 1))
            if not ac: return
            who, (ta,), s1, how, res, ex, s2 = ac[0]
            w = E.getvec(s1, b.pr); g = n - toz(w.n); (f,) = q('first'); D = lambda d, i: z3.Select(d, i)
            ok('the first action that is not done runs', z3.Exists([f], z3.And(f >= g, f < n, who == z3.Select(A, f), z3.Not(D(d0, z3.Select(A, f))), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < f), D(d0, z3.Select(A, x)))))))
            # the recorded list stands for its actions that are not done: done actions may be dropped from its front at any time
            ok('no action is lost before it runs', z3.And(g >= 0, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n - g), z3.Select(w.comps[0], x) == z3.Select(A, x + g)))))
            ok('it gets the arguments of the call', z3.BoolVal(ta.base is t and isint(ta.off) and ta.off == 0))
            a1 = E.getvec(s2, b.pr); a2 = E.getvec(st2, b.pr); g2 = toz(a1.n) - toz(a2.n); d2 = s2.ghost['done']
            ok('afterwards only done actions are dropped', z3.And(g2 >= 0, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < g2), D(d2, z3.Select(a1.comps[0], x))))))
            ok('afterwards the other actions stay recorded, in order', z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(a2.n)), z3.Select(a2.comps[0], x) == z3.Select(a1.comps[0], x + g2))))
            ok('the closing action stays last', z3.And(toz(a2.n) >= 1, z3.Select(a2.comps[0], toz(a2.n) - 1) == b.last.off))
            if how == 'ret': ok('the result of the action is returned', z3.BoolVal(out[0] == 'ret') if res is None or out[0] != 'ret' else toz(out[1]) == toz(res))
            else: ok('what the action threw leaves', z3.BoolVal(out[0] == 'throw' and out[1] is ex))
        E.verify(fn, st.copy(), [b.this, Ptr(t, 0)], end)
    return run
def seq_hints(E, st0):
    b, d0 = E.ctx; n = toz(b.r.n); A = b.r.comps[0]
    def shifted(st, k):
        w = E.getvec(st, b.pr); (x,) = q('x')
        return z3.And(toz(w.n) == n - k, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n - k), z3.Select(w.comps[0], x) == z3.Select(A, x + k)), patterns=[z3.Select(w.comps[0], x)]))
    def alldone(st, k):
        (x,) = q('x'); return z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < k), z3.Select(d0, z3.Select(A, x))), patterns=[z3.Select(A, x)])
    return {'invs': [('k actions were dropped', shifted), ('the dropped actions are done', alldone), ('k within the actions', lambda st, k: k < n)], 'facts': [lambda st, k: [z3.Select(A, k) == z3.Select(A, k)]]}
def run_seqadd(p):
    def run(E, fn):
        st = State(); b = sequence(E, st, p); a = E.ref('action'); n = toz(b.r.n)
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            w = E.getvec(st2, b.pr); (x,) = q('x'); A = b.r.comps[0]
            E.prove('a new action comes after the recorded ones and before the closing one', z3.And(toz(w.n) == n + 1, z3.Select(w.comps[0], n - 1) == a.off, z3.Select(w.comps[0], n) == b.last.off))
            E.prove('the recorded actions are kept in order', z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n - 1), z3.Select(w.comps[0], x) == z3.Select(A, x))))
        E.verify(fn, st.copy(), [b.this, a], end)
    return run

# ---- actions
def afn(E, st, r, o):
    st.setcell(r, o + 16, 8, ir.PTR, E.ref('manager')); inv = E.ref('invoker'); st.setcell(r, o + 24, 8, ir.PTR, inv); return inv
def run_invoke(times, fo, ws):
    def run(E, fn):
        st = State(); E.shared = []; E.rely = []; r = E.region('action', None, sym=True); t = E.region('args', None, sym=True); afn(E, st, r, off(E, fo))
        vals = [E.int('arg%d' % i, w) for i, w in enumerate(ws)]; o = 0; pos = {}
        for i in reversed(range(len(ws))):
            z = ws[i] // 8; o = (o + z - 1) // z * z; st.setcell(t, o, z, ('int', ws[i]), vals[i]); pos[i] = o; o += z
        if times:
            n = E.int('times', 64); E.fact(n > 0); to = off(E, times); st.setcell(r, to, 8, ir.I64, n)
            def havoc(s2): s2.setcell(r, to, 8, ir.I64, E.int('times', 64))
            E.rely.append(havoc)
        def end(st2, out):
            ac = st2.ghost.get('called', ()); ok = E.prove
            ok('the function runs exactly once', z3.BoolVal(len(ac) == 1))
            if not ac: return
            who, args, s1, how, res, ex, s2 = ac[0]
            ok('it is the function of the action', who == E.enc(Ptr(r, off(E, fo))))
            ok('it gets all arguments of the call, in order', z3.BoolVal(len(args) == len(ws) and all(isinstance(g, Ptr) and g.base is t and g.off == pos[i] for i, g in enumerate(args))))
            if times:
                ok('one repetition is used up before the function runs', toz(E.load(s1, Ptr(r, to), ir.I64)) == n - 1)
                ok('the repetitions left are not touched afterwards', toz(E.load(st2, Ptr(r, to), ir.I64)) == toz(E.load(s2, Ptr(r, to), ir.I64)))
            if how == 'ret': ok('its result is returned', toz(out[1]) == toz(res) if out[0] == 'ret' else False)
            else: ok('what it threw leaves', z3.BoolVal(out[0] == 'throw' and out[1] is ex))
        E.verify(fn, st.copy(), [Ptr(r, 0), Ptr(t, 0)], end)
    return run
def run_done(times):
    def run(E, fn):
        st = State(); r = E.region('action', None, sym=True); n = E.int('times', 64); c0 = None
        if times: st.setcell(r, off(E, times), 8, ir.I64, n)
        before = dict(st.cells(r))
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            E.prove('done exactly when no repetition is left' if times else 'never done', b2z(out[1]) == (n == 0) if times else z3.Not(b2z(E.tobool(out[1]) if not isinstance(out[1], bool) and not (isz(out[1]) and z3.is_bool(out[1])) else out[1])))
            if times: E.prove('the repetitions left are not touched', toz(E.load(st2, Ptr(r, off(E, times)), ir.I64)) == n)
        E.verify(fn, st.copy(), [Ptr(r, 0)], end)
    return run
def run_new(one):
    def run(E, fn):
        st = State(); f = E.region('function', 32, sym=True); n = E.int('n', 64)
        st.setcell(f, 16, 8, ir.PTR, NULL)          # an empty function: copying it runs no user code
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            E.prove('the action starts with %s repetitions' % ('one' if one else 'the given number of'), b2z(E.tobool(out[1])) if not isinstance(out[1], bool) and not (isz(out[1]) and z3.is_bool(out[1])) else b2z(out[1]))
        E.verify(fn, st.copy(), ([] if one else [n]) + [Ptr(f, 0)], end)
    return run
def run_nomore(E, fn):
    st = State(); r = E.region('action', None, sym=True); t = E.region('args', None, sym=True)
    def end(st2, out): E.prove('the closing action throws NoMoreRecordedActionException', z3.BoolVal(out[0] == 'throw' and out[1].ti == NOMORE))
    E.verify(fn, st.copy(), [Ptr(r, 0), Ptr(t, 0)], end)

# ---- the call order under concurrency
def run_ordinal(E, fn):
    """other threads may change the counter between any two steps of this one"""
    st = State(); st.ghost['writes'] = ()
    def hook(s2, inst, p, after):
        if not (isinstance(p, Ptr) and p.base is not None and p.base.kind == 'glob' and p.base.sym) or inst.ty[0] != 'int': return
        if inst.op == 'cmpxchg': raise Unsupported('cmpxchg')
        if inst.op in ('load', 'store') and not inst.a.get('at'): E.prove('the counter shared by all threads is only accessed atomically', False); raise PathEnd()
        if not after:
            c = E.int('counter', inst.ty[1]); s2.setcell(p.base, p.off, inst.ty[1] // 8, inst.ty, c); s2.ghost['cur'] = c
        else: s2.ghost['writes'] = s2.ghost['writes'] + ((p.base.id, p.off, s2.ghost['cur'], E.load(s2, p, inst.ty), inst.ty[1]),)
    E.shared_hook = hook
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        w = st2.ghost['writes']
        E.prove('a call changes the shared counter in exactly one step', z3.BoolVal(len(w) == 1))
        if len(w) != 1: return
        _, _, cur, new, bits = w[0]
        E.prove('that step adds one', z3.And(z3.BoolVal(bits >= 32), toz(new) == toz(E.wrap(add(cur, 1), bits)))); E.prove('the position of the call is the value this step stored', toz(out[1]) == toz(new))
    E.verify(fn, st, [], end)
def c_ordinal(E, st, name, a, inst):
    r = E.int('ordinal', 32); st.ghost['ordinals'] = st.ghost.get('ordinals', ()) + (r,); return r

# ---- events
def v_listen(E, st, name, a, inst):
    if 'log' not in st.ghost: return v_event(E, st, name, a, inst)
    ex = Exc(None, E.ref('exc')); st.ghost['ok'] = z3.And(st.ghost['ok'], E.enc(a[1]) == E.event.off); logged(E, st, E.enc(a[0]))
    def bad(s2): s2.ghost['thrown'] = ex
    return Alts([Alt([]), Alt([], bad, throw=ex)])
ADAPTER = z3.Int('ADAPTER')
def v_adapter(E, st, name, a, inst): E.fact(z3.And(ADAPTER > 0, ADAPTER < BASE0)); return Ptr(None, ADAPTER)
def run_event(E, fn):
    st = State(); r = E.region('context', None, sym=True); p = Ptr(r, off(E, 'fc_listeners')); v = E.vec(st, p, 8, name='listeners', hi=MAXN); nonnull(E, v)
    newlog(E, st); st.ghost['ok'] = z3.BoolVal(True); E.ctx = v; E.event = E.ref('event'); n = toz(v.n)
    def end(st2, out):
        k = toz(st2.ghost['logn']); ok = E.prove
        ok('everyone gets the event itself', st2.ghost['ok'])
        if out[0] == 'ret': ok('every listener and then the testing framework adapter is called, each once', z3.And(k == n + 1, z3.Select(st2.ghost['log'], n) == ADAPTER)); k = n
        else:
            ok('only what a handler threw leaves', z3.BoolVal(out[1] is st2.ghost.get('thrown'))); ok('nobody is called after the one that threw', z3.And(k >= 1, k <= n + 1, z3.Implies(k == n + 1, z3.Select(st2.ghost['log'], n) == ADAPTER))); k = z3.If(k > n, n, k)
        ok('the listeners are called in the order in which they were added', prefix(E, st2, v, k))
        ok('the list of listeners is kept', samevec(E.getvec(st2, p), v))
    E.verify(fn, st.copy(), [Ptr(r, 0), E.event], end)
def event_hints(E, st0):
    h = log_hints(E, st0); h['invs'].append(('everyone got the event itself', lambda st, k: st.ghost['ok'])); return h
def run_listeners(addone):
    def run(E, fn):
        st = State(); r = E.region('context', None, sym=True); p = Ptr(r, off(E, 'fc_listeners')); v = E.vec(st, p, 8, name='listeners', hi=MAXN); h = E.ref('handler')
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            if addone: E.prove('the handler is added last, the others are kept in order', pushed(E, E.getvec(st2, p), v, h))
            else: E.prove('no handler is left', toz(E.getvec(st2, p).n) == 0)
        E.verify(fn, st.copy(), [Ptr(r, 0)] + ([h] if addone else []), end)
    return run
def run_default(f, own):
    def run(E, fn):
        st = State(); r = E.region('context', None, sym=True); h = Ptr(None, E.int('set', lo=0, hi=BASE0 - 1)); st.setcell(r, off(E, f), 8, ir.PTR, h)
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            E.prove('the one that was set is used, otherwise the default', E.enc(out[1]) == z3.If(h.off != 0, h.off, ADAPTER if own is None else E.enc(Ptr(r, off(E, own)))))
        E.verify(fn, st.copy(), [Ptr(r, 0)], end)
    return run
def run_setdef(f, to):
    def run(E, fn):
        st = State(); r = E.region('context', None, sym=True); h = E.ref('handler')
        for g in ('df_adapter', 'df_formatter'): st.setcell(r, off(E, g), 8, ir.PTR, Ptr(None, E.int(g, lo=0)))
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            for g in ('df_adapter', 'df_formatter'):
                now = E.enc(E.load(st2, Ptr(r, off(E, g)), ir.PTR))
                E.prove('it is %s' % ('set' if to else 'reset') if g == f else 'the other one is kept', now == (h.off if to else 0) if g == f else now == E.enc(E.load(st, Ptr(r, off(E, g)), ir.PTR)))
        E.verify(fn, st.copy(), [Ptr(r, 0)] + ([h] if to else []), end)
    return run

for i, c in enumerate(VIRT):
    if c.fn is v_event: c.fn = v_listen
VIRT += [PContract(fn_act, 'the function held by a std::function is user code: may return, throw and re-enter the mock'),
         VContract(r'::accessEventFormatter\(', lambda E, st, name, a, inst: Walk([n for n, d in E.dem.items() if d == 'fakeit::DefaultFakeit::accessEventFormatter()'][0], a), 'DefaultFakeit::accessEventFormatter is not overridden'),
         VContract(r'::(get|access)TestingFrameworkAdapter\(', v_adapter, 'getTestingFrameworkAdapter gives the adapter (interface contract; DefaultFakeit is verified)')]
def one(nm, rx, props, run, doc, hints=None): return Spec(nm, '^%s$' % rx, props, run, doc, None, hints)
C1, C2 = ['C01'], ['C02']
SPECS = [one('call(%s)' % SIG[p], 'rb_%s_call' % p, ['C01', 'C03', 'C04', 'C05', 'C08', 'C20'] if p != 'v' else ['C01', 'C05', 'C20'], run_call(p), 'a call is answered by the last stubbing that accepts it', call_hints) for p in SIG]
SPECS += [one('add stubbing(%s)' % SIG[p], 'rb_%s_added' % p, C1, run_added(p, False), 'a stubbing is stored last') for p in SIG]
SPECS += [one('stored stubbing(%s)' % SIG[p], 'rb_%s_added_acts' % p, C1, run_added(p, True), 'a stored stubbing runs its handler') for p in SIG]
SPECS += [one('clear', 'rb_ii_clear', ['C10'], run_clear(False), 'the history is forgotten, the stubbings are kept'),
          one('history', 'rb_ii_history', ['C05', 'C03', 'C04'], run_history, 'every recorded call is collected', history_hints), one('scan', 'rb_ii_scan', ['C05'], run_scan, 'every recorded call is visited in order', log_hints),
          one('isOfMethod', 'rb_ii_of', ['C01', 'C05'], run_of, 'methods are told apart by their ids')]
SPECS += [one('sequence(%s)' % SIG[p], 'as_%s_call' % p, C2, run_seq(p), 'the first action that is not done answers', seq_hints) for p in ('ii', 'v')]
SPECS += [one('append(%s)' % SIG[p], 'as_%s_add' % p, C2, run_seqadd(p), 'actions are kept in order') for p in ('ii', 'v')]
SPECS += [one('Repeat::invoke', 'rp_invoke', C2 + ['C08'], run_invoke('rp_times', 'rp_f', [32]), 'uses up one repetition and runs the function'), one('Repeat::invoke(3)', 'rp3_invoke', C2 + ['C08'], run_invoke('rp3_times', 'rp3_f', [32, 64, 32]), 'uses up one repetition and runs the function'),
          one('RepeatForever::invoke', 'rf_invoke', C2 + ['C08'], run_invoke(None, 'rf_f', [32]), 'runs the function'), one('ReturnDelegateValue::invoke', 'rd_invoke', C2 + ['C08'], run_invoke(None, 'rd_f', [32]), 'runs the function'),
          one('Repeat::isDone', 'rp_done', C2, run_done('rp_times'), 'done when no repetition is left')] + [one(c + '::isDone', f, C2, run_done(None), 'never done') for c, f in (('RepeatForever', 'rf_done'), ('ReturnDelegateValue', 'rd_done'), ('ReturnDefaultValue', 'rv_done'), ('NoMoreRecordedAction', 'no_more_done'))]
SPECS += [one('Repeat(f, n)', 'rp_new', C2, run_new(False), 'starts with n repetitions'), one('Repeat(f)', 'rp_new1', C2, run_new(True), 'starts with one repetition'), one('NoMoreRecordedAction::invoke', 'no_more_invoke', C2, run_nomore, 'an exhausted sequence reports it')]
SPECS += [one('handle %s' % k, 'fc_' + k, ['C13'], run_event, 'listeners in order, then the adapter', event_hints) for k in ('unexpected', 'sequence', 'nomore')]
SPECS += [one('addEventHandler', 'fc_add', ['C13'], run_listeners(True), 'added last'), one('clearEventHandlers', 'fc_clear', ['C13'], run_listeners(False), 'all removed'),
          one('getTestingFrameworkAdapter', 'df_get', ['C13'], run_default('df_adapter', None), 'the adapter that was set'), one('getEventFormatter', 'df_fmt', ['C13'], run_default('df_formatter', 'df_own'), 'the formatter that was set')]
SPECS += [one(n, f, ['C13'], run_setdef(g, to), d) for n, f, g, to, d in (('setTestingFrameworkAdapter', 'df_set', 'df_adapter', True, 'sets it'), ('resetTestingFrameworkAdapter', 'df_unset', 'df_adapter', False, 'resets it'), ('setCustomEventFormatter', 'df_setf', 'df_formatter', True, 'sets it'), ('resetCustomEventFormatter', 'df_unsetf', 'df_formatter', False, 'resets it'))]
SPECS += [Spec('nextInvocationOrdinal', r'^fakeit::Invocation::nextInvocationOrdinal\(\)$', ['C20', 'C05'], run_ordinal, 'every call gets its own position, with interference of other threads', c_ordinal)]
GROUP = Group('record', 'record.cpp', SPECS, VIRT)
