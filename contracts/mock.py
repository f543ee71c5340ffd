"""Contracts of the binding side: proxies, virtual tables, mocks and the contexts of phrases."""
import z3, ir
from engine import *
from spec import Spec, Group, off
from stdmodels import VContract, PContract, Contract, getset
import stdmodels
from verify import q, setarg
from record import samevec, pushed, ti, snap, world, act, Body, one, v_event, v_format, MAXN
I = z3.IntSort(); B = z3.BoolSort(); NONE = 0x7fffffff
SLOTS = {'f': 0, 'g': 1, 'dtor': 2, 'h': 4}; NSLOT = 5          # of the class K of the harness
IDS = {'f': 7, 'g': 8, 'h': 9, 'dtor': 0}          # of the proxy functions called directly

# ---- the handlers of a mock, found by id
def handlers(E, st, name='handlers'):
    b = Body(); b.reg = E.region(name, None, sym=True); b.this = Ptr(b.reg, 0); b.own = E.region('proxy', None, sym=True)
    b.pm = Ptr(b.own, off(E, 'p_mocks')); b.po = Ptr(b.own, off(E, 'p_offsets'))
    b.m = E.vec(st, b.pm, 16, name='mocks', hi=MAXN); b.o = E.vec(st, b.po, 4, name='offsets', hi=MAXN); E.fact(toz(b.m.n) == toz(b.o.n))
    st.setcell(b.reg, off(E, 'ih_mocks'), 8, ir.PTR, b.pm); st.setcell(b.reg, off(E, 'ih_offsets'), 8, ir.PTR, b.po)
    return b
def first(b, i, k):
    (x,) = q('x'); a = b.o.comps[0]
    return z3.And(k >= 0, k < toz(b.o.n), z3.Select(a, k) == i, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < k), z3.Select(a, x) != i), patterns=[z3.Select(a, x)]))
def run_ihget(E, fn):
    st = State(); b = handlers(E, st); i = E.int('id', 32); k = E.int('slot'); E.fact(first(b, i, k)); E.ctx = (b, i, k)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        E.prove('the handler bound with the id is found', E.enc(out[1]) == z3.Select(b.m.comps[0], k)); E.prove('nothing is changed', z3.And(samevec(E.getvec(st2, b.pm), b.m), samevec(E.getvec(st2, b.po), b.o)))
    E.verify(fn, st.copy(), [b.this, i], end)
def ihget_hints(E, st0):
    b, i, k0 = E.ctx; a = b.o.comps[0]
    def none(st, k):
        (x,) = q('x'); return z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < k), z3.Select(a, x) != i), patterns=[z3.Select(a, x)])
    return {'invs': [('none of the first k has the id', none), ('k within the table', lambda st, k: k <= k0)]}
def run_ihnew(E, fn):
    st = State(); b = handlers(E, st); t = E.region('new', None, sym=True); E.ctx = b
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        (x,) = q('x'); w = E.getvec(st2, b.po)
        E.prove('no id is bound at first', z3.And(toz(w.n) == toz(b.o.n), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(w.n)), z3.Select(w.comps[0], x) == NONE))))
        E.prove('the handlers are kept', samevec(E.getvec(st2, b.pm), b.m))
        for f, p in (('ih_mocks', b.pm), ('ih_offsets', b.po)): E.prove('it works on the lists of the proxy', E.enc(E.load(st2, Ptr(t, off(E, f)), ir.PTR)) == E.enc(p))
    E.verify(fn, st.copy(), [Ptr(t, 0), b.pm, b.po], end)
def ihnew_hints(E, st0):
    b = E.ctx
    def sofar(st, k):
        (x,) = q('x'); w = E.getvec(st, b.po).comps[0]
        return z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < k), z3.Select(w, x) == NONE), patterns=[z3.Select(w, x)])
    return {'invs': [('the first k are unbound', sofar), ('k within the table', lambda st, k: k <= toz(b.o.n))]}

# ---- a proxy
def proxy(E, st, reg=None, o=0):
    """an arbitrary proxy of an object of class K that is attached"""
    b = Body(); b.reg = reg or E.region('proxy', None, sym=True); b.o = o; b.this = Ptr(b.reg, o); at = lambda f: o + off(E, f)
    b.obj = E.region('object', off(E, 'k_size'), sym=True)
    b.table = E.region('table', 8 * (NSLOT + 4), sym=True); b.orig = E.region('original', None, sym=True)
    st.setcell(b.reg, at('p_instance'), 8, ir.PTR, Ptr(b.obj, 0)); st.setcell(b.reg, at('p_orig'), 8, ir.PTR, Ptr(b.orig, 32)); st.setcell(b.reg, at('p_clone'), 8, ir.PTR, Ptr(b.table, 32))
    st.setcell(b.obj, 0, 8, ir.PTR, Ptr(b.table, 32))
    for r in (b.table, b.orig):
        for i in range(-4, NSLOT): st.setcell(r, 32 + 8 * i, 8, ir.PTR, Ptr(None, E.int('%s%d' % (r.name, i), lo=1, hi=BASE0 - 1)))
    b.pm = Ptr(b.reg, at('p_mocks')); b.po = Ptr(b.reg, at('p_offsets')); b.px = Ptr(b.reg, at('p_members'))
    b.x = E.vec(st, b.px, 24, name='members', hi=MAXN); b.m = E.vec(st, b.pm, 16, n=NSLOT, name='mocks'); b.off = E.vec(st, b.po, 4, n=NSLOT, name='offsets')
    st.setcell(b.table, 8, 8, ir.PTR, Ptr(b.reg, at('p_handlers')))
    st.setcell(b.reg, at('p_handlers') + off(E, 'ih_mocks'), 8, ir.PTR, b.pm); st.setcell(b.reg, at('p_handlers') + off(E, 'ih_offsets'), 8, ir.PTR, b.po)
    return b
def slot(E, st, r, i): return E.enc(E.load(st, Ptr(r, 32 + 8 * i), ir.PTR))
def table_same(E, ok, st, st2, r, but=(), what='virtual table'):
    for i in range(-4, NSLOT):
        if i not in but: ok('the other entries of the %s are kept' % what, slot(E, st2, r, i) == slot(E, st, r, i))
def elt(v, i): return z3.Select(v.comps[0], i)
def proxy_kept(E, ok, st, st2, b, slots=(), mocks=(), vptr=True):
    table_same(E, ok, st, st2, b.table, slots); table_same(E, ok, st, st2, b.orig, (), 'original virtual table')
    m, o = E.getvec(st2, b.pm), E.getvec(st2, b.po)
    ok('the proxy has a place for every method', z3.And(toz(m.n) == NSLOT, toz(o.n) == NSLOT))
    for i in range(NSLOT):
        if i not in mocks: ok('the other methods stay as they are', z3.And(elt(m, i) == elt(b.m, i), elt(o, i) == elt(b.off, i)))
    if vptr: ok('the object uses the table of the proxy', E.enc(E.load(st2, Ptr(b.obj, 0), ir.PTR)) == E.enc(Ptr(b.table, 32)))
def fnaddr(E, rx):
    import re
    r = [n for n, d in E.dem.items() if n in E.m.funcs and re.search(rx, d)]
    if len(r) != 1: raise Unsupported('function ' + rx)
    return E.enc(E.fnptr(r[0]))
CR = {'f': 'int, int', 'g': 'void', 'h': 'long, int, long, int', 'dtor': 'void'}
def proxyid(E, st, table, i, w):
    """the id of the proxy function in the table"""
    import re
    p = E.load(st, Ptr(table, 32 + 8 * i), ir.PTR); d = E.dem.get(p.base.name, p.base.name) if isinstance(p, Ptr) and p.base is not None and p.base.kind == 'fn' else ''
    m = re.search(r'MethodProxyCreator<%s>::methodProxyX<(\d+)u?>\(' % CR[w], d); E.prove('calls of the method reach a proxy function of its signature', z3.BoolVal(m is not None)); return int(m.group(1)) if m else None
def run_stub(w):
    def run(E, fn):
        st = State(); b = proxy(E, st); h = E.ref('handler')
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            i = SLOTS[w]; ok = E.prove; m, o = E.getvec(st2, b.pm), E.getvec(st2, b.po)
            n = proxyid(E, st2, b.table, i, w)
            if w == 'dtor': ok('deleting the object calls its destructor', slot(E, st2, b.table, i + 1) == fnaddr(E, r'VirtualTable<K>::dtor\(int\)$'))
            ok('the handler is bound to the method', elt(m, i) == h.off)
            if n is not None: ok('it is found by the id of the proxy function', elt(o, i) == n)
            proxy_kept(E, ok, st, st2, b, (i, i + 1) if w == 'dtor' else (i,), (i,))
        E.verify(fn, st.copy(), [b.this, h], end)
    return run
def run_stuball(E, fn):
    st = State(); b = proxy(E, st); hs = {w: E.ref('handler_' + w) for w in SLOTS}
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        m, o = E.getvec(st2, b.pm), E.getvec(st2, b.po); ids = []
        for w, i in SLOTS.items():
            n = proxyid(E, st2, b.table, i, w); E.prove('every handler is bound to its method', elt(m, i) == hs[w].off)
            if n is not None: E.prove('it is found by the id of the proxy function', elt(o, i) == n); ids.append(n)
        E.prove('no two methods of a mock share an id', z3.BoolVal(len(set(ids)) == len(ids))); proxy_kept(E, E.prove, st, st2, b, range(NSLOT), SLOTS.values())
    E.verify(fn, st.copy(), [b.this] + [hs[w] for w in ('f', 'g', 'h', 'dtor')], end)
def run_bound(w, mock):
    def run(E, fn):
        st = State(); b = proxy(E, st)
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            e = elt(b.m, SLOTS[w])
            if mock: E.prove('the handler of the method', E.enc(out[1]) == e)
            else: E.prove('a method is stubbed exactly when it has a handler', b2z(out[1]) == (e != 0))
            proxy_kept(E, E.prove, st, st2, b)
        E.verify(fn, st.copy(), [b.this], end)
    return run
def run_get(E, fn):
    st = State(); b = proxy(E, st)
    def end(st2, out): E.prove('the mocked object itself', E.enc(out[1]) == E.enc(Ptr(b.obj, 0)) if out[0] == 'ret' else False)
    E.verify(fn, st.copy(), [b.this], end)
def run_detach(E, fn):
    st = State(); b = proxy(E, st)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        E.prove('the object uses its own virtual table again', E.enc(E.load(st2, Ptr(b.obj, 0), ir.PTR)) == E.enc(Ptr(b.orig, 32))); proxy_kept(E, E.prove, st, st2, b, vptr=False)
    E.verify(fn, st.copy(), [b.this], end)
def run_reset(E, fn):
    st = State(); b = proxy(E, st)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        ok = E.prove; m, o = E.getvec(st2, b.pm), E.getvec(st2, b.po)
        ok('the proxy has a place for every method', z3.And(toz(m.n) == NSLOT, toz(o.n) == NSLOT))
        for i in range(NSLOT):
            ok('no method has a handler', elt(m, i) == 0); ok('no id is bound', elt(o, i) == NONE); ok('every method is the original one', slot(E, st2, b.table, i) == slot(E, st, b.orig, i))
        proxy_kept(E, ok, st, st2, b, range(NSLOT), range(NSLOT))
    E.verify(fn, st.copy(), [b.this], end)

# ---- calls through a proxy function
def v_handle(E, st, name, a, inst): return act('acted')(E, st, name, a, inst)
def v_byid(E, st, name, a, inst):
    r = [n for n, d in E.dem.items() if n in E.m.funcs and d == 'fakeit::InvocationHandlers::getInvocatoinHandlerPtrById(unsigned int)']
    if len(r) != 1: raise Unsupported('getInvocatoinHandlerPtrById')
    return Walk(r[0], a)
def run_through(w, ws):
    def run(E, fn):
        st = State(); E.shared = []; E.rely = []; b = proxy(E, st); i = SLOTS[w]; args = [E.int('arg%d' % n, k) for n, k in enumerate(ws)]
        # bound: the id is found at the place of the method, and ids differ
        E.fact(z3.And(elt(b.off, i) == IDS[w], elt(b.m, i) > 0, elt(b.m, i) < BASE0, *[elt(b.off, j) != IDS[w] for j in range(NSLOT) if j != i]))
        def end(st2, out):
            ac = st2.ghost.get('acted', ()); ok = E.prove
            ok('exactly one handler is called', z3.BoolVal(len(ac) == 1))
            if not ac: return
            who, got, s1, how, res, ex, _ = ac[0]
            ok('it is the handler of the called method', who == elt(b.m, i)); ok('it gets all arguments', z3.BoolVal(len(got) == len(args)))
            for g, v, k in zip(got, args, ws): ok('it gets the arguments of the call, in order', toz(E.load(s1, g, ('int', k)) if isinstance(g, Ptr) else g) == toz(v))
            if how == 'ret': ok('its result is returned', z3.BoolVal(out[0] == 'ret') if res is None or out[0] != 'ret' else toz(out[1]) == toz(res))
            else: ok('what it threw leaves', z3.BoolVal(out[0] == 'throw' and out[1] is ex))
            proxy_kept(E, ok, st, s1, b)
        E.verify(fn, st.copy(), [Ptr(b.obj, 0)] + args, end)
    return run

# ---- the histories of all methods of a mock
def counted(E, b, t):
    """cnt(k): how many of the first k handlers are of the type; SRC: the inverse of cnt on the handlers of the type"""
    cnt = z3.Function('cnt', I, I); isa = stdmodels.isa_fn(t); (x,) = q('x'); e = elt(b.m, x)
    has = lambda x: z3.And(elt(b.m, x) != 0, isa(elt(b.m, x)))
    E.fact(cnt(0) == 0); E.fact(z3.ForAll([x], z3.Implies(x >= 0, cnt(x + 1) == cnt(x) + z3.If(has(x), 1, 0)), patterns=[cnt(x + 1)])); 
    E.fact(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(b.m.n)), z3.And(e >= 0, e < BASE0, z3.Implies(has(x), z3.And(stdmodels.view_fn(t)(e) > 0, stdmodels.view_fn(t)(e) < BASE0)))), patterns=[e]))
    E.fact(z3.ForAll([x], z3.Implies(z3.And(x >= 0, has(x)), SRC(cnt(x)) == x), patterns=[cnt(x)]))
    return cnt, has
SRC = z3.Function('src', I, I)
def from_handlers(b, n0, w, cnt, has, view, n, elts=False):
    (z,) = q('z'); k = SRC(z); at = lambda z: z3.And(k >= 0, k < n, has(k), cnt(k) == z, view(elt(b.m, k)) > 0, view(elt(b.m, k)) < BASE0)
    if elts: k = SRC(z - n0); return z3.ForAll([z], z3.Implies(z3.And(z >= n0, z < toz(w.n)), z3.And(at(z - n0), z3.Select(w.comps[0], z) == view(elt(b.m, k)))), patterns=[z3.Select(w.comps[0], z)])
    return z3.ForAll([z], z3.Implies(z3.And(z >= 0, z < toz(w.n) - n0), z3.And(at(z), z3.Select(w.comps[0], n0 + z) == view(elt(b.m, k)))), patterns=[SRC(z)])
def run_mocks(t):
    def run(E, fn):
        st = State(); b = handlers(E, st); r = E.region('into', None, sym=True); pv = Ptr(r, 0); v0 = E.vec(st, pv, 8, name='into', hi=MAXN); ty = ti(E, t)
        cnt, has = counted(E, b, ty); E.ctx = (b, pv, v0, cnt, has, ty); view = stdmodels.view_fn(ty)
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            (x,) = q('x'); w = E.getvec(st2, pv); n0 = toz(v0.n)
            E.prove('one entry is added for each handler of the kind', toz(w.n) == n0 + cnt(toz(b.m.n)))
            E.prove('each handler of the kind is added, in the order of the methods', z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(b.m.n), has(x)), z3.Select(w.comps[0], n0 + cnt(x)) == view(elt(b.m, x)))))
            E.prove('what was there is kept', z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n0), z3.Select(w.comps[0], x) == z3.Select(v0.comps[0], x))))
            E.prove('every added entry is a handler of the kind', from_handlers(b, n0, w, cnt, has, view, toz(b.m.n)))
            E.prove('the handlers are kept', samevec(E.getvec(st2, b.pm), b.m))
        E.verify(fn, st.copy(), [Ptr(b.own, 0), pv], end)
    return run
def mocks_hints(E, st0):
    b, pv, v0, cnt, has, ty = E.ctx; n0 = toz(v0.n); view = stdmodels.view_fn(ty)
    def sofar(st, k):
        (x,) = q('x'); w = E.getvec(st, pv); e = elt(b.m, x)
        return z3.And(toz(w.n) == n0 + cnt(k), cnt(k) >= 0, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < k, has(x)), z3.And(cnt(x) >= 0, cnt(x) < cnt(k), z3.Select(w.comps[0], n0 + cnt(x)) == view(e))), patterns=[e]))
    def old(st, k):
        (x,) = q('x'); w = E.getvec(st, pv)
        return z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n0), z3.Select(w.comps[0], x) == z3.Select(v0.comps[0], x)), patterns=[z3.Select(v0.comps[0], x)])
    def only(st, k):
        return from_handlers(b, n0, E.getvec(st, pv), cnt, has, view, k)
    return {'invs': [('the handlers among the first k were added', sofar), ('nothing else was added', only), ('the rest is kept', old), ('k within the table', lambda st, k: k <= toz(b.m.n))], 'facts': [lambda st, k: [cnt(k + 1) == cnt(k + 1), elt(b.m, k) == elt(b.m, k)]]}


def c_mocks(t):
    """the contract of getMethodMocks for its callers"""
    def f(E, st, name, a, inst):
        ty = ti(E, t); b = Body(); b.m = E.getvec(st, Ptr(a[0].base, add(a[0].off, off(E, 'p_mocks')))); cnt, has = E.counted; view = stdmodels.view_fn(ty)
        v0 = E.getvec(st, a[1]); n0 = toz(v0.n); w = Vec(norm(n0 + cnt(toz(b.m.n))), {0: E.arr('found')}, 8); x, y = q('x', 'y')
        E.fact(z3.And(cnt(toz(b.m.n)) >= 0, cnt(toz(b.m.n)) <= toz(b.m.n)))
        E.fact(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(b.m.n), has(x)), z3.And(cnt(x) >= 0, cnt(x) < cnt(toz(b.m.n)), z3.Select(w.comps[0], n0 + cnt(x)) == view(elt(b.m, x)))), patterns=[elt(b.m, x)]))
        E.fact(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n0), z3.Select(w.comps[0], x) == z3.Select(v0.comps[0], x)), patterns=[z3.Select(w.comps[0], x)]))
        # every added entry comes from a handler (the entries are counted)
        E.fact(from_handlers(b, n0, w, cnt, has, view, toz(b.m.n), True))
        E.setvec(st, a[1], w); E.found = w
    return f
HIST = z3.Function('HIST', I, I, B)               # HIST(source, call): the call is in the history of the source
def v_history(E, st, name, a, inst):
    s0 = getset(E, st, a[1]); who = E.enc(a[0]); nm = z3.Array('set!%d' % fresh_id(), I, B); (x,) = q('x')
    E.fact(z3.ForAll([x], z3.Select(nm, x) == z3.Or(z3.Select(s0.mem, x), HIST(who, x)), patterns=[z3.Select(nm, x)]))
    if not z3.is_store(s0.mem): E.fact(z3.ForAll([x], z3.Implies(z3.Select(s0.mem, x), z3.Select(nm, x)), patterns=[z3.Select(s0.mem, x)]))
    stdmodels.setset(E, st, a[1], SetV(nm), 56)
def v_clear(E, st, name, a, inst): st.ghost['cleared'] = z3.Store(st.ghost['cleared'], E.enc(a[0]), z3.BoolVal(True))
def mockimpl(E, st, t):
    b = Body(); b.reg = E.region('mock', None, sym=True); b.this = Ptr(b.reg, 0); b.pm = Ptr(b.reg, off(E, 'mi_proxy') + off(E, 'p_mocks')); b.po = Ptr(b.reg, off(E, 'mi_proxy') + off(E, 'p_offsets'))
    b.m = E.vec(st, b.pm, 16, name='mocks', hi=MAXN); b.o = E.vec(st, b.po, 4, name='offsets', hi=MAXN); b.ty = ti(E, t); E.counted = counted(E, b, b.ty); b.has = E.counted[1]; b.view = stdmodels.view_fn(b.ty)
    return b
def run_allhist(E, fn):
    st = State(); b = mockimpl(E, st, 'source'); ps, s0 = setarg(E, st, 'into'); E.ctx = (b, ps, s0)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        x, k = q('x', 'k'); w = getset(E, st2, ps).mem; n = toz(b.m.n)
        E.prove('what was there is kept', z3.ForAll([x], z3.Implies(z3.Select(s0.mem, x), z3.Select(w, x))))
        E.prove('every call of every method of the mock is added', z3.ForAll([k, x], z3.Implies(z3.And(k >= 0, k < n, b.has(k), HIST(b.view(elt(b.m, k)), x)), z3.Select(w, x)), patterns=[HIST(b.view(elt(b.m, k)), x)]))
        E.prove('nothing else is added', z3.ForAll([x], z3.Implies(z3.Select(w, x), z3.Or(z3.Select(s0.mem, x), z3.Exists([k], z3.And(k >= 0, k < n, b.has(k), HIST(b.view(elt(b.m, k)), x)))))))
        E.prove('the methods are kept', samevec(E.getvec(st2, b.pm), b.m))
    E.verify(fn, st.copy(), [b.this, ps], end)
def allhist_hints(E, st0):
    b, ps, s0 = E.ctx; f = E.found; n = toz(b.m.n)
    def sofar(st, k):
        x, j = q('x', 'j'); w = getset(E, st, ps).mem; e = z3.Select(f.comps[0], j)
        return z3.And(z3.ForAll([x], z3.Implies(z3.Select(s0.mem, x), z3.Select(w, x)), patterns=[z3.Select(s0.mem, x)]), z3.ForAll([j, x], z3.Implies(z3.And(j >= 0, j < k, HIST(e, x)), z3.Select(w, x)), patterns=[HIST(e, x)]))
    def only(st, k):
        x, j = q('x', 'j'); w = getset(E, st, ps).mem; e = z3.Select(f.comps[0], j)
        return z3.ForAll([x], z3.Implies(z3.Select(w, x), z3.Or(z3.Select(s0.mem, x), z3.Exists([j], z3.And(j >= 0, j < k, HIST(e, x))))), patterns=[z3.Select(w, x)])
    return {'invs': [('the calls of the first k were added', sofar), ('nothing else was added', only), ('k within the list', lambda st, k: k <= toz(f.n))]}
def run_allclear(E, fn):
    st = State(); b = mockimpl(E, st, 'container'); c0 = z3.Array('cleared!%d' % fresh_id(), I, B); st.ghost['cleared'] = c0; E.ctx = (b, c0)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        x, k = q('x', 'k'); n = toz(b.m.n); c = st2.ghost['cleared']
        E.prove('the history of every method is cleared', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n, b.has(k)), z3.Select(c, b.view(elt(b.m, k))))))
        E.prove('nothing else is cleared', z3.ForAll([x], z3.Implies(z3.And(z3.Select(c, x), z3.Not(z3.Select(c0, x))), z3.Exists([k], z3.And(k >= 0, k < n, b.has(k), b.view(elt(b.m, k)) == x)))))
        E.prove('the methods are kept', z3.And(samevec(E.getvec(st2, b.pm), b.m), samevec(E.getvec(st2, b.po), b.o)))
    E.verify(fn, st.copy(), [b.this], end)
def allclear_hints(E, st0):
    b, c0 = E.ctx; f = E.found
    def sofar(st, k):
        j, x = q('j', 'x'); c = st.ghost['cleared']; e = z3.Select(f.comps[0], j)
        return z3.And(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Select(c, e)), patterns=[e]), z3.ForAll([x], z3.Implies(z3.Select(c, x), z3.Or(z3.Select(c0, x), z3.Exists([j], z3.And(j >= 0, j < k, e == x)))), patterns=[z3.Select(c, x)]))
    return {'invs': [('the first k were cleared', sofar), ('k within the list', lambda st, k: k <= toz(f.n))]}

# ---- spied methods
def fp_call(E, st, name, a, inst):
    """a function of the user, known by its address only"""
    cv = st.ghost['_callee']; res = None if inst.ty == ir.VOID else E.fresh(inst.ty, 'result'); ex = Exc(None, E.ref('exc'))
    def note(s2, how, x=None): s2.ghost['ran'] = s2.ghost.get('ran', ()) + ((E.enc(cv), a, snap(E, s2), how, res, x),)
    return Alts([Alt([], lambda s2: note(s2, 'ret'), ret=res), Alt([], lambda s2: note(s2, 'exc', ex), throw=ex)])
def ran_once(E, st2, out):
    r = st2.ghost.get('ran', ()); E.prove('exactly one function runs', z3.BoolVal(len(r) == 1))
    if len(r) != 1: return None
    who, a, s1, how, res, ex = r[0]
    if how == 'ret': E.prove('its result is returned', z3.BoolVal(out[0] == 'ret') if res is None or out[0] != 'ret' else toz(out[1]) == toz(res))
    else: E.prove('what it threw leaves', z3.BoolVal(out[0] == 'throw' and out[1] is ex))
    return r[0]
def run_swap(w):
    def run(E, fn):
        st = State(); b = proxy(E, st); f, x = E.ref('function'), E.ref('argument'); i = SLOTS[w]
        def end(st2, out):
            r = ran_once(E, st2, out)
            if r is None: return
            E.prove('meanwhile calls of the method reach the original one', slot(E, r[2], b.table, i) == slot(E, st, b.orig, i))
            proxy_kept(E, E.prove, st, r[2], b, (i,)); proxy_kept(E, E.prove, st, st2, b)
        E.verify(fn, st.copy(), [b.this, f, x], end)
    return run
def run_spied(w, ws):
    def run(E, fn):
        st = State(); m = E.region('mock', None, sym=True); b = proxy(E, st, m, off(E, 'mi_proxy')); mockvptr(E, st, m); i = SLOTS[w]; args = [E.int('arg%d' % n, k) for n, k in enumerate(ws)]
        def end(st2, out):
            r = ran_once(E, st2, out)
            if r is None: return
            who, a, s1 = r[:3]
            E.prove('the original method runs', who == slot(E, st, b.orig, i)); E.prove('on the mocked object', E.enc(a[0]) == E.enc(Ptr(b.obj, 0))); E.prove('it gets all arguments', z3.BoolVal(len(a) == len(args) + 1))
            for g, v in zip(a[1:], args): E.prove('it gets the arguments of the call, in order', toz(g) == toz(v))
            proxy_kept(E, E.prove, st, s1, b, (i,)); proxy_kept(E, E.prove, st, st2, b)
        E.verify(fn, st.copy(), [Ptr(m, 0)] + args, end)
    return run

# ---- the recorded body of a method
def run_body(w, t):
    def run(E, fn):
        st = State(); m = E.region('mock', None, sym=True); b = proxy(E, st, m, off(E, 'mi_proxy')); i = SLOTS[w]; ctx = E.ref('context'); st.setcell(m, off(E, 'mi_fakeit'), 8, ir.PTR, ctx); ty = ti(E, 'rb_' + t)
        e = elt(b.m, i); E.fact(z3.And(e >= 0, e < BASE0, z3.Implies(e != 0, z3.And(stdmodels.isa_fn(ty)(e), stdmodels.view_fn(ty)(e) > 0))))
        mockvptr(E, st, m)
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            ok = E.prove; r = out[1]; mm, oo = E.getvec(st2, b.pm), E.getvec(st2, b.po)
            if r.base is None:
                ok('the body of a stubbed method', z3.And(e != 0, r.off == stdmodels.view_fn(ty)(e))); return proxy_kept(E, ok, st, st2, b)
            ok('a new body is made only for a method without one', e == 0)
            n = proxyid(E, st2, b.table, i, w); ok('the new body is bound to the method', elt(mm, i) == E.enc(r))
            if n is not None: ok('it is found by the id of the proxy function', elt(oo, i) == n)
            if w == 'dtor': ok('deleting the object calls its destructor', slot(E, st2, b.table, i + 1) == fnaddr(E, r'VirtualTable<K>::dtor\(int\)$'))
            for f in ('rb_handlers', 'rb_history'): ok('the new body is empty', toz(E.getvec(st2, Ptr(r.base, add(r.off, off(E, f)))).n) == 0)
            ok('the new body reports to the context of the mock', E.enc(E.load(st2, Ptr(r.base, add(r.off, off(E, 'rb_fakeit'))), ir.PTR)) == ctx.off)
            proxy_kept(E, ok, st, st2, b, (i, i + 1) if w == 'dtor' else (i,), (i,))
        E.verify(fn, st.copy(), [Ptr(m, 0)], end)
    return run
def mockvptr(E, st, m):
    vt = '_ZTVN6fakeit8MockImplI1KJEEE'
    if not E.m.glob(vt): raise Unsupported('virtual table of MockImpl')
    st.setcell(m, 0, 8, ir.PTR, Ptr(E.gptr(st, vt).base, vaddr(E, vt)))
def vaddr(E, vt):
    """address point of the first part of a virtual table: after the type information"""
    g = E.m.glob(vt); part = g[1][1][0][1][1]; o = 0
    for j, (t, v) in enumerate(part):
        if v[0] == 'global' and v[1].startswith('_ZTI'): return 8 * (j + 1)
    raise Unsupported('virtual table')

# ---- owned mocks
def run_zero(new):
    def run(E, fn):
        st = State(); z = off(E, 'k_size'); o = E.region('object', z, sym=True); vp = Ptr(None, E.int('vptr', lo=1, hi=BASE0 - 1))
        if not new: st.setcell(o, 0, 8, ir.PTR, vp)
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            for i in range(8, z): E.prove('every byte of the members is zero', toz(E.load(st2, Ptr(o, i), ir.I8)) == 0)
            if not new: E.prove('the virtual table is kept', E.enc(E.load(st2, Ptr(o, 0), ir.PTR)) == vp.off)
        E.verify(fn, st.copy(), [Ptr(o, 0)], end)
    return run
def run_fake(E, fn):
    st = State()
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        k = out[1]; z = off(E, 'k_size'); t = E.load(st2, k, ir.PTR); s = lambda i: E.enc(E.load(st2, Ptr(t.base, t.off + 8 * i), ir.PTR))
        un = fnaddr(E, r'MockImpl<K>::unmocked\(\)$')
        for w, i in SLOTS.items():
            if w != 'dtor': E.prove('every method is unmocked at first', s(i) == un)
        d = SLOTS['dtor']; E.prove('the destructor does nothing at first', z3.And(s(d) == fnaddr(E, r'MockImpl<K>::unmockedDtor\(\)$'), s(d + 1) == fnaddr(E, r'VirtualTable<K>::dtor\(int\)$')))
        for i in range(8, z): E.prove('every byte of the members is zero', toz(E.load(st2, Ptr(k.base, add(k.off, i)), ir.I8)) == 0)
    E.verify(fn, st, [], end)
UNEXP = '_ZTIN6fakeit29UnexpectedMethodCallExceptionE'
def run_unmocked(E, fn):
    st = State(); m = E.region('mock', None, sym=True); ctx = E.ref('context')
    for n, (t, nm) in {}.items(): pass
    st.ghost['_once'] = True
    gs = [g for g in E.m.globals_matching('unmockedContext')] if hasattr(E.m, 'globals_matching') else []
    E.unmocked_ctx = ctx
    def end(st2, out):
        ev = st2.ghost.get('events', ()); ok = E.prove; ok('exactly one event is raised', z3.BoolVal(len(ev) == 1))
        if len(ev) != 1: return
        c, ty, inv, how, ex = ev[0]
        ok('the event goes to the context of the mock', c == ctx.off); ok('the event says the method is unmocked', toz(ty) == 0)
        if how == 'exc': ok('what the event handler throws leaves the call', z3.BoolVal(out[0] == 'throw' and out[1] is ex))
        else: ok('otherwise the call throws UnexpectedMethodCallException', z3.BoolVal(out[0] == 'throw' and out[1].ti == UNEXP))
    E.verify(fn, st, [Ptr(m, 0)], end)
def run_deldtor(E, fn):
    st = State(); o = E.region('object', off(E, 'k_size'), sym=True); t = E.region('table', 8 * (NSLOT + 4), sym=True); st.setcell(o, 0, 8, ir.PTR, Ptr(t, 32))
    for i in range(-4, NSLOT): st.setcell(t, 32 + 8 * i, 8, ir.PTR, Ptr(None, E.int('table%d' % i, lo=1, hi=BASE0 - 1)))
    def end(st2, out):
        r = ran_once(E, st2, (out[0], None) if out[0] == 'ret' else out)
        if r is None: return
        E.prove('the destructor in the table runs, on the object', z3.And(r[0] == slot(E, st, t, SLOTS['dtor']), E.enc(r[1][0]) == E.enc(Ptr(o, 0)))); E.prove('the object is not released', z3.BoolVal(o.id not in st2.dead))
    E.verify(fn, st.copy(), [Ptr(o, 0)], end)

# ---- phrases
OF = z3.Function('OF', I, I, B)                  # OF(context, method): the context is of the method
M = z3.Function('M', I, I, B)
def v_of(E, st, name, a, inst): return OF(E.enc(a[0]), E.enc(a[1]))
def v_match(E, st, name, a, inst): return M(E.enc(a[0]), E.enc(a[1]))
def v_note(kind, ret=None):
    def f(E, st, name, a, inst):
        st.ghost[kind] = st.ghost.get(kind, ()) + (tuple(E.enc(x) for x in a),); return ret(E) if ret else None
    return f
def v_delete(E, st, name, a, inst): st.ghost['deleted'] = st.ghost.get('deleted', ()) + (E.enc(a[0]),)
def v_scan(E, st, name, a, inst):
    """the contract of scanActualInvocations: the scanner is called for every recorded call; here for an arbitrary one"""
    r = [n for n, d in E.dem.items() if n in E.m.funcs and d.startswith('std::function<void (fakeit::ActualInvocation<int>&)>::operator()(')]
    if len(r) != 1: raise Unsupported('scanner')
    st.ghost['scans'] = st.ghost.get('scans', ()) + (E.enc(a[0]),)
    return Walk(r[0], [a[1], E.anycall])
def impl(E, st):
    b = Body(); b.reg = E.region('phrase', off(E, 'im_size'), sym=True); b.this = Ptr(b.reg, 0); b.ctx, b.m = E.ref('context'), E.ref('matcher'); b.com = E.bool('commited')
    b.sr = E.region('sequence', None, sym=True); b.s = Ptr(b.sr, 0); b.pr = Ptr(b.sr, off(E, 'as_recorded')); b.r = E.vec(st, b.pr, 16, name='recorded', hi=MAXN); E.fact(toz(b.r.n) >= 1)
    st.setcell(b.reg, off(E, 'im_context'), 8, ir.PTR, b.ctx); st.setcell(b.reg, off(E, 'im_sequence'), 8, ir.PTR, b.s); st.setcell(b.reg, off(E, 'im_matcher'), 8, ir.PTR, b.m); st.setcell(b.reg, off(E, 'im_commited'), 1, ir.I8, z3.If(b.com, z3.IntVal(1), z3.IntVal(0)))
    return b
def commited(E, st, b): return b2z(E.tobool(E.load(st, Ptr(b.reg, off(E, 'im_commited')), ir.I8)))
def impl_kept(E, ok, st, b, but=()):
    for f, v in (('context', b.ctx), ('sequence', b.s), ('matcher', b.m)):
        if f not in but: ok('the %s of the phrase is kept' % f, E.enc(E.load(st, Ptr(b.reg, off(E, 'im_' + f)), ir.PTR)) == E.enc(v))
    if 'commited' not in but: ok('the phrase is not committed by this', commited(E, st, b) == b.com)
    if 'list' not in but: ok('the actions of the phrase are kept', samevec(E.getvec(st, b.pr), b.r))
def deleted(E, ok, st, want):
    d = st.ghost.get('deleted', ()); ok('exactly the objects the phrase owns are deleted, each once', z3.BoolVal(len(d) == len(want)))
    if len(d) == len(want):
        for w in want: ok('exactly the objects the phrase owns are deleted, each once', z3.Or(*[x == E.enc(w) for x in d]))
def run_immatch(E, fn):
    st = State(); b = impl(E, st); v = E.ref('call'); ty = ti(E, 'af'); mo = z3.Select(E.hmap(st, invmethod(E)), v.off + off(E, 'inv_method')); of = OF(b.ctx.off, mo)
    E.fact(z3.Implies(of, z3.And(stdmodels.isa_fn(ty)(v.off), stdmodels.view_fn(ty)(v.off) > 0)))
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        E.prove('a phrase accepts exactly the calls of its method that its criteria accept', b2z(E.tobool(out[1]) if not z3.is_bool(toz(out[1])) else out[1]) == z3.And(of, M(b.m.off, stdmodels.view_fn(ty)(v.off)))); impl_kept(E, E.prove, st2, b)
    E.verify(fn, st.copy(), [b.this, v], end)
def invmethod(E):
    for n, d in E.dem.items():
        if d == 'fakeit::Invocation::getMethod() const' and n in E.m.funcs:
            for bl in E.m.func(n).blocks.values():
                for i in bl:
                    if i.op == 'gep': return (i.ty[1], i.a['idx'][1][1][1])
    raise Unsupported('Invocation::getMethod')
def run_imhist(E, fn):
    st = State(); b = impl(E, st); ps, s0 = setarg(E, st, 'into'); E.anycall = E.ref('call')
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        sc = st2.ghost.get('scans', ()); E.prove('the calls of the method are visited once', z3.BoolVal(len(sc) == 1))
        if len(sc) != 1: return
        (x,) = q('x'); w = getset(E, st2, ps).mem; c = E.anycall.off
        E.prove('it visits the calls of its own method', sc[0] == b.ctx.off)
        ic = c; E.prove('a visited call is added exactly when the criteria accept it, nothing else is', z3.ForAll([x], z3.Select(w, x) == z3.Or(z3.Select(s0.mem, x), z3.And(x == ic, M(b.m.off, c))))); impl_kept(E, E.prove, st2, b)
    E.verify(fn, st.copy(), [b.this, ps], end)
def run_imcommit(E, fn):
    st = State(); b = impl(E, st); E.fact(z3.Not(b.com))
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        c = st2.ghost.get('added', ()); E.prove('exactly one stubbing is added', z3.BoolVal(len(c) == 1))
        if len(c) == 1: E.prove('with the criteria and the actions of the phrase', z3.And(*[x == E.enc(y) for x, y in zip(c[0], (b.ctx, b.m, b.s))]))
        E.prove('the phrase is committed', commited(E, st2, b)); impl_kept(E, E.prove, st2, b, ('commited',)); deleted(E, E.prove, st2, ())
    E.verify(fn, st.copy(), [b.this], end)
def run_imend(E, fn):
    st = State(); b = impl(E, st); b.s = E.ref('sequence'); st.setcell(b.reg, off(E, 'im_sequence'), 8, ir.PTR, b.s)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        c = simp(b.com); d = st2.ghost.get('deleted', ())
        if E.sure(b.com): deleted(E, E.prove, st2, (b.ctx,))
        else: E.prove('a phrase that is not committed owns its criteria and actions', z3.Not(b.com)); deleted(E, E.prove, st2, (b.ctx, b.m, b.s))
    E.verify(fn, st.copy(), [b.this], end)
def run_imset(E, fn):
    st = State(); b = impl(E, st); n = E.ref('new_matcher')
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        E.prove('the new criteria are used', E.enc(E.load(st2, Ptr(b.reg, off(E, 'im_matcher')), ir.PTR)) == n.off); deleted(E, E.prove, st2, (b.m,)); impl_kept(E, E.prove, st2, b, ('matcher',))
    E.verify(fn, st.copy(), [b.this, n], end)
def run_imappend(E, fn):
    st = State(); b = impl(E, st); a = E.ref('action'); n = toz(b.r.n)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        w = E.getvec(st2, b.pr); (x,) = q('x'); A = b.r.comps[0]
        E.prove('a new action comes after the recorded ones and before the closing one', z3.And(toz(w.n) == n + 1, z3.Select(w.comps[0], n - 1) == a.off, z3.Select(w.comps[0], n) == z3.Select(A, n - 1)))
        E.prove('the recorded actions are kept in order', z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n - 1), z3.Select(w.comps[0], x) == z3.Select(A, x)))); impl_kept(E, E.prove, st2, b, ('list',)); deleted(E, E.prove, st2, ())
    E.verify(fn, st.copy(), [b.this, a], end)
def run_imnew(E, fn):
    st = State(); r = E.region('phrase', off(E, 'im_size'), sym=True); c = E.ref('context'); b = Body(); b.reg = r
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        E.prove('a new phrase is not committed', z3.Not(commited(E, st2, b))); E.prove('it belongs to its method', E.enc(E.load(st2, Ptr(r, off(E, 'im_context')), ir.PTR)) == c.off)
        s = E.load(st2, Ptr(r, off(E, 'im_sequence')), ir.PTR); w = E.getvec(st2, Ptr(s.base, add(s.off, off(E, 'as_recorded'))))
        E.prove('it has no action but the closing one', toz(w.n) == 1)
    E.verify(fn, st.copy(), [Ptr(r, 0), c], end)
def run_immocks(E, fn):
    st = State(); b = impl(E, st); r = E.region('into', None, sym=True); p = Ptr(r, 0); v = E.vec(st, p, 8, name='into', hi=MAXN)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        w = E.getvec(st2, p); (x,) = q('x'); n = toz(v.n)
        E.prove('exactly the mock of the method is added', z3.And(toz(w.n) == n + 1, z3.Select(w.comps[0], n) == MOCK(b.ctx.off), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), z3.Select(w.comps[0], x) == z3.Select(v.comps[0], x)))))
    E.verify(fn, st.copy(), [b.this, p], end)
MOCK = z3.Function('MOCK', I, I)
def v_mock(E, st, name, a, inst): r = MOCK(E.enc(a[0])); E.fact(z3.And(r > 0, r < BASE0)); return Ptr(None, r)

# ---- When
def v_commit(E, st, name, a, inst): st.ghost['log'] = st.ghost.get('log', ()) + (('commit', E.enc(a[0])),)
def v_append(E, st, name, a, inst): st.ghost['log'] = st.ghost.get('log', ()) + (('append', E.enc(a[0]), E.enc(a[1])),)
def logis(E, st, want):
    g = st.ghost.get('log', ()); E.prove('the phrase does exactly this: ' + (', '.join(w[0] for w in want) or 'nothing'), z3.BoolVal([x[0] for x in g] == [w[0] for w in want]))
    for x, w in zip(g, want):
        if x[0] == w[0]:
            for y, z in zip(x[1:], w[1:]):
                if z is not None: E.prove('with the right objects', y == z)
def xact(E, st, c):
    """the Xaction part of a context (a virtual base)"""
    return None
def run_scend(E, fn):
    st = State(); r = E.region('change', None, sym=True); x = E.ref('xaction'); st.setcell(r, off(E, 'sc_x'), 8, ir.PTR, x); u = E.int('uncaught', 32); E.fact(u >= 0); st.ghost['_uncaught'] = u
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        if E.sure(u == 0): logis(E, st2, (('commit', x.off),))
        else: E.prove('only a phrase abandoned by an exception is dropped', u > 0); logis(E, st2, ())
    E.verify(fn, st.copy(), [Ptr(r, 0)], end)
def sptr(E, st, name, n=None):
    b = Body(); b.reg = E.region(name, 16, sym=True); b.d, b.rc = E.ref('data'), E.region('count', 4, sym=True, kind='obj'); b.n = n if n is not None else E.int('count', 32)
    st.setcell(b.reg, off(E, 'sp_data'), 8, ir.PTR, b.d); st.setcell(b.reg, off(E, 'sp_ref'), 8, ir.PTR, Ptr(b.rc, 0)); st.setcell(b.rc, 0, 4, ir.I32, b.n); return b
def run_spend(E, fn):
    st = State(); b = sptr(E, st, 'pointer'); E.fact(b.n >= 1)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        d = st2.ghost.get('deleted', ())
        if d: E.prove('the last owner deletes the object, once', z3.And(z3.BoolVal(len(d) == 1), b.n == 1, d[0] == b.d.off)); E.prove('the last owner deletes the counter', z3.BoolVal(b.rc.id in st2.dead))
        else: E.prove('an object with other owners is kept', b.n > 1); E.prove('the number of owners is counted', toz(E.load(st2, Ptr(b.rc, 0), ir.I32)) == b.n - 1)
    E.verify(fn, st.copy(), [Ptr(b.reg, 0)], end)
def run_spcopy(E, fn):
    st = State(); b = sptr(E, st, 'pointer'); E.fact(z3.And(b.n >= 1, b.n < 1 << 30)); r = E.region('copy', 16, sym=True)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        E.prove('the number of owners is counted', toz(E.load(st2, Ptr(b.rc, 0), ir.I32)) == b.n + 1)
        for f, v in (('sp_data', b.d), ('sp_ref', Ptr(b.rc, 0))): E.prove('both own the same object', z3.And(E.enc(E.load(st2, Ptr(r, off(E, f)), ir.PTR)) == E.enc(v), E.enc(E.load(st2, Ptr(b.reg, off(E, f)), ir.PTR)) == E.enc(v)))
        E.prove('nothing is deleted', z3.BoolVal(not st2.ghost.get('deleted')))
    E.verify(fn, st.copy(), [Ptr(r, 0), Ptr(b.reg, 0)], end)
def run_spnew(E, fn):
    st = State(); d = E.ref('data'); r = E.region('pointer', 16, sym=True)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        c = E.load(st2, Ptr(r, off(E, 'sp_ref')), ir.PTR)
        E.prove('a new pointer is the only owner', z3.And(toz(E.load(st2, c, ir.I32)) == 1, E.enc(E.load(st2, Ptr(r, off(E, 'sp_data')), ir.PTR)) == d.off))
    E.verify(fn, st.copy(), [Ptr(r, 0), d], end)
def run_when(kind):
    def run(E, fn):
        st = State(); c = E.ref('context'); a, b = E.ref('action'), E.ref('action2'); st.ghost['_uncaught'] = 0
        def end(st2, out):
            app = lambda x: ('append', None, x.off)
            if kind == 'abandoned' and out[0] == 'throw': return logis(E, st2, (app(a),))
            if out[0] != 'ret': return E.prove('does not throw', False)
            logis(E, st2, (app(a), app(b), ('commit', None)) if kind == 'plain' else (app(a), ('commit', None)))
        E.verify(fn, st.copy(), [c, a] + ([b] if kind == 'plain' else [E.ref('function'), E.ref('argument')] if kind == 'abandoned' else []), end)
    return run
def run_fakeone(E, fn):
    st = State(); f = E.region('functor', None, sym=True); c = E.ref('context')
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        logis(E, st2, (('append', None, None), ('commit', None)))
    E.verify(fn, st.copy(), [Ptr(f, 0), c], end)
def run_finally(E, fn):
    st = State(); r = E.region('finally', 32, sym=True); st.setcell(r, 16, 8, ir.PTR, E.ref('manager')); f = E.ref('function'); st.setcell(r, 24, 8, ir.PTR, f); st.ghost['_allow_terminate'] = True
    E.final = r
    def end(st2, out):
        rr = [x for x in st2.ghost.get('ran', ()) if x[0].eq(f.off)]
        E.prove('the clause runs exactly once', z3.BoolVal(len(rr) == 1))
    E.verify(fn, st.copy(), [Ptr(r, 0)], end)

# ---- making and ending proxies and mocks
def original(E, st):
    b = Body(); b.obj = E.region('object', off(E, 'k_size'), sym=True); b.orig = E.region('original', None, sym=True); st.setcell(b.obj, 0, 8, ir.PTR, Ptr(b.orig, 32))
    for i in range(-4, NSLOT): st.setcell(b.orig, 32 + 8 * i, 8, ir.PTR, Ptr(None, E.int('original%d' % i, lo=1, hi=BASE0 - 1)))
    for i in range(8, off(E, 'k_size')): st.setcell(b.obj, i, 1, ir.I8, E.int('byte%d' % i, 8))
    return b
def attached(E, ok, st, st2, b, reg, o):
    """a new proxy in reg, of the object of b"""
    at = lambda f: o + off(E, f); t = E.load(st2, Ptr(b.obj, 0), ir.PTR)
    ok('the object gets a table of its own', z3.BoolVal(t.base is not None and t.base is not b.orig))
    if t.base is None or t.base is b.orig: return None
    e = lambda i: E.load(st2, Ptr(t.base, t.off + 8 * i), ir.PTR)
    for i in range(NSLOT): ok('every method stays the original one', E.enc(e(i)) == slot(E, st, b.orig, i))
    ok('the handlers of the proxy are reached from the object', E.enc(e(-3)) == E.enc(Ptr(reg, at('p_handlers')))); ok('the object keeps its type', E.enc(e(-1)) == E.enc(E.gptr(st2, ti(E, 'k'))))
    table_same(E, ok, st, st2, b.orig, (), 'original virtual table')
    for f, v in (('p_instance', Ptr(b.obj, 0)), ('p_orig', Ptr(b.orig, 32)), ('p_clone', t)): ok('the proxy knows its object and both tables', E.enc(E.load(st2, Ptr(reg, at(f)), ir.PTR)) == E.enc(v))
    m, of, x = (E.getvec(st2, Ptr(reg, at(f))) for f in ('p_mocks', 'p_offsets', 'p_members'))
    ok('the proxy has a place for every method', z3.And(toz(m.n) == NSLOT, toz(of.n) == NSLOT, toz(x.n) == 0))
    for i in range(NSLOT): ok('no method is stubbed', z3.And(elt(m, i) == 0, elt(of, i) == NONE))
    for f, w in (('ih_mocks', 'p_mocks'), ('ih_offsets', 'p_offsets')): ok('its handlers are found through it', E.enc(E.load(st2, Ptr(reg, at('p_handlers') + off(E, f)), ir.PTR)) == E.enc(Ptr(reg, at(w))))
    return t
def run_pnew(E, fn):
    st = State(); b = original(E, st); p = E.region('proxy', off(E, 'p_size'), sym=True)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        attached(E, E.prove, st, st2, b, p, 0)
        for i in range(8, off(E, 'k_size')): E.prove('the members of the object are kept', toz(E.load(st2, Ptr(b.obj, i), ir.I8)) == toz(E.load(st, Ptr(b.obj, i), ir.I8)))
    E.verify(fn, st.copy(), [Ptr(p, 0), Ptr(b.obj, 0)], end)
def run_pend(E, fn):
    st = State(); b = proxy(E, st); st.setcell(b.obj, 0, 8, ir.PTR, Ptr(b.orig, 32))
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        E.prove('exactly the table of the proxy is released', z3.BoolVal(b.table.id in st2.dead and b.orig.id not in st2.dead and b.obj.id not in st2.dead)); table_same(E, E.prove, st, st2, b.orig, (), 'original virtual table')
        E.prove('the object keeps the original table', E.enc(E.load(st2, Ptr(b.obj, 0), ir.PTR)) == E.enc(Ptr(b.orig, 32)))
    E.verify(fn, st.copy(), [b.this], end)
def run_mireset(owner):
    def run(E, fn):
        st = State(); m = E.region('mock', None, sym=True); b = proxy(E, st, m, off(E, 'mi_proxy')); z = off(E, 'k_size')
        for i in range(8, z): st.setcell(b.obj, i, 1, ir.I8, E.int('byte%d' % i, 8))
        st.setcell(m, off(E, 'mi_owner'), 8, ir.PTR, Ptr(b.obj, 0) if owner else NULL); st.setcell(m, off(E, 'mi_owner') + 8, 8, ir.PTR, E.ref('counts') if owner else NULL)
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            mm, oo, xx = E.getvec(st2, b.pm), E.getvec(st2, b.po), E.getvec(st2, b.px)
            E.prove('the proxy has a place for every method', z3.And(toz(mm.n) == NSLOT, toz(oo.n) == NSLOT)); E.prove('no data member stays stubbed', toz(xx.n) == 0)
            for i in range(NSLOT): E.prove('no method stays stubbed', z3.And(elt(mm, i) == 0, elt(oo, i) == NONE)); E.prove('every method is the original one', slot(E, st2, b.table, i) == slot(E, st, b.orig, i))
            E.prove('the object uses the table of the proxy', E.enc(E.load(st2, Ptr(b.obj, 0), ir.PTR)) == E.enc(Ptr(b.table, 32))); table_same(E, E.prove, st, st2, b.orig, (), 'original virtual table')
            for i in (-3, -2): E.prove('the cookies of the table are kept', slot(E, st2, b.table, i) == slot(E, st, b.table, i))
            for i in range(8, z): E.prove('the members of an owned object are zero' if owner else 'the members of an object of the user are kept', toz(E.load(st2, Ptr(b.obj, i), ir.I8)) == (0 if owner else toz(E.load(st, Ptr(b.obj, i), ir.I8))))
        E.verify(fn, st.copy(), [Ptr(m, 0)], end)
    return run
def run_mispy(E, fn):
    st = State(); b = original(E, st); c = E.ref('context')
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        m = out[1]; attached(E, E.prove, st, st2, b, m.base, m.off + off(E, 'mi_proxy')); E.prove('the object is not owned', E.enc(E.load(st2, Ptr(m.base, m.off + off(E, 'mi_owner')), ir.PTR)) == 0)
        E.prove('the context is kept', E.enc(E.load(st2, Ptr(m.base, m.off + off(E, 'mi_fakeit')), ir.PTR)) == c.off)
        for i in range(8, off(E, 'k_size')): E.prove('the members of the object are kept', toz(E.load(st2, Ptr(b.obj, i), ir.I8)) == toz(E.load(st, Ptr(b.obj, i), ir.I8)))
    E.verify(fn, st.copy(), [c, Ptr(b.obj, 0)], end)
def run_minew(E, fn):
    st = State(); c = E.ref('context'); E.unmocked_ctx = c
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        ok = E.prove; m = out[1]; at = lambda f: Ptr(m.base, m.off + off(E, f)); k = E.load(st2, at('mi_owner'), ir.PTR); z = off(E, 'k_size')
        ok('the mock owns its object', E.enc(E.load(st2, Ptr(m.base, m.off + off(E, 'mi_proxy') + off(E, 'p_instance')), ir.PTR)) == E.enc(k)); ok('the context is kept', E.enc(E.load(st2, at('mi_fakeit'), ir.PTR)) == c.off)
        t = E.load(st2, k, ir.PTR); s = lambda i: E.enc(E.load(st2, Ptr(t.base, t.off + 8 * i), ir.PTR)); o = E.load(st2, Ptr(m.base, m.off + off(E, 'mi_proxy') + off(E, 'p_orig')), ir.PTR)
        ok('its table is not the one it falls back to', z3.BoolVal(o.base is not t.base))
        for w, i in SLOTS.items():
            if w != 'dtor': ok('every method is unmocked at first', s(i) == fnaddr(E, r'MockImpl<K>::unmocked\(\)$'))
        d = SLOTS['dtor']; ok('the destructor does nothing at first', z3.And(s(d) == fnaddr(E, r'MockImpl<K>::unmockedDtor\(\)$'), s(d + 1) == fnaddr(E, r'VirtualTable<K>::dtor\(int\)$')))
        ok('the handlers of the mock are reached from the object', s(-3) == E.enc(Ptr(m.base, m.off + off(E, 'mi_proxy') + off(E, 'p_handlers'))))
        for i in range(8, z): ok('every byte of the members is zero', toz(E.load(st2, Ptr(k.base, add(k.off, i)), ir.I8)) == 0)
    E.verify(fn, st, [c], end)
def run_miend(E, fn):
    st = State(); m = E.region('mock', None, sym=True); b = proxy(E, st, m, off(E, 'mi_proxy')); mockvptr(E, st, m)
    st.setcell(m, off(E, 'mi_owner'), 8, ir.PTR, NULL); st.setcell(m, off(E, 'mi_owner') + 8, 8, ir.PTR, NULL)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        E.prove('the object gets its original table back', E.enc(E.load(st2, Ptr(b.obj, 0), ir.PTR)) == E.enc(Ptr(b.orig, 32))); table_same(E, E.prove, st, st2, b.orig, (), 'original virtual table')
        E.prove('the table of the proxy is released, the object is not', z3.BoolVal(b.table.id in st2.dead and b.orig.id not in st2.dead and b.obj.id not in st2.dead))
    E.verify(fn, st.copy(), [Ptr(m, 0)], end)

# ---- data members
def run_member(w, size):
    def run(E, fn):
        st = State(); b = proxy(E, st); z = off(E, 'k_size'); o = off(E, 'k_' + w); v = E.int('value', 8 * size); r = E.region('value', size, sym=True); st.setcell(r, 0, size, ('int', 8 * size), v)
        for i in range(8, z):
            if not o <= i < o + size: st.setcell(b.obj, i, 1, ir.I8, E.int('byte%d' % i, 8))
        st.setcell(b.obj, o, size, ('int', 8 * size), E.int('old', 8 * size)); mem = Ptr(b.obj, o); A = b.x.comps[0]; n = toz(b.x.n); me = E.enc(mem); E.ctx = (A, me, b); (x, y) = q('x', 'y')
        E.fact(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x < y, y < n, z3.Select(A, x) == me), z3.Select(A, y) != me)))
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            E.prove('the member gets the value', toz(E.load(st2, mem, ('int', 8 * size))) == v)
            for i in range(8, z):
                if not o <= i < o + size: E.prove('the other bytes of the object are kept', toz(E.load(st2, Ptr(b.obj, i), ir.I8)) == toz(E.load(st, Ptr(b.obj, i), ir.I8)))
            w2 = E.getvec(st2, b.px); nn = toz(w2.n); B2 = w2.comps[0]
            E.prove('the member is remembered, once', z3.And(nn >= 1, z3.Select(B2, nn - 1) == me, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < nn - 1), z3.Select(B2, x) != me))))
            E.prove('at most the former entry of the member is forgotten', z3.Or(nn == n + 1, nn == n)); proxy_kept(E, E.prove, st, st2, b)
        E.verify(fn, st.copy(), [b.this, Ptr(r, 0)], end)
    return run
def member_hints(E, st0):
    A, me, b = E.ctx
    def none(st, k):
        (x,) = q('x'); return z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < k), z3.Select(A, x) != me), patterns=[z3.Select(A, x)])
    return {'invs': [('none of the first k is the member', none), ('k within the list', lambda st, k: k <= toz(b.x.n))]}

# ---- what a phrase reaches of its method
def run_assign(E, fn):
    st = State(); b = impl(E, st); f = E.ref('function'); n = toz(b.r.n); E.fact(z3.Not(b.com))      # a phrase is used for one stubbing
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        c = st2.ghost.get('added', ()); E.prove('exactly one stubbing is added', z3.BoolVal(len(c) == 1))
        if len(c) == 1: E.prove('with the criteria and the actions of the phrase', z3.And(*[x == E.enc(y) for x, y in zip(c[0], (b.ctx, b.m, b.s))]))
        E.prove('the phrase is committed', commited(E, st2, b)); w = E.getvec(st2, b.pr); (x,) = q('x'); A = b.r.comps[0]
        E.prove('one action is added before the closing one', z3.And(toz(w.n) == n + 1, z3.Select(w.comps[0], n) == z3.Select(A, n - 1), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n - 1), z3.Select(w.comps[0], x) == z3.Select(A, x)))))
        E.prove('nothing is called', z3.BoolVal(not st2.ghost.get('ran'))); impl_kept(E, E.prove, st2, b, ('commited', 'list')); deleted(E, E.prove, st2, ())
    E.verify(fn, st.copy(), [b.this, f], end)
def contextf(E, st):
    """the context of f of a mock whose f is bound to a body"""
    m = E.region('mock', None, sym=True); b = proxy(E, st, m, off(E, 'mi_proxy')); mockvptr(E, st, m); ty = ti(E, 'rb_f'); e = elt(b.m, SLOTS['f']); E.fact(z3.And(e > 0, e < BASE0, stdmodels.isa_fn(ty)(e), stdmodels.view_fn(ty)(e) > 0, stdmodels.view_fn(ty)(e) < BASE0))
    b.body = stdmodels.view_fn(ty)(e); c = E.region('method', off(E, 'cx_size'), sym=True); b.c = Ptr(c, 0); b.mock = m
    vt = E.dem_inv.get('vtable for fakeit::MockImpl<K>::UniqueMethodMockingContextImpl<6, int, int>') if hasattr(E, 'dem_inv') else next((g for g in E.m.globals if g.startswith('_ZTV') and 'UniqueMethodMockingContextImplILi6E' in g), None)
    if vt is None: raise Unsupported('virtual table of the context')
    st.setcell(c, 0, 8, ir.PTR, Ptr(E.gptr(st, vt).base, 16)); st.setcell(c, off(E, 'cx_mock'), 8, ir.PTR, Ptr(m, 0)); st.setcell(c, off(E, 'cx_method'), 8, ('int', 64), 1 + 8 * SLOTS['f']); st.setcell(c, off(E, 'cx_method') + 8, 8, ('int', 64), 0)
    return b
RB = {}
def rb(kind):
    def f(E, st, name, a, inst):
        st.ghost['body'] = st.ghost.get('body', ()) + ((kind, tuple(E.enc(x) for x in a)),)
        return E.bool('is_of') if kind == 'is' else None
    return f
def run_cx(kind):
    def run(E, fn):
        st = State(); b = contextf(E, st); args = [E.ref('arg%d' % i) for i in range({'add': 2, 'is': 1, 'scan': 1}[kind])]
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            g = st2.ghost.get('body', ()); E.prove('exactly the body of the method is asked', z3.BoolVal(len(g) == 1 and g[0][0] == kind))
            if len(g) == 1: E.prove('exactly the body of the method is asked', z3.And(g[0][1][0] == b.body, *[x == y.off for x, y in zip(g[0][1][1:], args)]))
            proxy_kept(E, E.prove, st, st2, b)
        E.verify(fn, st.copy(), [b.c] + args, end)
    return run

VIRT = [VContract(r'MethodInvocationHandler<.*>::handleMethodInvocation\(', v_handle, 'MethodInvocationHandler::handleMethodInvocation runs user code (interface contract; RecordedMethodBody is verified in group record)'),
        VContract(r'getInvocatoinHandlerPtrById\(', v_byid, 'the collection of a mock is an InvocationHandlers (data structure invariant, established by the constructor of DynamicProxy)'),
        VContract(r'::getActualInvocations\(', v_history, 'ActualInvocationsSource::getActualInvocations adds the history of the source (interface contract; RecordedMethodBody is verified in group record)'),
        VContract(r'ActualInvocationsContainer::clear\(', v_clear, 'ActualInvocationsContainer::clear forgets the history of the container (interface contract; RecordedMethodBody is verified in group record)'),
        VContract(r'Context::isOfMethod\(', v_of, 'Context::isOfMethod is a function of (context, method) (interface contract)'), VContract(r'Matcher::matches\(', v_match, 'ActualInvocation::Matcher::matches is a function of (matcher, call) (interface contract)'),
        VContract(r'Context::addMethodInvocationHandler\(', v_note('added'), 'Context::addMethodInvocationHandler stores a stubbing (interface contract; RecordedMethodBody is verified in group record)'),
        VContract(r'Context::scanActualInvocations\(', v_scan, 'Context::scanActualInvocations calls the scanner once for every recorded call (interface contract; RecordedMethodBody is verified in group record)'),
        VContract(r'Context::getInvolvedMock\(', v_mock, 'Context::getInvolvedMock is a function of the context (interface contract)'),
        VContract(r'::commit\(', v_commit, 'Xaction::commit (interface contract; verified as commit of a phrase)'), VContract(r'::appendAction\(', v_append, 'StubbingContext::appendAction (interface contract; verified as append of a phrase)'),
        VContract(r'FakeitContext::handle\(|EventHandler::handle\(', v_event, 'EventHandler::handle is user code: may return or throw (interface contract; FakeitContext::handle is verified in group record)'),
        VContract(r'FakeitContext::format\(|EventFormatter::format\(', v_format, 'EventFormatter::format returns a text (interface contract)'),
        Contract(r'^fakeit::RecordedMethodBody<int, int>::addMethodInvocationHandler\(', rb('add'), 'verified in group record'), Contract(r'^fakeit::RecordedMethodBody<int, int>::scanActualInvocations\(', rb('scan'), 'verified in group record'), Contract(r'^fakeit::RecordedMethodBody<int, int>::isOfMethod\(', rb('is'), 'verified in group record'),
        Contract(r'^fakeit::MockImpl<K>::unmockedContext\(', lambda E, st, name, a, inst: E.unmocked_ctx, 'unmockedContext gives the context of the first owned mock of the class'),
        PContract(fp_call, 'functions of the user: may return or throw'),
        VContract(r'::~|Destructible::~', v_delete, 'destructors')]
SPECS = [one('handler by id', 'ih_get', ['C01', 'C08', 'C12'], run_ihget, 'a handler is found by its id', ihget_hints),
         one('no handler at first', 'ih_new', ['C01', 'C12'], run_ihnew, 'no id is bound at first', ihnew_hints)]
SPECS += [one('stub ' + w, 'p_stub_' + w, ['C01', 'C12'], run_stub(w), 'binds the handler to this method only') for w in SLOTS]
SPECS += [one('is stubbed ' + w, 'p_bound_' + w, ['C01'], run_bound(w, False), 'has a handler') for w in SLOTS]
SPECS += [one('mock of ' + w, 'p_mock_' + w, ['C01'], run_bound(w, True), 'the handler') for w in SLOTS]
SPECS += [one('proxy get', 'p_get', ['C12'], run_get, 'the object'), one('detach', 'p_detach', ['C12'], run_detach, 'the object is as it was before'), one('proxy reset', 'p_reset', ['C09'], run_reset, 'nothing is stubbed')]
SPECS += [one('stub all', 'p_stub_all', ['C01', 'C12'], run_stuball, 'every method has its own handler')]
SPECS += [one('through ' + w, 'call_' + w, ['C01', 'C08', 'C12'], run_through(w, ws), 'a call reaches the handler of its method') for w, ws in (('f', [32]), ('g', []), ('h', [32, 64, 32]), ('dtor', []))]
SPECS += [Spec('all ' + t + 's', r'^void fakeit::DynamicProxy<K>::getMethodMocks<fakeit::ActualInvocations%s\*>\(' % n, p, run_mocks(t), 'every handler of the kind', c_mocks(t), mocks_hints) for t, n, p in (('source', 'Source', ['C05']), ('container', 'Container', ['C10']))]
SPECS += [one('history of a mock', 'mi_history', ['C05', 'C04'], run_allhist, 'the calls of all its methods', allhist_hints), one('clear history of a mock', 'mi_clear', ['C10'], run_allclear, 'of all its methods', allclear_hints)]
CALLS = (('f', [32]), ('g', []), ('h', [32, 64, 32]))
SPECS += [one('swap ' + w, 'swap_' + w, ['C11', 'C12'], run_swap(w), 'the original method for a while') for w in ('f', 'h')]
SPECS += [one(n + ' ' + w, n + '_' + w, ['C11', 'C12'], run_spied(w, ws), 'runs the original method') for n in ('spied', 'forwarded') for w, ws in CALLS]
SPECS += [one('body of ' + w, 'body_' + w, ['C01', 'C15'] if w != 'dtor' else ['C01', 'C12', 'C15'], run_body(w, 'g' if w == 'dtor' else w), 'made when needed') for w in SLOTS]
SPECS += [one('new object', 'fo_new', ['C17'], run_zero(True), 'all members are zero'), one('clear members', 'fo_clear', ['C17', 'C09'], run_zero(False), 'all members are zero'), one('new fake', 'fake_new', ['C19', 'C17'], run_fake, 'nothing is mocked'),
          one('unmocked', 'mi_unmocked', ['C19'], run_unmocked, 'an unmocked method reports it'), one('deleting destructor', 'vt_deldtor', ['C12'], run_deldtor, 'runs the stubbed destructor')]
SPECS += [one('phrase matches', 'im_matches', ['C05', 'C03'], run_immatch, 'the calls of its method that its criteria accept'), one('phrase history', 'im_history', ['C05'], run_imhist, 'the calls its criteria accept'),
          one('phrase commit', 'im_commit', ['C15'], run_imcommit, 'adds one stubbing'), one('phrase end', 'im_end', ['C15'], run_imend, 'deletes what it owns'), one('phrase criteria', 'im_setmatcher', ['C15', 'C07'], run_imset, 'replaces the criteria'),
          one('phrase append', 'im_append', ['C02'], run_imappend, 'adds an action'), one('new phrase', 'im_new', ['C15'], run_imnew, 'empty'), one('phrase mocks', 'im_mocks', ['C05', 'C06'], run_immocks, 'the mock of its method')]
SPECS += [one('stubbing change end', 'sc_end', ['C15'], run_scend, 'commits unless abandoned'), one('smart_ptr end', 'sp_end', ['C15'], run_spend, 'the last owner deletes'), one('smart_ptr copy', 'sp_copy', ['C15'], run_spcopy, 'one more owner'), one('smart_ptr new', 'sp_new', ['C15'], run_spnew, 'one owner')]
SPECS += [one('When ' + k, 'when_' + k, ['C15', 'C02'], run_when(k), 'takes effect once') for k in ('plain', 'copied', 'abandoned')] + [one('Fake', 'fake_one', ['C15', 'C19'], run_fakeone, 'takes effect once'), one('Finally', 'fin_end', ['C11'], run_finally, 'runs the clause')]
SPECS += [one('new proxy', 'p_new', ['C12'], run_pnew, 'attaches, changes nothing'), one('proxy end', 'p_end', ['C12'], run_pend, 'releases the table'), one('reset of an owned mock', 'mi_reset', ['C09'], run_mireset(True), 'like new'), one('reset of a mock of an object', 'mi_reset', ['C09'], run_mireset(False), 'like new'),
          one('new mock of an object', 'mi_spy', ['C12', 'C11'], run_mispy, 'changes nothing'), one('new mock', 'mi_new', ['C19', 'C17'], run_minew, 'nothing is mocked'), one('mock end', 'mi_end', ['C12'], run_miend, 'the object is as before')]
SPECS += [one('stub member ' + w, 'member_' + w, ['C17'], run_member(w, z), 'only the member is set', member_hints) for w, z in (('x', 4), ('y', 8))]
SPECS += [one('assigned body', 'im_assign', ['C15', 'C02'], run_assign, 'adds one stubbing')] + [one('context ' + n, 'cx_%s_f' % n, p, run_cx(k), 'asks the body of its method') for n, k, p in (('add', 'add', ['C01', 'C15']), ('of', 'is', ['C03', 'C05']), ('scan', 'scan', ['C05']))]
GROUP = Group('mock', 'mock.cpp', SPECS, VIRT)
