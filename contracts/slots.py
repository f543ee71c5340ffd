"""Contracts of the tables of the largest supported size: every one of its 1000 places."""
import z3, ir
from engine import *
from spec import Group, off
from stdmodels import PContract
from record import one, Body
from mock import fp_call, ran_once, elt
N = 1000; D = 500          # places of the class Inside; its destructor
SAMPLE = [0, 1, 7, 31, 32, 63, 64, 65, 99, 100, 127, 128, 255, 256, 257, 499, 502, 511, 512, 513, 767, 768, 998, 999]
def ptr(s): return [1 + 8 * s, 0]          # how a pointer to the virtual method at place s is represented
def table(E, st, name):
    r = E.region(name, 8 * (N + 4), sym=True)
    for i in range(-4, N): st.setcell(r, 32 + 8 * i, 8, ir.PTR, Ptr(None, E.int('%s%d' % (name, i), lo=1, hi=BASE0 - 1)))
    return r
def slot(E, st, r, i): return E.enc(E.load(st, Ptr(r, 32 + 8 * i), ir.PTR))
def at(r, i=0): return Ptr(r, 32 + 8 * i)
def holder(E, st, r, name):
    h = E.region(name, 8, sym=True); st.setcell(h, 0, 8, ir.PTR, at(r)); return h
def entries(E, st, st2, r, want, what):
    """every place holds want(i); None: what it held before"""
    bad = []
    for i in range(-4, N):
        w = want(i); a = slot(E, st2, r, i); b = slot(E, st, r, i) if w is None else w
        if not z3.eq(toz(a), toz(b)): bad.append((i, toz(a) == toz(b)))
    if not bad: E.prove(what, z3.BoolVal(True))
    for i, c in bad[:20]: E.prove(what + ': place %d' % i, c)
def run_each(slots, f):
    def run(E, fn):
        for s in slots: f(E, fn, s)
    return run
def of(E, fn, s):
    def end(st2, out): E.prove('the place of the method %d' % s, toz(out[1]) == s if out[0] == 'ret' else False)
    E.verify(fn, State(), ptr(s), end)
def value(v):
    def run(E, fn):
        def end(st2, out): E.prove('the place is %d' % v, toz(out[1]) == v if out[0] == 'ret' else False)
        E.verify(fn, State(), [], end)
    return run
def run_copy(E, fn):
    st = State(); t, f = table(E, st, 'table'), table(E, st, 'from'); a, b = holder(E, st, t, 'a'), holder(E, st, f, 'b')
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        entries(E, st, st2, t, lambda i: slot(E, st, f, i) if i >= 0 else None, 'every method is copied, nothing else'); entries(E, st, st2, f, lambda i: None, 'the other table is kept')
    E.verify(fn, st.copy(), [Ptr(a, 0), Ptr(b, 0)], end)
def run_init(E, fn):
    st = State(); t = table(E, st, 'table'); a = holder(E, st, t, 'a'); p = E.ref('method')
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        entries(E, st, st2, t, lambda i: E.enc(p) if i >= 0 else None, 'every method is set, nothing else')
    E.verify(fn, st.copy(), [Ptr(a, 0), p], end)
def run_setdtor(E, fn):
    st = State(); t = table(E, st, 'table'); a = holder(E, st, t, 'a'); p = E.ref('method')
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        entries(E, st, st2, t, lambda i: E.enc(p) if i == D else slot(E, st2, t, i) if i == D + 1 else None, 'the destructor is set, nothing else'); E.prove('the deleting destructor is replaced', slot(E, st2, t, D + 1) != slot(E, st, t, D + 1))
    E.verify(fn, st.copy(), [Ptr(a, 0), p], end)
def setm(E, fn, s):
    st = State(); t = table(E, st, 'table'); a = holder(E, st, t, 'a'); p = E.ref('method')
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        entries(E, st, st2, t, lambda i: E.enc(p) if i == s else None, 'the method is set, nothing else')
    E.verify(fn, st.copy(), [Ptr(a, 0), s, p], end)
def getm(E, fn, s):
    st = State(); t = table(E, st, 'table'); a = holder(E, st, t, 'a')
    def end(st2, out): E.prove('the entry of the place %d' % s, E.enc(out[1]) == slot(E, st, t, s) if out[0] == 'ret' else False)
    E.verify(fn, st.copy(), [Ptr(a, 0), s], end)
def proxy(E, st):
    b = Body(); b.reg = E.region('proxy', None, sym=True); b.this = Ptr(b.reg, 0); b.obj = E.region('object', 8, sym=True); b.table = table(E, st, 'table'); b.orig = table(E, st, 'original'); f = lambda n: off(E, n)
    st.setcell(b.reg, f('p_instance'), 8, ir.PTR, Ptr(b.obj, 0)); st.setcell(b.reg, f('p_orig'), 8, ir.PTR, at(b.orig)); st.setcell(b.reg, f('p_clone'), 8, ir.PTR, at(b.table)); st.setcell(b.obj, 0, 8, ir.PTR, at(b.table))
    b.pm = Ptr(b.reg, f('p_mocks')); b.po = Ptr(b.reg, f('p_offsets')); b.m = E.vec(st, b.pm, 16, n=N, name='mocks'); b.off = E.vec(st, b.po, 4, n=N, name='offsets')
    return b
def others(E, b, st, st2, s):
    m, o = E.getvec(st2, b.pm), E.getvec(st2, b.po); x = E.int('other')
    E.prove('the other methods stay as they are', z3.And(toz(m.n) == N, toz(o.n) == N, z3.Implies(z3.And(x >= 0, x < N, x != s), z3.And(elt(m, x) == elt(b.m, x), elt(o, x) == elt(b.off, x)))))
    entries(E, st, st2, b.orig, lambda i: None, 'the original table is kept'); E.prove('the object uses the table of the proxy', E.enc(E.load(st2, Ptr(b.obj, 0), ir.PTR)) == E.enc(at(b.table)))
def ident(E, st, b, s):
    """the id of the proxy function at the place"""
    import re
    p = E.load(st, at(b.table, s), ir.PTR); d = E.dem.get(p.base.name, '') if isinstance(p, Ptr) and p.base is not None and p.base.kind == 'fn' else ''
    g = re.search(r'MethodProxyCreator<int, int>::methodProxyX<(\d+)u?>\(', d); E.prove('calls of the method reach a proxy function of its signature', z3.BoolVal(g is not None)); return int(g.group(1)) if g else None
def run_ids(E, fn):
    st = State(); b = proxy(E, st); hs = [E.ref('handler%d' % i) for i in range(4)]
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        m, o = E.getvec(st2, b.pm), E.getvec(st2, b.po); ids = [ident(E, st2, b, s) for s in range(4)]
        for s in range(4): E.prove('every handler is bound to its method', elt(m, s) == hs[s].off); E.prove('it is found by the id of the proxy function', toz(elt(o, s)) == ids[s] if ids[s] is not None else False)
        E.prove('different phrases give different ids', z3.BoolVal(len(set(ids)) == 4 and 0 not in ids))
    E.verify(fn, st.copy(), [b.this] + hs, end)
def stub(E, fn, s):
    st = State(); b = proxy(E, st); h = E.ref('handler')
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        g = ident(E, st2, b, s)
        m, o = E.getvec(st2, b.pm), E.getvec(st2, b.po); E.prove('the handler is bound to the method', elt(m, s) == h.off)
        if g is not None: E.prove('it is found by the id of the proxy function', elt(o, s) == g)
        entries(E, st, st2, b.table, lambda i: slot(E, st2, b.table, i) if i == s else None, 'the other entries of the table are kept'); others(E, b, st, st2, s)
    E.verify(fn, st.copy(), [b.this] + ptr(s) + [h], end)
def bound(mock):
    def f(E, fn, s):
        st = State(); b = proxy(E, st)
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            e = elt(b.m, s)
            E.prove('the handler of the method', E.enc(out[1]) == e) if mock else E.prove('a method is stubbed exactly when it has a handler', b2z(out[1]) == (e != 0))
        E.verify(fn, st.copy(), [b.this] + ptr(s), end)
    return f
def swap(E, fn, s):
    st = State(); b = proxy(E, st); f, x = E.ref('function'), E.ref('argument')
    def end(st2, out):
        r = ran_once(E, st2, out)
        if r is None: return
        E.prove('meanwhile calls of the method reach the original one', slot(E, r[2], b.table, s) == slot(E, st, b.orig, s))
        entries(E, st, r[2], b.table, lambda i: slot(E, r[2], b.table, i) if i == s else None, 'meanwhile the other entries are kept'); entries(E, st, st2, b.table, lambda i: None, 'afterwards the table is as before')
    E.verify(fn, st.copy(), [b.this] + ptr(s) + [f, x], end)
SPECS = [one('place of a method', 'slot_of', ['C12', 'C01', 'C11'], run_each(range(N), of), 'every place of the table')]
SPECS += [one('destructor ' + w, 'dtor_' + w, ['C12'], value(v), 'the place of the destructor') for w, v in (('first', 0), ('inside', D), ('last', N - 2))]
SPECS += [one('size ' + w, 'size_' + w, ['C12', 'C19'], value(v), 'the number of places') for w, v in (('first', N), ('inside', N), ('last', N), ('hundred', 100))]
SPECS += [one('copy a table', 'copy_from', ['C12', 'C09', 'C11'], run_copy, 'every method'), one('fill a table', 'init_all', ['C19'], run_init, 'every method'), one('set the destructor', 'set_dtor', ['C12'], run_setdtor, 'only the destructor'),
          one('set an entry', 'set_method', ['C12'], run_each(SAMPLE, setm), 'only this entry'), one('get an entry', 'get_method', ['C12'], run_each(SAMPLE, getm), 'the entry')]
SPECS += [one('ids of phrases', 'stub_ids', ['C12', 'C01'], run_ids, 'no two share an id')]
SPECS += [one('stub at', 'stub_at', ['C12', 'C01'], run_each(SAMPLE, stub), 'binds the handler to this method only'), one('stubbed at', 'bound_at', ['C12'], run_each(SAMPLE[::2], bound(False)), 'has a handler'), one('mock at', 'mock_at', ['C12'], run_each(SAMPLE[::2], bound(True)), 'the handler'), one('swap at', 'swap_at', ['C11', 'C12'], run_each(SAMPLE[::2] + [999], swap), 'the original method for a while')]
GROUP = Group('slots', 'slots.cpp', SPECS, [PContract(fp_call, 'functions of the user: may return or throw')])
