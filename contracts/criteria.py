"""Contracts of what a call is compared with: the criteria of stubbing and verification phrases."""
import z3, ir
from engine import *
from spec import Spec, Group, off
from stdmodels import VContract, PContract
import stdmodels
from record import one, ti, snap
from verify import q
I = z3.IntSort(); B = z3.BoolSort(); MAXN = 1 << 28; I64 = ('int', 64)
ACC = {'int': z3.Function('accepts_int', I, I, B), 'long': z3.Function('accepts_long', I, I, B)}   # the matcher accepts the value

# ---- interface contracts
def v_accepts(E, st, name, a, inst):
    if E.sure(E.enc(a[1]) == E.enc(E.subject.where)): w = 'int'
    elif E.sure(E.enc(a[1]) == E.enc(E.subject.where2)): w = 'long'
    else: raise Unsupported('a matcher is asked about something else than an argument')
    return ACC[w](E.enc(a[0]), toz(E.load(st, a[1], ir.I32 if w == 'int' else I64)))
def v_delete(E, st, name, a, inst):
    x = E.enc(a[0])
    if 'count' in st.ghost: st.ghost['count'] = z3.Store(st.ghost['count'], x, z3.Select(st.ghost['count'], x) + 1); st.ghost['logn'] = toz(st.ghost['logn']) + 1
    else: st.ghost['deleted'] = st.ghost.get('deleted', ()) + (x,)
def fn_user(E, st, name, a, inst):
    """a function of the user, held by a std::function"""
    res = E.fresh(inst.ty, 'result'); ex = Exc(None, E.ref('exc'))
    def note(s2, how, x=None): s2.ghost['ran'] = s2.ghost.get('ran', ()) + ((E.enc(st.ghost['_callee']), a, snap(E, s2), how, res, x),)
    return Alts([Alt([], lambda s2: note(s2, 'ret'), ret=res), Alt([], lambda s2: note(s2, 'exc', ex), throw=ex)])

class Call: pass
def call(E, st, p='ai'):
    """a recorded call with arbitrary arguments, accepted by an arbitrary matcher"""
    c = Call(); c.reg = E.region('call', off(E, p + '_size'), sym=True); c.this = Ptr(c.reg, 0); c.by = E.int('accepted_by', lo=0, hi=BASE0 - 1)
    st.setcell(c.reg, off(E, p + '_accepted'), 8, ir.PTR, Ptr(None, c.by))
    f = E.m.func(p + '_first'); c.first, c.second = E.int('first', 32), E.int('second', 64); o = off(E, p + '_args')
    # libstdc++ lays the elements of a tuple out last first (checked by the specifications "where the arguments are")
    if p == 'air': r = E.region('argument', 4, sym=True); c.where = Ptr(r, 0); st.setcell(r, 0, 4, ir.I32, c.first); st.setcell(c.reg, o + 8, 8, ir.PTR, c.where)
    else: c.where = Ptr(c.reg, o + 8); st.setcell(c.reg, o + 8, 4, ir.I32, c.first)
    c.where2 = Ptr(c.reg, o); st.setcell(c.reg, o, 8, I64, c.second)
    E.subject = c; return c
def kept(E, st, c, p='ai', same=z3.BoolVal(False)):
    E.prove('the call is not changed', z3.And(z3.Or(same, E.enc(E.load(st, Ptr(c.reg, off(E, p + '_accepted')), ir.PTR)) == c.by), toz(E.load(st, c.where, ir.I32)) == c.first, toz(E.load(st, c.where2, I64)) == c.second))
def run_where(p):
    def run(E, fn):
        st = State(); c = call(E, st, p[0])
        def end(st2, out): E.prove('where the argument is', E.enc(out[1]) == E.enc(c.where if p[1] == 1 else c.where2))
        E.verify(fn, st.copy(), [c.this], end)
    return run
def matchers(E, st, b, o, name='matchers'):
    b.p = Ptr(b.reg, o); b.v = E.vec(st, b.p, 8, name=name, hi=MAXN)
def run_am(p, pc):
    def run(E, fn):
        st = State(); c = call(E, st, pc); b = Call(); b.reg = E.region('list', 24, sym=True); matchers(E, st, b, 0); E.fact(toz(b.v.n) == 2); same = E.bool('same')
        m = [z3.Select(b.v.comps[0], i) for i in (0, 1)]; ty = [ti(E, 'ti'), ti(E, 'tl')]
        E.fact(z3.And(*[z3.And(x > 0, x < BASE0, stdmodels.isa_fn(t)(x), stdmodels.view_fn(t)(x) > 0, stdmodels.view_fn(t)(x) < BASE0) for x, t in zip(m, ty)]))
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            w = z3.And(ACC['int'](stdmodels.view_fn(ty[0])(m[0]), c.first), ACC['long'](stdmodels.view_fn(ty[1])(m[1]), c.second))
            E.prove('the call matches exactly when it was accepted by these criteria or every matcher accepts its argument', b2z(out[1]) == z3.Or(same, w)); kept(E, st2, c, pc, same)
        E.verify(fn, st.copy(), [Ptr(b.reg, 0), same, c.this], end)
    return run
def asked(E, st2, out, c, f, by, pc='ai'):
    r = st2.ghost.get('ran', ())
    if len(r) == 0: E.prove('only a call accepted by these criteria matches without asking the function', by); E.prove('it matches', z3.BoolVal(out[0] == 'ret') if out[0] != 'ret' else b2z(out[1]))
    else:
        E.prove('the function is asked once', z3.BoolVal(len(r) == 1)); who, a, s1, how, res, ex = r[0]
        E.prove('the function of the phrase is asked', who == f.off); E.prove('it gets the arguments of the call', z3.And(E.enc(a[0]) == E.enc(c.where), E.enc(a[1]) == E.enc(c.where2), toz(E.load(s1, c.where, ir.I32)) == c.first, toz(E.load(s1, c.where2, I64)) == c.second))
        if how == 'exc': E.prove('what it threw leaves', z3.BoolVal(out[0] == 'throw' and out[1] is ex))
        else: E.prove('its answer is the answer', z3.BoolVal(False) if out[0] != 'ret' else b2z(out[1]) == b2z(res))
def run_um(p, pc):
    def run(E, fn):
        st = State(); c = call(E, st, pc); f, same = E.ref('function'), E.bool('same')
        E.verify(fn, st.copy(), [f, same, c.this], lambda st2, out: asked(E, st2, out, c, f, same, pc))
    return run
def run_dm(E, fn):
    st = State(); c = call(E, st); same = E.bool('same')
    def end(st2, out): E.prove('every call matches', z3.BoolVal(False) if out[0] != 'ret' else b2z(out[1])); kept(E, st2, c, 'ai', same)
    E.verify(fn, st.copy(), [same, c.this], end)
def end_hints(E, st0):
    v = E.ctx
    def part(n, lo):
        def f(st, k):
            (x,) = q('x'); g = st.ghost['count']; e = z3.Select(v.comps[0], x)
            return z3.ForAll([x], z3.Implies(z3.And(x >= (0 if lo else k), x < (k if lo else toz(v.n))), z3.Select(g, e) == n), patterns=[e])
        return f
    return {'invs': [('the first k are deleted', part(1, True)), ('the others are not', part(0, False)), ('k deletions', lambda st, k: toz(st.ghost['logn']) == k), ('k within the list', lambda st, k: k <= toz(v.n))]}
def run_amend(E, fn):
    st = State(); b = Call(); b.reg = E.region('criteria', off(E, 'am_size'), sym=True); matchers(E, st, b, off(E, 'am_matchers')); E.ctx = b.v
    x, y = q('x', 'y'); e, e2 = z3.Select(b.v.comps[0], x), z3.Select(b.v.comps[0], y); n = toz(b.v.n)
    E.fact(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), z3.And(e > 0, e < BASE0)), patterns=[e])); E.fact(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x < n, y >= 0, y < n, x != y), e != e2), patterns=[z3.MultiPattern(e, e2)]))
    st.ghost['count'] = z3.K(I, z3.IntVal(0)); st.ghost['logn'] = z3.IntVal(0)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        E.prove('as many objects are deleted as there are matchers', toz(st2.ghost['logn']) == n)
        E.prove('every matcher is deleted once', z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), z3.Select(st2.ghost['count'], e) == 1)))
    E.verify(fn, st.copy(), [Ptr(b.reg, 0)], end)
def run_amnew(E, fn):
    st = State(); r = E.region('criteria', off(E, 'am_size'), sym=True); s = E.region('list', 24, sym=True); v = E.vec(st, Ptr(s, 0), 8, name='matchers', hi=MAXN)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        w = E.getvec(st2, Ptr(r, off(E, 'am_matchers'))); (x,) = q('x')
        E.prove('the criteria are these matchers, in this order', z3.And(toz(w.n) == toz(v.n), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(v.n)), z3.Select(w.comps[0], x) == z3.Select(v.comps[0], x)))))
    E.verify(fn, st.copy(), [Ptr(r, 0), Ptr(s, 0)], end)

# ---- the criteria given by phrases
def phrase(E, st, o='mm_impl'):
    b = Call(); b.c = E.region('phrase', off(E, 'mm_size'), sym=True); b.i = E.region('state', off(E, 'im_size'), sym=True); b.old, b.ctx, b.seq = E.ref('criteria'), E.ref('context'), E.ref('actions')
    st.setcell(b.c, off(E, o), 8, ir.PTR, Ptr(b.i, 0)); st.setcell(b.i, off(E, 'im_matcher'), 8, ir.PTR, b.old); st.setcell(b.i, off(E, 'im_context'), 8, ir.PTR, b.ctx); st.setcell(b.i, off(E, 'im_sequence'), 8, ir.PTR, b.seq)
    b.com = E.int('commited', lo=0, hi=1); st.setcell(b.i, off(E, 'im_commited'), 1, ir.I8, b.com); return b
def changed(E, st2, b):
    d = st2.ghost.get('deleted', ()); E.prove('the former criteria are deleted, once', z3.BoolVal(len(d) == 1) if len(d) != 1 else d[0] == b.old.off)
    for f, x in (('context', b.ctx), ('sequence', b.seq)): E.prove('the %s of the phrase is kept' % f, E.enc(E.load(st2, Ptr(b.i, off(E, 'im_' + f)), ir.PTR)) == x.off)
    E.prove('the phrase is not committed by this', toz(E.load(st2, Ptr(b.i, off(E, 'im_commited')), ir.I8)) == b.com)
def run_use(w, byref=False, o='mm_impl'):
    def run(E, fn):
        st = State(); c = call(E, st); b = phrase(E, st, o); a = [E.int('a', 32), E.int('b', 64)]; args = list(a)
        if byref:
            args = []
            for n, x, z, t in (('a', a[0], 4, ir.I32), ('b', a[1], 8, I64)): r = E.region(n, z, sym=True); st.setcell(r, 0, z, t, x); args.append(Ptr(r, 0))
        def end(st2, out):
            if out[0] != 'ret': return E.prove('does not throw', False)
            E.prove('a call matches exactly when its arguments are as the phrase says', b2z(out[1]) == w(c.first, c.second, *a)); changed(E, st2, b); kept(E, st2, c)
        E.verify(fn, st.copy(), [Ptr(b.c, 0), c.this] + args, end)
    return run
def run_usef(o='mm_impl'):
    def run(E, fn):
        st = State(); c = call(E, st); b = phrase(E, st, o); f = E.ref('function')
        def end(st2, out): asked(E, st2, out, c, f, z3.BoolVal(False)); changed(E, st2, b)
        E.verify(fn, st.copy(), [Ptr(b.c, 0), c.this, f], end)
    return run
def u(nm, fn, w, byref=False, o='mm_impl'): return one(nm, fn, ['C01', 'C03', 'C07'], run_use(w, byref, o), 'which calls match')
EQ = lambda x, y, a, b: z3.And(x == a, y == b)
SPECS = [one('where the first argument is', 'ai_first', ['C07'], run_where(('ai', 1)), 'layout'), one('where the second argument is', 'ai_second', ['C07'], run_where(('ai', 2)), 'layout'),
         one('where the first referred argument is', 'air_first', ['C07'], run_where(('air', 1)), 'layout'), one('where the argument after it is', 'air_second', ['C07'], run_where(('air', 2)), 'layout'),
         one('criteria of matchers', 'am_matches', ['C01', 'C03', 'C07'], run_am('am', 'ai'), 'every matcher accepts'), one('criteria of matchers, by reference', 'amr_matches', ['C01', 'C03', 'C07'], run_am('amr', 'air'), 'every matcher accepts'),
         one('criteria of a function', 'um_matches', ['C01', 'C03', 'C07'], run_um('um', 'ai'), 'the function says'), one('criteria of a function, by reference', 'umr_matches', ['C01', 'C03', 'C07'], run_um('umr', 'air'), 'the function says'),
         one('any arguments', 'dm_matches', ['C01', 'C03', 'C07'], run_dm, 'every call'), one('criteria end', 'am_end', ['C15'], run_amend, 'every matcher is deleted once', hints=end_hints), one('new criteria', 'am_new', ['C07', 'C15'], run_amnew, 'these matchers'),
         u('(a, b)', 'use_values', EQ, True), u('Using(a, b)', 'use_using', EQ), u('Using temporaries', 'use_temp', EQ), u('Using(_, b)', 'use_any', lambda x, y, a, b: y == b), u('Using(a, Any)', 'use_any2', lambda x, y, a, b: x == a),
         u('Using(Gt, Le)', 'use_gt', lambda x, y, a, b: z3.And(x > a, y <= b)), u('Using(Lt, Ge)', 'use_lt', lambda x, y, a, b: z3.And(x < a, y >= b)), u('Using(Ne, Eq)', 'use_ne', lambda x, y, a, b: z3.And(x != a, y == b)),
         u('(a, b) of void', 'usev_values', EQ, True, 'mv_impl'), u('Using(Gt, Le) of void', 'usev_gt', lambda x, y, a, b: z3.And(x > a, y <= b), False, 'mv_impl')]
SPECS += [one(n, f, ['C01', 'C03', 'C07'], run_usef(o), 'the function says') for n, f, o in (('Matching', 'use_function', 'mm_impl'), ('(function)', 'use_call', 'mm_impl'), ('Matching of void', 'usev_function', 'mv_impl'), ('(function) of void', 'usev_call', 'mv_impl'))]
GROUP = Group('criteria', 'criteria.cpp', SPECS, [VContract(r'TypedMatcher<.*>::matches\(', v_accepts, 'TypedMatcher::matches is a function of (matcher, value) (interface contract; the matchers are verified in group matchers)'),
    PContract(fn_user, 'functions of the user: may return or throw'), VContract(r'::~|Destructible::~', v_delete, 'destructors')])
