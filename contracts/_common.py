"""Interface contracts shared by several groups."""
import z3
from engine import *
from stdmodels import VContract
I = z3.IntSort()
OFM = z3.Function('OFM', I, I, z3.BoolSort())
def v_isof(E, st, name, a, inst): return OFM(E.enc(a[0]), E.enc(a[1]))
VIRT = [VContract(r'Context::isOfMethod\(', v_isof, 'Context::isOfMethod (interface contract: a function of the two)'),
        VContract(r'Context::~|Destructible::~|~Context', lambda E, st, name, a, inst: None, 'destructors of the context')]
from stdmodels import Contract
def pure(rx, name, sorts, res):
    """a client function without a body: any function of its arguments (references count as addresses)"""
    F = z3.Function('user_' + name, *(sorts + [res]))
    def f(E, st, n, a, i): return F(*[x if isz(x) and x.sort() == so else toz(x) if so != I else E.enc(x) for x, so in zip(a, sorts)])
    return Contract(rx, f, 'client function %s: any function of its arguments' % name)


import ir
def c_guard(E, st, n, a, i): return 1 if E.tobool(E.load(st, a[0], ir.I8)) is False else 0
def c_release(E, st, n, a, i): E.store(st, a[0], ir.I8, 1)
GS = 'initialisation of function-local statics'
WHOLE = [Contract(r'^__cxa_guard_acquire$', c_guard, GS), Contract(r'^__cxa_guard_release$', c_release, GS),
         Contract(r'^std::ios_base::Init::~?Init\(\)$', lambda E, st, n, a, i: None, 'iostream initialisation')]

# ---------- the compiled parts of libstdc++'s containers (programs only)
LS = 'compiled parts of libstdc++ (rehash policy, red-black trees as plain search trees)'
P, L, R = 8, 16, 24
def fld(E, st, p, o): return E.load(st, Ptr(p.base, add(p.off, o)), ir.PTR)
def put(E, st, p, o, v): E.store(st, Ptr(p.base, add(p.off, o)), ir.PTR, v)
def same(a, b): return a.base is b.base and a.off == b.off
def rb_insert(E, st, n, a, i):
    left, x, p, h = a[0] if isinstance(a[0], bool) or z3.is_bool(a[0]) else E.tobool(a[0]), a[1], a[2], a[3]
    if not isinstance(left, bool):
        side = lambda b: lambda s2: rb_insert(E, s2, n, [b, x, p, h], i)
        return Alts([Alt([left], side(True)), Alt([z3.Not(left)], side(False))])
    put(E, st, x, P, p); put(E, st, x, L, NULL); put(E, st, x, R, NULL); E.store(st, x, ir.I32, 0)
    if left:
        put(E, st, p, L, x)
        if same(p, h): put(E, st, h, P, x); put(E, st, h, R, x)
        elif same(p, fld(E, st, h, L)): put(E, st, h, L, x)
    else:
        put(E, st, p, R, x)
        if same(p, fld(E, st, h, R)): put(E, st, h, R, x)
def rb_next(E, st, n, a, i, L=L, R=R):
    x = a[0]; r = fld(E, st, x, R)
    if not r.isnull():
        x = r
        while not fld(E, st, x, L).isnull(): x = fld(E, st, x, L)
        return x
    y = fld(E, st, x, P)
    while same(x, fld(E, st, y, R)): x = y; y = fld(E, st, y, P)
    if not same(fld(E, st, x, R), y): x = y
    return x
def rb_prev(E, st, n, a, i):
    x = a[0]; pp = fld(E, st, x, P)
    if not pp.isnull() and same(fld(E, st, pp, P), x) and E.load(st, x, ir.I32) == 0 and not same(fld(E, st, pp, L), x) and not same(fld(E, st, pp, R), x): return fld(E, st, x, R)   # the header
    return rb_next(E, st, n, a, i, L=R, R=L)
WHOLE += [Contract(r'^std::__detail::_Prime_rehash_policy::_M_need_rehash\(', lambda E, st, n, a, i: Agg([False, 0]) if i.ty[0] in ('lit', 'struct') else 0, LS),
          Contract(r'^std::_Rb_tree_insert_and_rebalance\(', rb_insert, LS), Contract(r'^std::_Rb_tree_increment\(', rb_next, LS), Contract(r'^std::_Rb_tree_decrement\(', rb_prev, LS)]
import stdmodels
WITHOUT = (stdmodels.W, stdmodels.SP, stdmodels.US, 'std::set', 'std::sort')
def whole(name):
    """a group of whole-program proofs"""
    import proof
    from spec import Group
    return Group(name, name + '.cpp', proof.proofs(name + '.cpp'), WHOLE + proof.CONTRACTS, without=WITHOUT, program=True)
