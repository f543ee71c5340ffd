"""Contracts assumed for the C++ run time and the standard library.

Everything in this file is trusted (it is listed in the evidence of every
check that used it).  Library functions not listed here are not trusted: their
IR is walked like any other code.
"""
import re
import z3, ir
from engine import *
import engine

class Contract:
    trusted = True
    def __init__(s, rx, fn, why=''): s.rx = re.compile(rx); s.fn = fn; s.why = why
    def match(s, name, dem): return s.rx.search(dem) is not None
    def vmatch(s, cls, m): return False
    def pmatch(s, E, st, cv): return False
    def apply(s, E, st, name, args, inst):
        E.trusted.add(s.why or s.rx.pattern)
        return s.fn(E, st, name, args, inst)

class VContract(Contract):
    """contract of a virtual function, used when the class of the object is not known"""
    def match(s, name, dem): return False
    def vmatch(s, cls, m): return s.rx.search(m) is not None

class PContract(Contract):
    """contract of a call through an unknown function pointer"""
    def __init__(s, fn, why='', pred=None): s.fn = fn; s.why = why; s.rx = re.compile('$^'); s.pred = pred
    def match(s, name, dem): return False
    def pmatch(s, E, st, cv): return s.pred is None or s.pred(E, st, cv)

L = []
def model(rx, why=''):
    def d(fn): L.append(Contract(rx, fn, why)); return fn
    return d

def esize_of(t):
    t = t.strip()
    if t.endswith('*'): return 8
    if t.startswith('std::shared_ptr<'): return 16
    if t.startswith('std::pair<void*, std::shared_ptr<'): return 24
    if t in ('int', 'unsigned int'): return 4
    if t in ('unsigned long', 'long', 'double'): return 8
    return None

def vec_elt(dem):
    """element type of the std::vector named at the start of a demangled name"""
    i = dem.index('vector<') + 7; d = 0; j = i
    while True:
        c = dem[j]
        if c == '<': d += 1
        elif c == '>':
            if d == 0: break
            d -= 1
        elif c == ',' and d == 0: break
        elif c == '(' : d += 1
        elif c == ')' : d -= 1
        j += 1
    return dem[i:j]

def readelt(E, st, p, es):
    if es == 4: return {0: E.enc(E.load(st, p, ir.I32))}
    out = {}
    for c in range(0, es, 8): out[c] = E.enc(E.load(st, Ptr(p.base, add(p.off, c), None), ir.PTR))
    return out

def zerocomps(es): return {c: z3.K(z3.IntSort(), z3.IntVal(0)) for c in range(0, es, 8 if es >= 8 else es)}

def es_from(E, name):
    es = esize_of(vec_elt(E.dem[name]))
    if es is None: raise Unsupported('vector of ' + vec_elt(E.dem[name]))
    return es

V = r'^std::vector<.*> >::'
W = 'std::vector'

@model(r'^std::vector<.*>::vector\(\)$', W)
def _(E, st, name, a, inst):
    es = es_from(E, name); E.setvec(st, a[0], Vec(0, zerocomps(es), es))

@model(r'^std::vector<(.*)>::vector\(std::vector<.*> const&\)$', W)
def _(E, st, name, a, inst):
    v = E.getvec(st, a[1], es_from(E, name)); E.setvec(st, a[0], v.new())

@model(r'^std::vector<(.*)>::vector\(std::vector<.*>&&\)$', W)
def _(E, st, name, a, inst):
    es = es_from(E, name)
    v = E.getvec(st, a[1], es); E.setvec(st, a[0], v.new()); E.setvec(st, a[1], Vec(0, zerocomps(es), es))

@model(r'^std::vector<(.*)>::vector\(std::initializer_list<.*>, std::allocator<.*> const&\)$', W)
def _(E, st, name, a, inst):
    es = es_from(E, name); p, n = a[1], a[2]
    if not isint(n): raise Unsupported('initializer_list')
    comps = zerocomps(es)
    for i in range(n):
        e = readelt(E, st, Ptr(p.base, p.off + i*es), es)
        for c in comps: comps[c] = z3.Store(comps[c], i, e[c])
    E.setvec(st, a[0], Vec(n, comps, es))

@model(r'^std::vector<(.*)>::vector\(unsigned long, std::allocator<.*> const&\)$', W)
def _(E, st, name, a, inst):
    es = es_from(E, name); E.setvec(st, a[0], Vec(a[1], zerocomps(es), es))

@model(r'^std::vector<.*>::operator=\(std::initializer_list<.*>\)$', W)
def _(E, st, name, a, inst):
    es = es_from(E, name); p, n = a[1], a[2]
    if not isint(n) or n != 0: raise Unsupported('initializer_list')
    E.setvec(st, a[0], Vec(0, zerocomps(es), es)); return a[0]

@model(r'^std::vector<(.*)>::~vector\(\)$', W)
def _(E, st, name, a, inst):
    d = dict(st.mem.get(a[0].base.id, ())); d.pop(a[0].off, None); st.mem[a[0].base.id] = d

@model(r'^std::vector<.*>::operator=\(std::vector<.*> const&\)$', W)
def _(E, st, name, a, inst):
    E.setvec(st, a[0], E.getvec(st, a[1], es_from(E, name)).new()); return a[0]

@model(r'^std::vector<.*>::operator=\(std::vector<.*>&&\)$', W)
def _(E, st, name, a, inst):
    es = es_from(E, name)
    v = E.getvec(st, a[1], es)
    E.setvec(st, a[1], Vec(0, zerocomps(es), es)); E.setvec(st, a[0], v.new()); return a[0]

@model(r'^(void|[^(]*&) ?std::vector<.*>::(push_back|emplace_back<.*>)\(|^std::vector<.*>::(push_back|emplace_back<.*>)\(', W)
def _(E, st, name, a, inst):
    es = es_from(E, name)
    if len(a) == 3 and es == 24:
        f, g = readelt(E, st, a[1], 8), readelt(E, st, a[2], 16); e = {0: f[0], 8: g[0], 16: g[8]}
        E.store(st, a[2], ir.PTR, NULL); E.store(st, Ptr(a[2].base, add(a[2].off, 8)), ir.PTR, NULL)
    elif len(a) != 2: raise Unsupported('emplace_back')
    else: e = readelt(E, st, a[1], es)
    v = E.getvec(st, a[0], es)
    moved = '&&' in E.dem[name].split('::push_back')[-1]
    nv = v.new(n=add(v.n, 1), comps={c: z3.Store(v.comps[c], toz(v.n), e[c]) for c in v.comps})
    E.setvec(st, a[0], nv)
    if moved and es == 16:
        E.store(st, a[1], ir.PTR, NULL); E.store(st, Ptr(a[1].base, add(a[1].off, 8)), ir.PTR, NULL)
    if inst.ty[0] == 'ptr':
        return E.vecptr(st, a[0].base, a[0].off, nv, 0) if False else Ptr(E.vecptr(st, a[0].base, a[0].off, nv, 0).base, mulc(v.n, es))

@model(r'^std::vector<.*>::(clear)\(\)$', W)
def _(E, st, name, a, inst):
    es = es_from(E, name); E.getvec(st, a[0], es); E.setvec(st, a[0], Vec(0, zerocomps(es), es))

@model(r'^std::vector<.*>::pop_back\(\)$', W)
def _(E, st, name, a, inst):
    v = E.getvec(st, a[0], es_from(E, name))
    E.prove('pop_back on a non-empty vector', toz(v.n) > 0)
    E.setvec(st, a[0], v.new(n=sub(v.n, 1)))

@model(r'^std::vector<.*>::reserve\(', W)
def _(E, st, name, a, inst):
    v = E.getvec(st, a[0], es_from(E, name)); E.setvec(st, a[0], v.new())

def resize(E, st, p, es, n, e):
    v = E.getvec(st, p, es)
    if not isint(n): E.fact(toz(n) <= (1 << 30))
    def grow(c):
        q = z3.Int('q!%d' % fresh_id())
        return z3.Lambda([q], z3.If(z3.And(q >= toz(v.n), q < toz(n)), e[c], z3.Select(v.comps[c], q)))
    shrink = E.sure(toz(n) <= toz(v.n))
    return v.new(n=n, comps=dict(v.comps) if shrink else {c: grow(c) for c in v.comps})

@model(r'^std::vector<.*>::resize\(unsigned long\)$', W)
def _(E, st, name, a, inst):
    es = es_from(E, name); z = {c: z3.IntVal(0) for c in zerocomps(es)}
    E.setvec(st, a[0], resize(E, st, a[0], es, a[1], z))

@model(r'^std::vector<.*>::resize\(unsigned long, .*const&\)$', W)
def _(E, st, name, a, inst):
    es = es_from(E, name)
    E.setvec(st, a[0], resize(E, st, a[0], es, a[1], readelt(E, st, a[2], es)))

@model(r'^std::vector<.*>::assign\(unsigned long, .*const&\)$', W)
def _(E, st, name, a, inst):
    es = es_from(E, name); e = readelt(E, st, a[2], es)
    E.setvec(st, a[0], Vec(a[1], {c: z3.K(z3.IntSort(), e[c]) for c in e}, es))

def itindex(E, st, it, vp, v):
    if not (isinstance(it, Ptr) and it.base is not None and it.base.kind == 'buf'): raise Unsupported('iterator %r' % it)
    own, off, ver = it.base.info
    if own is not vp.base or off != vp.off: raise Unsupported('iterator of another vector')
    if ver != v.ver: E.prove('no use of an invalidated vector iterator', False); raise PathEnd()
    d = divexact(it.off, v.esize)
    if d is None or d[1]: raise Unsupported('iterator offset')
    return d[0]

def erase_range(E, st, a, v, i, j):
    E.prove('erased range in the vector', z3.And(toz(i) >= 0, toz(i) <= toz(j), toz(j) <= toz(v.n))); comps = {}
    for c in v.comps:
        q = z3.Int('q!%d' % fresh_id()); comps[c] = z3.Lambda([q], z3.If(q < toz(i), z3.Select(v.comps[c], q), z3.Select(v.comps[c], q + (toz(j) - toz(i)))))
    nv = Vec(simp(toz(v.n) - (toz(j) - toz(i))), comps, v.esize); E.setvec(st, a[0], nv)
    return Ptr(E.vecptr(st, a[0].base, a[0].off, nv, 0).base, mulc(i, v.esize))

@model(r'::erase\(__gnu_cxx::__normal_iterator<[^()]*>\)$', W)
def _(E, st, name, a, inst):
    if not E.dem[name].startswith('std::vector<'): return InlineInstead()
    v = E.getvec(st, a[0], es_from(E, name)); i = itindex(E, st, a[1], a[0], v)
    if len(a) == 3: return erase_range(E, st, a, v, i, itindex(E, st, a[2], a[0], v))
    E.prove('erase position in range', z3.And(toz(i) >= 0, toz(i) < toz(v.n)))
    comps = {}
    for c in v.comps:
        q = z3.Int('q!%d' % fresh_id())
        na = E.arr('erased'); comps[c] = na
        E.fact(z3.ForAll([q], z3.Select(na, q) == z3.If(q < toz(i), z3.Select(v.comps[c], q), z3.Select(v.comps[c], q + 1)), patterns=[z3.Select(na, q)]))
        q2 = z3.Int('q!%d' % fresh_id())
        E.fact(z3.ForAll([q2], z3.Implies(q2 > toz(i), z3.Select(v.comps[c], q2) == z3.Select(na, q2 - 1)), patterns=[z3.Select(v.comps[c], q2)]) if not z3.is_store(v.comps[c]) else z3.BoolVal(True))
    nv = Vec(sub(v.n, 1), comps, v.esize)
    E.setvec(st, a[0], nv)
    return Ptr(E.vecptr(st, a[0].base, a[0].off, nv, 0).base, mulc(i, v.esize))

@model(r'^std::vector<.*>::insert\(__gnu_cxx::__normal_iterator<[^()]*>, [^()]* (const)?&+\)$|^std::vector<.*>::insert\(__gnu_cxx::__normal_iterator<[^()]*>, [^()]*(const&|&&)\)$', W)
def _(E, st, name, a, inst):
    es = es_from(E, name)
    v = E.getvec(st, a[0], es); i = itindex(E, st, a[1], a[0], v); e = readelt(E, st, a[2], es)
    E.prove('insert position in range', z3.And(toz(i) >= 0, toz(i) <= toz(v.n)))
    comps = {}
    for c in v.comps:
        q = z3.Int('q!%d' % fresh_id())
        comps[c] = z3.Lambda([q], z3.If(q < toz(i), z3.Select(v.comps[c], q), z3.If(q == toz(i), e[c], z3.Select(v.comps[c], q - 1))))
    nv = Vec(add(v.n, 1), comps, es)
    E.setvec(st, a[0], nv)
    return Ptr(E.vecptr(st, a[0].base, a[0].off, nv, 0).base, mulc(i, es))

@model(r'^(.* )?std::vector<.*>::insert<__gnu_cxx::__normal_iterator<.*>, void>\(', W)
def _(E, st, name, a, inst):
    """insert(pos, first, last) at the end"""
    d = E.dem[name]; d = d[d.index('std::vector<'):]
    es = esize_of(vec_elt(d))
    v = E.getvec(st, a[0], es); i = itindex(E, st, a[1], a[0], v)
    f, l = a[2], a[3]
    if not (isinstance(f, Ptr) and f.base is not None and f.base is l.base and f.base.kind == 'buf'): raise Unsupported('insert range')
    own, off, ver = f.base.info; s2 = st.cells(own)[off][2]
    if s2.ver != ver: E.prove('no use of an invalidated vector iterator', False); raise PathEnd()
    fi = divexact(f.off, es)[0]; li = divexact(l.off, es)[0]; cnt = sub(li, fi)
    comps = {}
    for c in v.comps:
        q = z3.Int('q!%d' % fresh_id())
        comps[c] = z3.Lambda([q], z3.If(q < toz(i), z3.Select(v.comps[c], q), z3.If(q < toz(add(i, cnt)), z3.Select(s2.comps[c], q - toz(i) + toz(fi)), z3.Select(v.comps[c], q - toz(cnt)))))
    nv = Vec(add(v.n, cnt), comps, es); E.setvec(st, a[0], nv)
    return Ptr(E.vecptr(st, a[0].base, a[0].off, nv, 0).base, mulc(i, es))

# ---------- sets
US = 'std::unordered_set'
def getset(E, st, p):
    c = st.cells(p.base).get(p.off) if isinstance(p, Ptr) and p.base is not None else None
    if c is None or not isinstance(c[2], SetV): raise Unsupported('no set at %r' % (p,))
    return c[2]
def setset(E, st, p, v, size): st.setcell(p.base, p.off, size, ('set',), v)
EMPTYSET = z3.K(z3.IntSort(), z3.BoolVal(False))

def enum_of(E, st, v):
    """an arbitrary (or, with a comparator, the sorted) enumeration of the set; recorded so that it is the same for one contents"""
    key = ('enum', v.mem.get_id(), v.mem)
    for (m, r) in st.ghost.get('_enums', ()):
        if m.eq(v.mem): return r
    n = z3.Int('card!%d' % fresh_id()); a = E.arr('enum'); idx = z3.Function('idx!%d' % fresh_id(), z3.IntSort(), z3.IntSort())
    i, j, x = z3.Ints('i j x')
    E.fact(z3.And(n >= 0, n <= (1 << 30)))
    E.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(v.mem, z3.Select(a, i)), idx(z3.Select(a, i)) == i)), patterns=[z3.Select(a, i)]))
    E.fact(z3.ForAll([x], z3.Implies(z3.Select(v.mem, x), z3.And(idx(x) >= 0, idx(x) < n, z3.Select(a, idx(x)) == x)), patterns=[idx(x)]))
    if not z3.is_store(v.mem) and not z3.is_lambda(v.mem) if hasattr(z3, 'is_lambda') else True:
        try: E.fact(z3.ForAll([x], z3.Implies(z3.Select(v.mem, x), z3.And(idx(x) >= 0, idx(x) < n, z3.Select(a, idx(x)) == x)), patterns=[z3.Select(v.mem, x)]))
        except z3.Z3Exception: pass
    if v.cmp is not None:
        E.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.Not(v.cmp(z3.Select(a, j), z3.Select(a, i)))), patterns=[z3.MultiPattern(z3.Select(a, i), z3.Select(a, j))]))
    r = Reg('enum', 'enum', None, info=(n, a, idx, v.mem))
    st.ghost['_enums'] = st.ghost.get('_enums', ()) + ((v.mem, r),)
    return r

@model(r'^std::unordered_set<.*>::unordered_set\(\)$', US)
def _(E, st, name, a, inst): setset(E, st, a[0], SetV(EMPTYSET), 56)
@model(r'^std::(unordered_)?set<.*>::~(unordered_)?set\(\)$', US)
def _(E, st, name, a, inst): pass
@model(r'^std::unordered_set<.*>::unordered_set\(std::unordered_set<.*> const&\)$', US)
def _(E, st, name, a, inst): setset(E, st, a[0], SetV(getset(E, st, a[1]).mem), 56)
@model(r'^std::(unordered_)?set<[^()]*(\(\*\)\([^()]*\))?[^()]*>::insert\(', US)
def _(E, st, name, a, inst):
    s = getset(E, st, a[0]); x = E.enc(E.load(st, a[1], ir.PTR))
    size = 56 if 'unordered_set' in E.dem[name][:24] else 48
    if s.cmp is None:
        setset(E, st, a[0], SetV(z3.Store(s.mem, x, True)), size)
        new = z3.Not(z3.Select(s.mem, x))
    else:
        y = z3.Int('y!%d' % fresh_id())
        ex = z3.Exists([y], z3.And(z3.Select(s.mem, y), z3.Not(s.cmp(x, y)), z3.Not(s.cmp(y, x))))
        b = E.bool('dup'); E.fact(b == ex)
        nm = z3.Array('set!%d' % fresh_id(), z3.IntSort(), z3.BoolSort())
        E.fact(nm == z3.If(b, s.mem, z3.Store(s.mem, x, True)))
        setset(E, st, a[0], SetV(nm, s.cmp), size)
        new = z3.Not(b)
    if inst.ty[0] == 'void': return None
    return Agg([Ptr(None, E.int('iter', lo=0)), new])
@model(r'^std::(unordered_)?set<.*>::(begin|cbegin)\(\)( const)?$', US)
def _(E, st, name, a, inst): return Ptr(enum_of(E, st, getset(E, st, a[0])), 0)
@model(r'^std::(unordered_)?set<.*>::(end|cend)\(\)( const)?$', US)
def _(E, st, name, a, inst):
    r = enum_of(E, st, getset(E, st, a[0])); return Ptr(r, mulc(r.info[0], 8))
@model(r'^std::(unordered_)?set<.*>::size\(\) const$', US)
def _(E, st, name, a, inst): return enum_of(E, st, getset(E, st, a[0])).info[0]
@model(r'^std::(unordered_)?set<.*>::empty\(\) const$', US)
def _(E, st, name, a, inst): return enum_of(E, st, getset(E, st, a[0])).info[0] == 0
@model(r'^std::(unordered_)?set<.*>::clear\(\)$', US)
def _(E, st, name, a, inst):
    s = getset(E, st, a[0]); setset(E, st, a[0], SetV(EMPTYSET, s.cmp), 56 if 'unordered' in E.dem[name][:24] else 48)
@model(r'^std::(unordered_)?set<.*>::(count|contains)\(', US)
def _(E, st, name, a, inst):
    s = getset(E, st, a[0]); x = E.enc(E.load(st, a[1], ir.PTR))
    if s.cmp is not None: raise Unsupported('set::count')
    b = z3.Select(s.mem, x)
    return b if inst.ty == ir.I1 else z3.If(b, z3.IntVal(1), z3.IntVal(0))
@model(r'^std::__detail::_Node_(const_)?iterator<.*>::operator\+\+\(\)$|^std::_Rb_tree_(const_)?iterator<.*>::operator\+\+\(\)$', US)
def _(E, st, name, a, inst):
    p = E.load(st, a[0], ir.PTR)
    E.store(st, a[0], ir.PTR, Ptr(p.base, add(p.off, 8))); return a[0]
@model(r'^std::__detail::_Node_(const_)?iterator<.*>::operator(\*|->)\(\) const$|^std::_Rb_tree_(const_)?iterator<.*>::operator(\*|->)\(\) const$', US)
def _(E, st, name, a, inst): return E.load(st, a[0], ir.PTR)

@model(r'^std::set<.*>::set\(.*, std::allocator<.*> const&\)$', 'std::set')
def _(E, st, name, a, inst):
    f = E.load(st, a[1], ir.PTR)
    if not (isinstance(f, Ptr) and f.base is not None and f.base.kind == 'fn'): raise Unsupported('set comparator')
    setset(E, st, a[0], SetV(EMPTYSET, comparator(E, st, lambda x, y: (f.base.name, [x, y]))), 48)

def comparator(E, st, mk):
    """the comparison function as a formula, from its code"""
    a, b = z3.Int('cmpA!%d' % fresh_id()), z3.Int('cmpB!%d' % fresh_id())
    name, args = mk(Ptr(None, a), Ptr(None, b))
    res = []
    s2 = st.copy(); s2.frames = []
    old = E.on_end; base = len(E.facts)
    def end(s3, out):
        if out[0] != 'ret': raise Unsupported('comparator throws')
        res.append(([x for x in E.facts[n0:]], out[1]))
    E.mute += 1; E.push(); n0 = len(E.facts)
    try:
        E.fact(z3.And(a > 0, b > 0, a < BASE0, b < BASE0))
        n0 = len(E.facts)
        E.verify(name, s2, args, end)
    finally: E.pop(); E.mute -= 1; E.on_end = old
    # guards are type facts of loaded fields and branch conditions
    def f(x, y):
        r = z3.BoolVal(False)
        for facts, v in res:
            v = b2z(v) if not isint(v) else z3.BoolVal(bool(v))
            c = z3.And(*(facts + [v])) if len(res) > 1 else v
            r = z3.Or(r, z3.substitute(c, (a, x), (b, y)))
        return z3.simplify(r)
    return f

@model(r'^void std::(stable_)?sort<__gnu_cxx::__normal_iterator<', 'std::sort')
def _(E, st, name, a, inst):
    f, l = a[0], a[1]
    if not (isinstance(f, Ptr) and f.base is not None and f.base.kind == 'buf' and l.base is f.base): raise Unsupported('sort range')
    own, off, v, i0, _c = E.bufcell(st, f)
    n0 = divexact(l.off, v.esize)[0]
    if not (isint(i0) and i0 == 0 and E.sure(toz(n0) == toz(v.n))) or v.esize != 8: raise Unsupported('partial sort')
    d = E.dem[name]
    if len(a) < 3: raise Unsupported('sort without comparator')
    c = a[2]
    if isinstance(c, Ptr) and c.base is not None and c.base.kind == 'fn':
        cmp = comparator(E, st, lambda x, y: (c.base.name, [x, y]))
    else:
        m = re.search(r', (.*::\{lambda.*\}|.*)>\(', d)
        fn = [k for k, w in E.dem.items() if w.startswith(m.group(1).split(', ')[-1] + '::operator()')] if m else []
        if len(fn) != 1: raise Unsupported('sort comparator')
        cmp = comparator(E, st, lambda x, y: (fn[0], [NULL, x, y]))
    na = E.arr('sorted'); pf = z3.Function('perm!%d' % fresh_id(), z3.IntSort(), z3.IntSort()); pi = z3.Function('perminv!%d' % fresh_id(), z3.IntSort(), z3.IntSort())
    i, j = z3.Ints('i j'); n = toz(v.n); old = v.comps[0]
    E.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(pf(i) >= 0, pf(i) < n, pi(pf(i)) == i, z3.Select(na, i) == z3.Select(old, pf(i)))), patterns=[z3.Select(na, i)]))
    E.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(pi(i) >= 0, pi(i) < n, pf(pi(i)) == i, z3.Select(na, pi(i)) == z3.Select(old, i))), patterns=[pi(i)]))
    if not z3.is_store(old): E.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(pi(i) >= 0, pi(i) < n, pf(pi(i)) == i, z3.Select(na, pi(i)) == z3.Select(old, i))), patterns=[z3.Select(old, i)]))
    E.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.Not(cmp(z3.Select(na, j), z3.Select(na, i)))), patterns=[z3.MultiPattern(z3.Select(na, i), z3.Select(na, j))]))
    st.setcell(own, off, 24, ('vec',), v.new(comps={0: na}, newver=False))

# ---------- shared_ptr control blocks
SP = 'std::shared_ptr reference counts (the pointee is not destroyed while referenced)'
@model(r'^std::__shared_count<.*>::__shared_count\(std::__shared_count<.*> const&\)$', SP)
def _(E, st, name, a, inst): E.store(st, a[0], ir.PTR, E.load(st, a[1], ir.PTR))
@model(r'^std::__shared_count<.*>::__shared_count<', SP)
def _(E, st, name, a, inst):
    E.store(st, a[0], ir.PTR, E.ref('ctrl'))
    if 'allocator' in E.dem[name] or '_Sp_alloc_shared_tag' in E.dem[name]: return InlineInstead()
@model(r'^std::__shared_count<.*>::~__shared_count\(\)$', SP)
def _(E, st, name, a, inst): pass
@model(r'^std::__shared_count<.*>::operator=\(std::__shared_count<.*> const&\)$', SP)
def _(E, st, name, a, inst): E.store(st, a[0], ir.PTR, E.load(st, a[1], ir.PTR)); return a[0]
@model(r'^std::_Sp_counted_base<.*>::(_M_release|_M_add_ref_copy|_M_weak_release)\(\)', SP)
def _(E, st, name, a, inst): pass

# ---------- memory
NEW = 'operator new/delete (allocation does not fail)'
@model(r'^operator new(\[\])?\(unsigned long(, std::nothrow_t const&)?\)$', NEW)
def _(E, st, name, a, inst):
    n = a[0]; r = Reg('new', 'obj', n if isint(n) else None)
    if E.program: st.ghost['_new'] = st.ghost.get('_new', ()) + (r.id,)
    return Ptr(r, 0)
@model(r'^operator delete(\[\])?\(void\*(, unsigned long)?\)$', NEW)
def _(E, st, name, a, inst):
    p = a[0]
    if isinstance(p, Ptr) and p.base is not None:
        if p.base.id in st.dead: E.prove('no double delete', False); raise PathEnd()
        st.dead = st.dead | {p.base.id}
@model(r'^(malloc)$', NEW)
def _(E, st, name, a, inst): return Ptr(Reg('malloc', 'obj', a[0] if isint(a[0]) else None), 0)

# ---------- exceptions
EX = 'C++ exception run time'
@model(r'^__cxa_allocate_exception$', EX)
def _(E, st, name, a, inst): return Ptr(Reg('exception', 'obj', a[0]), 0)
@model(r'^__cxa_free_exception$', EX)
def _(E, st, name, a, inst): pass
@model(r'^__cxa_throw$', EX)
def _(E, st, name, a, inst): return Alts([Alt(throw=Exc(a[1].base.name, a[0], dtor=a[2].base.name if isinstance(a[2], Ptr) and a[2].base is not None else None))])
@model(r'^__cxa_begin_catch$', EX)
def _(E, st, name, a, inst):
    e = st.frames[-1].exc
    st.ghost['_inflight'] = st.ghost.get('_inflight', 0) - 1
    st.caught = st.caught + (e,); return a[0]
@model(r'^__cxa_end_catch$', EX)
def _(E, st, name, a, inst):
    e = st.caught[-1]; st.caught = st.caught[:-1]; again = st.ghost.get('_again', ())
    if e.uid in again: st.ghost['_again'] = tuple(x for x in again if x != e.uid); return
    if E.program and e.dtor and e not in st.caught: return Walk(e.dtor, [e.ptr])
@model(r'^__cxa_rethrow$', EX)
def _(E, st, name, a, inst):
    def eff(s2): s2.ghost['_again'] = s2.ghost.get('_again', ()) + (s2.caught[-1].uid,)
    return Alts([Alt([], eff, throw=st.caught[-1])])
@model(r'^(__clang_call_terminate|std::terminate\(\)|__cxa_call_unexpected|abort)$', EX)
def _(E, st, name, a, inst):
    if st.ghost.get('_allow_terminate'): raise PathEnd()
    E.prove('std::terminate is not reached', False); raise PathEnd()
@model(r'^__cxa_pure_virtual$', EX)
def _(E, st, name, a, inst): E.prove('no pure virtual call', False); raise PathEnd()
def thrower(ti):
    def f(E, st, name, a, inst): return Alts([Alt(throw=Exc(ti, E.ref('exc')))])
    return f
L.append(Contract(r'^__cxa_bad_cast$', thrower('_ZTISt8bad_cast'), EX))
L.append(Contract(r'^std::__throw_bad_function_call\(\)$', thrower('_ZTISt17bad_function_call'), EX))
L.append(Contract(r'^std::__throw_out_of_range', thrower('_ZTISt12out_of_range'), EX))
L.append(Contract(r'^std::__throw_length_error', thrower('_ZTISt12length_error'), EX))
@model(r'^std::uncaught_exceptions?\(\)$', EX)
def _(E, st, name, a, inst):
    v = st.ghost.get('_uncaught')
    if v is None: v = E.int('uncaught', 32); E.fact(v >= 0); st.ghost['_uncaught'] = v
    v = add(v, st.ghost.get('_inflight', 0))
    return v if inst.ty != ir.I1 else simp(toz(v) > 0)
@model(r'^std::(exception|runtime_error|logic_error|invalid_argument|bad_cast|out_of_range)::(~)?(exception|runtime_error|logic_error|invalid_argument|bad_cast|out_of_range)\(', EX)
def _(E, st, name, a, inst): pass
@model(r'^std::exception::what\(\) const$', EX)
def _(E, st, name, a, inst): return E.ref('what')
@model(r'^__cxa_guard_acquire$', 'initialisation of function-local statics (either state)')
def _(E, st, name, a, inst): return E.int('guard', lo=0, hi=1)
@model(r'^__cxa_guard_(release|abort)$|^__cxa_atexit$', 'initialisation of function-local statics (either state)')
def _(E, st, name, a, inst): return 0 if inst.ty[0] == 'int' else None

# ---------- run time type information
DC = 'dynamic_cast on objects of unknown dynamic type (uninterpreted view of the object)'
def class_of(E, st, p):
    """(typeinfo, complete object pointer) of an object whose vptr is known"""
    vp = E.load(st, Ptr(p.base, p.off), ir.PTR)
    if not (isinstance(vp, Ptr) and vp.base is not None and vp.base.kind == 'glob'): return None
    top = E.load(st, Ptr(vp.base, vp.off - 16), ir.PTR); ti = E.load(st, Ptr(vp.base, vp.off - 8), ir.PTR)
    top = E.i2i(E.p2i(top))
    return ti.base.name, Ptr(p.base, add(p.off, top))
def bases(E, ti):
    g = E.m.glob(ti)
    if g is None or g[1] is None or g[1][0] != 'agg': return []
    f = g[1][1]
    if len(f) == 2: return []
    if len(f) == 3: return [(f[2][1][1], 0, False)]
    out = []
    for i in range(4, len(f), 2):
        fl = f[i+1][1][1]; out.append((f[i][1][1], fl >> 8, bool(fl & 1)))
    return out
def find_sub(E, st, ti, p, dst):
    out = []
    if ti == dst: out.append(p)
    for b, off, virt in bases(E, ti):
        if virt:
            vp = E.load(st, p, ir.PTR); off = E.i2i(E.load(st, Ptr(vp.base, vp.off + off), ir.I64))
        out += find_sub(E, st, b, Ptr(p.base, add(p.off, off)), dst)
    return out
def isa_fn(ti): return z3.Function('isa_' + ti, z3.IntSort(), z3.BoolSort())
def view_fn(ti): return z3.Function('view_' + ti, z3.IntSort(), z3.IntSort())
@model(r'^__dynamic_cast$', DC)
def _(E, st, name, a, inst):
    p, dst = a[0], a[2].base.name
    p = E.access(st, p)
    if p.base is not None:
        c = class_of(E, st, p)
        if c is not None:
            r = find_sub(E, st, c[0], c[1], dst)
            u = []
            for q in r:
                if not any(eqv(q, w) for w in u): u.append(q)
            return u[0] if len(u) == 1 else NULL
    x = E.enc(p)
    # a pointer obtained by converting q to a virtual base casts back to q
    co, t = lin(x)
    if co == 0 and len(t) == 2:
        terms = [tm for _, tm in t.values()]
        for i in (0, 1):
            if terms[i].decl().name().startswith('vboff_') and terms[i].arg(0).eq(terms[1-i]): return E.dec(terms[1-i])
    b = isa_fn(dst)(x); v = view_fn(dst)(x)
    return Alts([Alt([b, v > 0, v < BASE0], ret=Ptr(None, v)), Alt([z3.Not(b)], ret=NULL)])

# ---------- strings and streams: only the identity of the value is tracked
ST = 'std::string and streams (value identity only)'
STRF = z3.Function('str_of_cstr', z3.IntSort(), z3.IntSort())
def getstr(E, st, p):
    p = E.access(st, p)
    if p.base is None:
        return z3.Select(E.hmap(st, ('string',)), toz(p.off))
    if p.base.kind == 'buf': raise Unsupported('string in vector')
    if not isint(p.off): raise Unsupported('string address')
    c = st.cells(p.base).get(p.off)
    if c is not None and isinstance(c[2], Str): return c[2].v
    v = E.int('str'); putstr(E, st, p, v); return v
def putstr(E, st, p, v):
    p = E.access(st, p)
    if p.base is None: st.heap[('string',)] = z3.Store(E.hmap(st, ('string',)), toz(p.off), toz(v)); return
    d = dict(st.mem.get(p.base.id, ()))
    for o in list(d):
        if p.off <= o < p.off + 32: del d[o]
    d[p.off] = (32, ('str',), Str(toz(v))); st.mem[p.base.id] = d
S = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
@model(r'^%s::basic_string\(\)$' % S, ST)
def _(E, st, name, a, inst): putstr(E, st, a[0], 0)
def movedstr(E, st, name, a):
    if E.dem[name].endswith('&&)'): putstr(E, st, a[1], E.int('moved'))
@model(r'^%s::basic_string\(%s ?(const&|&&)\)$' % (S, S), ST)
def _(E, st, name, a, inst): putstr(E, st, a[0], getstr(E, st, a[1])); movedstr(E, st, name, a)
@model(r'^%s::basic_string<.*>\(char const\*, std::allocator<char> const&\)$|^%s::basic_string\(char const\*' % (S, S), ST)
def _(E, st, name, a, inst): putstr(E, st, a[0], 0 if emptytext(E, a[1]) else STRF(E.enc(a[1])))
@model(r'^%s::empty\(\) const$' % S, ST)
def _(E, st, name, a, inst): return simp(toz(getstr(E, st, a[0])) == 0)
def emptytext(E, p):
    g = E.m.glob(p.base.name) if isinstance(p, Ptr) and p.base is not None and p.base.kind == 'glob' else None
    return bool(g and g[1] and (g[1][0] == 'cstr' and g[1][1] in ('', '\\00') or g[1][0] == 'zero'))
@model(r'^%s::operator=\(%s ?(const&|&&)\)$' % (S, S), ST)
def _(E, st, name, a, inst): putstr(E, st, a[0], getstr(E, st, a[1])); movedstr(E, st, name, a); return a[0]
@model(r'^%s::~basic_string\(\)$' % S, ST)
def _(E, st, name, a, inst): pass
@model(r'^%s::c_str\(\) const$|^%s::data\(\)' % (S, S), ST)
def _(E, st, name, a, inst): 
    return Ptr(None, z3.Function('cstr_of', z3.IntSort(), z3.IntSort())(toz(getstr(E, st, a[0]))))
@model(r'%s.* std::operator\+<char' % S, ST)
def _(E, st, name, a, inst): putstr(E, st, a[0], E.int('str'))
@model(r'^%s::(append|operator\+=|assign|operator=|push_back)' % S, ST)
def _(E, st, name, a, inst): putstr(E, st, a[0], E.int('str')); return a[0] if inst.ty[0] == 'ptr' else None
@model(r'^std::allocator<.*>::~?allocator\(|^std::__new_allocator<.*>::~?__new_allocator\(', ST)
def _(E, st, name, a, inst): pass
@model(r'^(std::)?(__cxx11::)?to_string\(|^std::__cxx11::to_string\(', ST)
def _(E, st, name, a, inst): putstr(E, st, a[0], E.int('str'))
@model(r'^std::(__cxx11::)?basic_o?string?stream<.*>::(~)?basic_o?stringstream\(|^std::basic_ostream<|^std::basic_ostream<.*std::operator<<|^std::ostream::|^std::__cxx11::basic_ostringstream<.*>::', ST)
def _(E, st, name, a, inst):
    d = E.dem[name]
    if '::str() const' in d: putstr(E, st, a[0], E.int('str')); return None
    return a[0] if inst.ty[0] == 'ptr' else None
@model(r'^std::basic_ostream<char.* std::operator<<', ST)
def _(E, st, name, a, inst): return a[0]

def constext(E, p):
    if not isinstance(p, Ptr) or p.base is None or p.base.kind != 'glob' or p.off != 0: return None
    g = E.m.glob(p.base.name)
    return g[1][1] if g and g[1] and g[1][0] == 'cstr' else None
@model(r'^(strcmp|std::strcmp)$', 'strcmp')
def _(E, st, name, a, inst):
    x, y = constext(E, a[0]), constext(E, a[1])
    if x is not None and x == y: return 0
    r = z3.Function('strcmp', z3.IntSort(), z3.IntSort(), z3.IntSort())(E.enc(a[0]), E.enc(a[1]))
    E.fact(z3.And(r >= -2147483648, r <= 2147483647)); return r
@model(r'^(strlen)$', 'strlen')
def _(E, st, name, a, inst):
    r = z3.Function('strlen', z3.IntSort(), z3.IntSort())(E.enc(a[0])); E.fact(z3.And(r >= 0, r < 1 << 40)); return r
@model(r'^(memcmp|bcmp)$', 'memcmp')
def _(E, st, name, a, inst): return E.int('memcmp', 32)
@model(r'^std::__is_constant_evaluated\(\)$')
def _(E, st, name, a, inst): return False
