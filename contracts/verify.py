"""Contracts of the verification side: matching, counting, sorting, events."""
import z3, ir
from engine import *
from spec import Spec, Group, off
from stdmodels import Contract, VContract, getset, setset, EMPTYSET
import stdmodels
I = z3.IntSort(); B = z3.BoolSort()
M = z3.Function('M', I, I, B)                  # M(matcher, invocation)
SZ = z3.Function('SZ', I, I)                   # size of a sequence
EXP = z3.Function('EXP', I, I, I)              # EXP(sequence, j): j-th matcher
F = z3.Function('F', I, I, I)                  # F(sequence, p): first match at or after p, or -1
CH = z3.Function('CH', I, I, I)                # CH(p, t): position after matching t sequences from p
TOT = z3.Function('TOT', I, I)                 # total size of the first t sequences
P = z3.Function('P', I, I)                     # P(c): start of the c-th repetition
MAXN = 1 << 28

def q(*names): return z3.Ints(' '.join('%s!%d' % (n, fresh_id()) for n in names)) if len(names) > 1 else [z3.Int('%s!%d' % (names[0], fresh_id()))]

# ---- interface contracts of the virtual functions
def v_matches(E, st, name, a, inst): return M(E.enc(a[0]), E.enc(a[1]))
def v_size(E, st, name, a, inst):
    s = SZ(E.enc(a[0])); E.fact(z3.And(s >= 1, s <= MAXN)); return s
def v_expected(E, st, name, a, inst):
    S = E.enc(a[0]); v = E.getvec(st, a[1], 8); E.fact(z3.And(SZ(S) >= 1, SZ(S) <= MAXN))
    na = E.arr('exp'); (j,) = q('j')
    E.fact(z3.ForAll([j], z3.Select(na, j) == z3.If(z3.And(j >= toz(v.n), j < toz(v.n) + SZ(S)), EXP(S, j - toz(v.n)), z3.Select(v.comps[0], j)), patterns=[z3.Select(na, j)]))
    E.setvec(st, a[1], Vec(add(v.n, SZ(S)), {0: na}, 8))
VIRT = [
    VContract(r'Matcher::matches\(', v_matches, 'Invocation::Matcher::matches is a function of (criterion, invocation) while a verification runs'),
    VContract(r'Sequence::size\(\) const', v_size, 'Sequence::size (interface contract; overriders are verified in group sequence)'),
    VContract(r'Sequence::getExpectedSequence\(', v_expected, 'Sequence::getExpectedSequence (interface contract; overriders are verified in group sequence)'),
]

def vecarg(E, st, name, n=None):
    r = E.region(name, 24); p = Ptr(r, 0); v = E.vec(st, p, 8, name=name, hi=MAXN, n=n); return p, v

def unchanged(E, st, items, what='arguments'):
    for nm, p, v in items:
        w = E.getvec(st, p)
        same = w is v or eqv(w, v)
        if not same:
            (i,) = q('i')
            same = z3.And(toz(w.n) == toz(v.n), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < toz(v.n)), z3.Select(w.comps[0], i) == z3.Select(v.comps[0], i))))
        E.prove('%s is not modified' % nm, same)
def heap_unchanged(E, st, pre):
    for k, h in st.heap.items():
        o = pre.heap.get(k)
        if o is None: o = z3.Array('H_%s!0' % '_'.join(map(str, k)), I, I)
        E.prove('no object is modified (%s)' % (k,), True if h.eq(o) else h == o)

# ---- isMatch
def ismatch_f(act, exp, nexp, start):
    (j,) = q('j')
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nexp), M(z3.Select(exp, j), z3.Select(act, start + j))))
def run_ismatch(E, fn):
    st = State(); pa, act = vecarg(E, st, 'actual'); pe, exp = vecarg(E, st, 'expected')
    s = E.int('start', 32); E.fact(z3.And(s >= 0, s + exp.n <= act.n))
    E.ctx = (act, exp, s)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('isMatch does not throw', False)
        E.prove('isMatch: true exactly when every criterion accepts the call at its position', b2z(out[1]) == ismatch_f(act.comps[0], exp.comps[0], toz(exp.n), s))
        unchanged(E, st2, [('the history', pa, act), ('the expected list', pe, exp)])
        heap_unchanged(E, st2, st)
    E.verify(fn, st.copy(), [pa, pe, s], end)
def ismatch_hints(E, st0):
    act, exp, s = E.ctx
    def allk(st, k):
        (j,) = q('j')
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), M(z3.Select(exp.comps[0], j), z3.Select(act.comps[0], s + j))))
    return {'bools': [('all earlier positions match', allk)], 'invs': [('all earlier positions match', allk)]}
def sum_ismatch(E, st, name, a, inst):
    act = E.getvec(st, a[0]); exp = E.getvec(st, a[1]); s = toz(a[2])
    E.prove('call of isMatch: positions inside the history', z3.And(s >= 0, s + toz(exp.n) <= toz(act.n)))
    r = E.bool('isMatch'); E.fact(r == ismatch_f(act.comps[0], exp.comps[0], toz(exp.n), s)); return r


# ---- findNextMatch(sequence)
MAT = z3.Function('MAT', I, I, B)              # MAT(sequence, i): the sequence matches at position i
def mat_def(S, act):
    """defining axiom of MAT for the sequence S"""
    i, j = q('i', 'j')
    return z3.ForAll([i], MAT(S, i) == z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < SZ(S)), M(EXP(S, j), z3.Select(act, i + j)))), patterns=[MAT(S, i)])
def first_f(S, n, p, r):
    (i,) = q('i')
    return z3.Or(z3.And(r == -1, z3.ForAll([i], z3.Implies(z3.And(i >= p, i + SZ(S) <= n), z3.Not(MAT(S, i))), patterns=[MAT(S, i)])),
                 z3.And(r >= p, r + SZ(S) <= n, MAT(S, r), z3.ForAll([i], z3.Implies(z3.And(i >= p, i < r), z3.Not(MAT(S, i))), patterns=[MAT(S, i)])))
def run_findnext1(E, fn):
    st = State(); pa, act = vecarg(E, st, 'actual')
    S = E.ref('seq'); cell = E.region('pattern', 8); st.setcell(cell, 0, 8, ir.PTR, S)
    p = E.int('start', 32); E.fact(z3.And(p >= 0, p <= act.n))
    E.fact(mat_def(S.off, act.comps[0])); E.ctx = (S.off, act, p)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('findNextMatch does not throw', False)
        E.prove('findNextMatch: the first position at or after start where the sequence matches, -1 if there is none', first_f(S.off, toz(act.n), p, toz(out[1])))
        unchanged(E, st2, [('the history', pa, act)]); heap_unchanged(E, st2, st)
    E.verify(fn, st.copy(), [Ptr(cell, 0), pa, p], end)
def findnext1_hints(E, st0):
    S, act, p = E.ctx
    def none(st, k):
        (i,) = q('i')
        return z3.ForAll([i], z3.Implies(z3.And(i >= p, i < p + k), z3.Not(MAT(S, i))), patterns=[MAT(S, i)])
    def facts(st, k):
        (j,) = q('j')
        return [MAT(S, p + k) == z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < SZ(S)), M(EXP(S, j), z3.Select(act.comps[0], p + k + j))))]
    return {'invs': [('no match at an earlier position', none)], 'facts': [facts]}
def sum_findnext1(E, st, name, a, inst):
    act = E.getvec(st, a[1]); p = toz(a[2]); S = E.enc(E.load(st, a[0], ir.PTR)); n = toz(act.n)
    E.prove('call of findNextMatch: start inside the history', z3.And(p >= 0, p <= n))
    E.prove('call of findNextMatch: the recorded history is searched', z3.BoolVal(act.comps[0].eq(E.act0)) if hasattr(E, 'act0') else True)
    r = F(S, p)
    E.fact(z3.And(SZ(S) >= 1, SZ(S) <= MAXN)); E.fact(z3.Or(r == -1, z3.And(r >= p, r + SZ(S) <= n)))
    return r

# ---- collectMatchedInvocations
def app_f(new, old, n, act, i, ln):
    (x,) = q('x')
    return z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n + ln), z3.Select(new, x) == z3.If(x < n, z3.Select(old, x), z3.Select(act, i + x - n))), patterns=[z3.Select(new, x)])
def run_collect(E, fn):
    st = State(); pa, act = vecarg(E, st, 'actual'); pm, mt = vecarg(E, st, 'matched')
    i = E.int('start', 32); ln = E.int('length', 32); E.fact(z3.And(i >= 0, ln >= 0, i + ln <= act.n)); E.ctx = (act, mt, pm, i, ln)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('collectMatchedInvocations does not throw', False)
        w = E.getvec(st2, pm)
        E.prove('collectMatchedInvocations: the list grows by the matched calls only', toz(w.n) == toz(mt.n) + ln)
        E.prove('collectMatchedInvocations: exactly the calls start..start+length-1 are appended', app_f(w.comps[0], mt.comps[0], toz(mt.n), act.comps[0], i, ln))
        unchanged(E, st2, [('the history', pa, act)]); heap_unchanged(E, st2, st)
    E.verify(fn, st.copy(), [pa, pm, i, ln], end)
def collect_hints(E, st0):
    act, mt, pm, i, ln = E.ctx
    return {'invs': [('the first k calls are appended', lambda st, k: z3.And(toz(E.getvec(st, pm).n) == toz(mt.n) + k, app_f(E.getvec(st, pm).comps[0], mt.comps[0], toz(mt.n), act.comps[0], i, k))),
                     ('not too many', lambda st, k: k <= ln)]}
def sum_collect(E, st, name, a, inst):
    act = E.getvec(st, a[0]); mt = E.getvec(st, a[1]); i = toz(a[2]); ln = toz(a[3])
    E.prove('call of collectMatchedInvocations: range inside the history', z3.And(i >= 0, ln >= 0, i + ln <= toz(act.n)))
    na = E.arr('matched'); E.fact(app_f(na, mt.comps[0], toz(mt.n), act.comps[0], i, ln))
    E.setvec(st, a[1], Vec(add(mt.n, ln), {0: na}, 8))

# ---- findNextMatch(pattern)
ML = z3.Function('ML', I, I, I, I)             # ML(p, t, x): the x-th call matched by the first t sequences when searching from p
def succ(p, m):
    """all m sequences of the pattern are found one after the other from p"""
    (t,) = q('t')
    return z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < m), F(PAT(t), CH(p, t)) != -1), patterns=[F(PAT(t), CH(p, t))])
PAT = z3.Function('PAT', I, I)
def step_facts(p, t, act):
    """definition of CH, TOT, ML at step t"""
    (x,) = q('x')
    S = PAT(t); idx = F(S, CH(p, t))
    return [CH(p, t + 1) == idx + SZ(S), TOT(t + 1) == TOT(t) + SZ(S), SZ(S) >= 1, TOT(t) >= 0,
            z3.ForAll([x], ML(p, t + 1, x) == z3.If(x < TOT(t), ML(p, t, x), z3.Select(act, idx + x - TOT(t))), patterns=[ML(p, t + 1, x)])]
def pat_setup(E, st):
    pa, act = vecarg(E, st, 'actual'); pp, pat = vecarg(E, st, 'pattern'); (t,) = q('t')
    E.fact(pat.n >= 1)
    E.fact(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < pat.n), z3.And(z3.Select(pat.comps[0], t) == PAT(t), PAT(t) > 0)), patterns=[z3.Select(pat.comps[0], t)]))
    E.fact(TOT(0) == 0); E.act0 = act.comps[0]
    pm, mt = vecarg(E, st, 'matched')
    return pa, act, pp, pat, pm, mt
def run_findnext2(E, fn):
    st = State(); pa, act, pp, pat, pm, mt = pat_setup(E, st)
    p = E.int('start', 32); E.fact(z3.And(p >= 0, p <= act.n)); E.fact(CH(p, 0) == p)
    e = E.region('end', 4); e0 = E.int('end0', 32); st.setcell(e, 0, 4, ir.I32, e0)
    E.ctx = (act, pat, mt, pm, p)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('findNextMatch(pattern) does not throw', False)
        r = b2z(out[1]); w = E.getvec(st2, pm); m = toz(pat.n); (x,) = q('x')
        E.prove('findNextMatch(pattern): true exactly when every sequence of the pattern is found in order', r == succ(p, m))
        E.prove('findNextMatch(pattern): on success the end is just after the last matched call', z3.Implies(r, toz(E.load(st2, Ptr(e, 0), ir.I32)) == CH(p, m)))
        E.prove('findNextMatch(pattern): the end does not go backwards and stays inside the history', z3.Implies(r, z3.And(CH(p, m) >= p + m, CH(p, m) <= toz(act.n))))
        E.prove('findNextMatch(pattern): on success exactly the matched calls are appended', z3.Implies(r, z3.And(toz(w.n) == toz(mt.n) + TOT(m),
                 z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(w.n)), z3.Select(w.comps[0], x) == z3.If(x < toz(mt.n), z3.Select(mt.comps[0], x), ML(p, m, x - toz(mt.n))))))))
        E.prove('findNextMatch(pattern): on failure the list of matched calls keeps its contents', z3.Implies(z3.Not(r), z3.And(toz(w.n) == toz(mt.n),
                 z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(mt.n)), z3.Select(w.comps[0], x) == z3.Select(mt.comps[0], x))))))
        unchanged(E, st2, [('the history', pa, act), ('the pattern', pp, pat)]); heap_unchanged(E, st2, st)
    E.verify(fn, st.copy(), [pp, pa, p, Ptr(e, 0), pm], end)
def findnext2_hints(E, st0):
    act, pat, mt, pm, p = E.ctx
    def content(st, k):
        w = E.getvec(st, pm); (x,) = q('x')
        return z3.And(toz(w.n) == toz(mt.n) + TOT(k), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(mt.n) + TOT(k)),
               z3.Select(w.comps[0], x) == z3.If(x < toz(mt.n), z3.Select(mt.comps[0], x), ML(p, k, x - toz(mt.n)))), patterns=[z3.Select(w.comps[0], x)]))
    return {'ints': [('position after k sequences', lambda st, k: CH(p, k))],
            'invs': [('k sequences found', lambda st, k: succ(p, k)), ('k within the pattern', lambda st, k: k <= pat.n),
                     ('position in range', lambda st, k: z3.And(CH(p, k) >= p + k, CH(p, k) <= act.n)), ('matched calls so far', content)],
            'facts': [lambda st, k: step_facts(p, k, act.comps[0])]}
SUCC = z3.Function('SUCC', I, B)
def sum_findnext2(E, st, name, a, inst):
    pat = E.getvec(st, a[0]); act = E.getvec(st, a[1]); p = toz(a[2]); mt = E.getvec(st, a[4]); m = toz(pat.n); (x,) = q('x')
    E.prove('call of findNextMatch(pattern): start inside the history', z3.And(p >= 0, p <= toz(act.n)))
    E.prove('call of findNextMatch(pattern): pattern and history are the given ones', z3.BoolVal(act.comps[0].eq(E.act0) and pat.comps[0].eq(E.pat0)))
    r = SUCC(p)                                 # names succ(p, m)
    na = E.arr('matched')
    E.fact(z3.Implies(r, z3.And(CH(p, m) >= p + m, CH(p, m) <= toz(act.n), TOT(m) >= m)))
    E.fact(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(mt.n) + z3.If(r, TOT(m), 0)), z3.Select(na, x) == z3.If(x < toz(mt.n), z3.Select(mt.comps[0], x), ML(p, m, x - toz(mt.n)))), patterns=[z3.Select(na, x)]))
    old = E.load(st, a[3], ir.I32)
    def ok(s2):
        E.setvec(s2, a[4], Vec(add(mt.n, TOT(m)), {0: na}, 8)); E.store(s2, a[3], ir.I32, CH(p, m))
    def no(s2):
        E.setvec(s2, a[4], Vec(mt.n, {0: na}, 8)); E.store(s2, a[3], ir.I32, E.int('end', 32))
    return Alts([Alt([r], ok, ret=True), Alt([z3.Not(r)], no, ret=False)])

# ---- countMatches
MT = z3.Function('MT', I, I)                   # MT(c): number of calls matched by c repetitions
MM = z3.Function('MM', I, I, I)                # MM(c, x): x-th call matched by the first c repetitions
def cm_facts(c, m):
    (x,) = q('x')
    return [P(c + 1) == CH(P(c), m), z3.ForAll([x], MM(c + 1, x) == z3.If(x < MT(c), MM(c, x), ML(P(c), m, x - MT(c))), patterns=[MM(c + 1, x)]), MT(c + 1) == MT(c) + TOT(m)]
def count_f(c):
    (i,) = q('i')
    return z3.And(c >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < c), SUCC(P(i))), patterns=[P(i)]), z3.Not(SUCC(P(c))))
def matched_f(v, c):
    (x,) = q('x')
    return z3.And(toz(v.n) == MT(c), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < MT(c)), z3.Select(v.comps[0], x) == MM(c, x)), patterns=[z3.Select(v.comps[0], x)]))
def run_count(E, fn):
    st = State(); pa, act, pp, pat, pm, mt = pat_setup(E, st); m = toz(pat.n)
    E.pat0 = pat.comps[0]; E.fact(z3.And(P(0) == 0, MT(0) == 0)); E.fact(toz(mt.n) == 0)
    E.ctx = (act, pat, pm, m)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('countMatches does not throw', False)
        w = E.getvec(st2, pm); c = toz(out[1])
        E.prove('countMatches: the number of consecutive non-overlapping matches, scanning from the first call', count_f(c))
        E.prove('countMatches: the matched list holds exactly the calls of the counted matches', matched_f(w, c))
        unchanged(E, st2, [('the history', pa, act), ('the pattern', pp, pat)]); heap_unchanged(E, st2, st)
    E.verify(fn, st.copy(), [pp, pa, pm], end)
def count_hints(E, st0):
    act, pat, pm, m = E.ctx
    def found(st, k):
        (i,) = q('i')
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), SUCC(P(i))), patterns=[P(i)])
    return {'ints': [('start of repetition k', lambda st, k: P(k)), ('k', lambda st, k: k)],
            'invs': [('all earlier repetitions found', found), ('position in range', lambda st, k: z3.And(P(k) >= k, P(k) <= act.n)),
                     ('matched calls so far', lambda st, k: matched_f(E.getvec(st, pm), k))],
            'facts': [lambda st, k: cm_facts(k, m) + [TOT(m) >= 0]]}


# ---- sets of invocations
SETB = 56
def setarg(E, st, name, empty=False):
    r = E.region(name, SETB); m = EMPTYSET if empty else z3.Array('%s!%d' % (name, fresh_id()), I, B)
    v = SetV(m); st.setcell(r, 0, SETB, ('set',), v)
    if not empty:
        (x,) = q('x'); E.fact(z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.And(x > 0, x < BASE0)), patterns=[z3.Select(m, x)]))
    return Ptr(r, 0), v
def ordkey(E):
    """heap map of Invocation::_ordinal and ::_isVerified, found from the accessors"""
    key = {}
    for nm, rx in (('ord', 'fakeit::Invocation::getOrdinal() const'), ('ver', 'fakeit::Invocation::isVerified() const'), ('ver', 'fakeit::Invocation::isVerified()')):
        fn = [n for n, d in E.dem.items() if d == rx and n in E.m.funcs]
        for n in fn:
            f = E.m.func(n)
            for b in f.blocks.values():
                for i in b:
                    if i.op == 'gep' and len(i.a['idx']) == 2 and i.ty[0] == 'struct' and 'Invocation' in i.ty[1]: key[nm] = (i.ty[1], i.a['idx'][1][1][1])
    if 'ord' not in key or 'ver' not in key: raise Unsupported('Invocation accessors')
    return key
def field_at(E, st, key, x):
    o = E.m.layout(('struct', key[0]))[2][key[1]]
    return z3.Select(E.hmap(st, key), x + o)
def is_ver(E, st, x): return field_at(E, st, ordkey(E)['ver'], x) == 1
def ver_bool(E, st, m):
    """the verified flag is a C++ bool"""
    (x,) = q('x'); f = field_at(E, st, ordkey(E)['ver'], x)
    return z3.ForAll([x], z3.Or(f == 0, f == 1), patterns=[f])
def distinct_ord(E, st, m):
    """ordinals of different recorded calls differ and are not negative (no wrap-around of the counter)"""
    x, y = q('x', 'y'); k = ordkey(E)['ord']
    fx, fy = unsigned(field_at(E, st, k, x)), unsigned(field_at(E, st, k, y))
    return z3.And(z3.ForAll([x, y], z3.Implies(z3.And(z3.Select(m, x), z3.Select(m, y), x != y), fx != fy), patterns=[z3.MultiPattern(z3.Select(m, x), z3.Select(m, y))]))
def unsigned(e): return z3.If(e >= 0, e, e + (1 << 32))
def sorted_f(E, st, v, n0, m, wit=()):
    """v from position n0 on is the enumeration of m by increasing ordinal; wit: explicit witnesses for positions"""
    def at(i, x): return z3.And(i >= n0, i < toz(v.n), z3.Select(a, i) == x)
    i, j, x = q('i', 'j', 'x'); k = ordkey(E)['ord']; a = v.comps[0]
    o = lambda e: unsigned(field_at(E, st, k, e))
    return [('only calls of the set are listed', z3.ForAll([i], z3.Implies(z3.And(i >= n0, i < toz(v.n)), z3.Select(m, z3.Select(a, i))), patterns=[z3.Select(a, i)])),
            ('every call of the set is listed', z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.Or(z3.Exists([i], at(i, x)), *[at(w(x), x) for w in wit])))),
            ('calls are in strictly increasing call order', z3.ForAll([i, j], z3.Implies(z3.And(i >= n0, i < j, j < toz(v.n)), o(z3.Select(a, i)) < o(z3.Select(a, j)))))]
def run_sort(E, fn):
    st = State(); ps, s = setarg(E, st, 'invocations'); pr, r = vecarg(E, st, 'result')
    E.fact(distinct_ord(E, st, s.mem)); E.ctx = (ps, s, pr, r)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('sortByInvocationOrder does not throw', False)
        w = E.getvec(st2, pr); (x,) = q('x')
        wit = [lambda e, g=g: g.info[2](e) + toz(r.n) for _, g in enums(st2)]
        for nm, f in sorted_f(E, st, w, toz(r.n), s.mem, wit): E.prove('sortByInvocationOrder: ' + nm, f)
        E.prove('sortByInvocationOrder: earlier contents are kept', z3.And(toz(w.n) >= toz(r.n), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(r.n)), z3.Select(w.comps[0], x) == z3.Select(r.comps[0], x)))))
        E.prove('sortByInvocationOrder: the set is not modified', getset(E, st2, ps).mem == s.mem)
        heap_unchanged(E, st2, st)
    E.verify(fn, st.copy(), [ps, pr], end)
def enums(st): return st.ghost.get('_enums', ())
def set_hints(E, st0):
    """candidates for loops over a set: what was inserted so far is what was enumerated so far (and passes the filter)"""
    invs = []
    preds = [('', lambda st, x: z3.BoolVal(True)), (' and is not verified', lambda st, x: z3.Not(is_ver(E, st, x)))]
    for rid, cells in st0.mem.items():
        for o, (z, ty, v) in cells.items():
            if isinstance(v, SetV):
                for m, r in enums(st0):
                    for pn, pf in preds:
                        def inv(st, k, rid=rid, o=o, v=v, r=r, m=m, pf=pf):
                            (x,) = q('x'); w = st.mem[rid][o][2]
                            return z3.ForAll([x], z3.Select(w.mem, x) == z3.Or(z3.Select(v.mem, x), z3.And(z3.Select(m, x), r.info[2](x) < k, pf(st, x))), patterns=[z3.Select(w.mem, x)] if not z3.is_store(w.mem) and w.mem.decl().kind() != z3.Z3_OP_CONST_ARRAY else [])
                        invs.append(('set %s+%d holds what was enumerated so far%s' % (Reg.table[rid].name, o, pn), inv))
            if isinstance(v, Vec) and v.esize == 8:
                for m, r in enums(st0):
                    def inv(st, k, rid=rid, o=o, v=v, r=r):
                        (x,) = q('x'); w = st.mem[rid][o][2]
                        return z3.And(toz(w.n) == toz(v.n) + k, z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(v.n) + k), z3.Select(w.comps[0], x) == z3.If(x < toz(v.n), z3.Select(v.comps[0], x), z3.Select(r.info[1], x - toz(v.n)))), patterns=[z3.Select(w.comps[0], x)]))
                    invs.append(('list %s+%d holds the enumeration so far' % (Reg.table[rid].name, o), inv))
    return {'invs': invs}
def sum_sort(E, st, name, a, inst):
    s = getset(E, st, a[0]); r = E.getvec(st, a[1]); (x,) = q('x')
    w = Vec(E.int('sorted.n', lo=0, hi=1 << 30), {0: E.arr('sorted')}, 8)
    for nm, f in sorted_f(E, st, w, toz(r.n), s.mem): E.fact(f)
    E.fact(z3.And(toz(w.n) >= toz(r.n), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < toz(r.n)), z3.Select(w.comps[0], x) == z3.Select(r.comps[0], x)), patterns=[z3.Select(w.comps[0], x)])))
    E.setvec(st, a[1], w)
    st.ghost['sorted'] = st.ghost.get('sorted', ()) + ((s.mem, w),)

# ---- invocation sources
SRC = z3.Function('SRC', I, z3.ArraySort(I, B))   # SRC(source): the calls recorded by the source
def union(E, a, b):
    (x,) = q('x')
    return z3.Lambda([x], z3.Or(z3.Select(a, x), z3.Select(b, x)))
def v_getactual(E, st, name, a, inst):
    s = getset(E, st, a[1]); m = z3.Array('set!%d' % fresh_id(), I, B); (x,) = q('x'); src = SRC(E.enc(a[0]))
    E.fact(z3.ForAll([x], z3.Select(m, x) == z3.Or(z3.Select(s.mem, x), z3.Select(src, x)), patterns=[z3.Select(m, x)]))
    E.fact(z3.ForAll([x], z3.Implies(z3.Select(src, x), z3.And(x > 0, x < BASE0)), patterns=[z3.Select(src, x)]))
    setset(E, st, a[1], SetV(m), SETB)
VIRT.append(VContract(r'::getActualInvocations\(', v_getactual, 'ActualInvocationsSource::getActualInvocations adds the calls of the source (interface contract)'))

def src_union_inv(E, p, base, vec):
    """set at p == base + the sources 0..k-1"""
    def inv(st, k):
        x, t = q('x', 't'); w = getset(E, st, p)
        return z3.And(z3.ForAll([x, t], z3.Implies(z3.And(t >= 0, t < k, z3.Select(SRC(z3.Select(vec.comps[0], t)), x)), z3.Select(w.mem, x)), patterns=[z3.Select(SRC(z3.Select(vec.comps[0], t)), x)]),
                      z3.ForAll([x], z3.Implies(z3.Select(base, x), z3.Select(w.mem, x)), patterns=[z3.Select(base, x)] if not base.decl().kind() == z3.Z3_OP_CONST_ARRAY else []),
                      z3.ForAll([x], z3.Implies(z3.Select(w.mem, x), z3.Or(z3.Select(base, x), z3.Exists([t], z3.And(t >= 0, t < k, z3.Select(SRC(z3.Select(vec.comps[0], t)), x))))), patterns=[z3.Select(w.mem, x)] if w.mem.decl().kind() != z3.Z3_OP_CONST_ARRAY else []))
    return inv
def union_spec(w, base, vec):
    x, t = q('x', 't')
    return z3.ForAll([x], z3.Select(w, x) == z3.Or(z3.Select(base, x), z3.Exists([t], z3.And(t >= 0, t < toz(vec.n), z3.Select(SRC(z3.Select(vec.comps[0], t)), x)))))
def run_collectactual(E, fn):
    st = State(); ps, s = setarg(E, st, 'into'); pv, v = vecarg(E, st, 'sources')
    (t,) = q('t'); E.fact(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < v.n), z3.And(z3.Select(v.comps[0], t) > 0, z3.Select(v.comps[0], t) < BASE0)), patterns=[z3.Select(v.comps[0], t)]))
    E.ctx = src_union_inv(E, ps, s.mem, v)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('collectActualInvocations does not throw', False)
        E.prove('collectActualInvocations: the calls of all sources are added, and nothing else', union_spec(getset(E, st2, ps).mem, s.mem, v))
        unchanged(E, st2, [('the source list', pv, v)]); heap_unchanged(E, st2, st)
    E.verify(fn, st.copy(), [ps, pv], end)
def run_aggregate(E, fn):
    st = State(); ps, s = setarg(E, st, 'into')
    this = E.region('this', None, sym=True); o = off(E, 'AIS_sources')
    v = E.vec(st, Ptr(this, o), 8, name='sources', hi=MAXN); (t,) = q('t')
    E.fact(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < v.n), z3.And(z3.Select(v.comps[0], t) > 0, z3.Select(v.comps[0], t) < BASE0)), patterns=[z3.Select(v.comps[0], t)]))
    E.ctx = v
    def end(st2, out):
        if out[0] != 'ret': return E.prove('AggregateInvocationsSource::getActualInvocations does not throw', False)
        E.prove('AggregateInvocationsSource: the calls of all sources are added, each once, and nothing else', union_spec(getset(E, st2, ps).mem, s.mem, v))
        heap_unchanged(E, st2, st)
    E.verify(fn, st.copy(), [Ptr(this, 0), ps], end)
def aggregate_hints(E, st0):
    h = set_hints(E, st0); v = E.ctx
    for rid, cells in st0.mem.items():
        for o, (z, ty, c) in cells.items():
            if isinstance(c, SetV): h['invs'].append(('set %s holds the calls of the first k sources' % Reg.table[rid].name, src_union_inv(E, Ptr(Reg.table[rid], o), c.mem, v)))
    return h
def run_unverified(E, fn):
    st = State(); ps, s = setarg(E, st, 'into')
    this = E.region('this', None, sym=True)
    inner = E.ref('inner'); o = off(E, 'UIS_decorated') + off(E, 'ISP_inner'); st.setcell(this, o, 8, ir.PTR, inner)
    E.fact(ver_bool(E, st, s.mem))
    def end(st2, out):
        if out[0] != 'ret': return E.prove('UnverifiedInvocationsSource::getActualInvocations does not throw', False)
        (x,) = q('x'); w = getset(E, st2, ps).mem
        E.prove('UnverifiedInvocationsSource: exactly the calls of the inner source that are not verified are added', z3.ForAll([x], z3.Select(w, x) == z3.Or(z3.Select(s.mem, x), z3.And(z3.Select(SRC(inner.off), x), z3.Not(is_ver(E, st, x))))))
        heap_unchanged(E, st2, st)
    E.verify(fn, st.copy(), [Ptr(this, 0), ps], end)
def run_selectnon(E, fn):
    st = State(); pa, a = setarg(E, st, 'actual'); ps, s = setarg(E, st, 'into'); E.fact(ver_bool(E, st, s.mem))
    def end(st2, out):
        if out[0] != 'ret': return E.prove('selectNonVerifiedInvocations does not throw', False)
        (x,) = q('x'); w = getset(E, st2, ps).mem
        E.prove('selectNonVerifiedInvocations: exactly the calls that are not verified are selected', z3.ForAll([x], z3.Select(w, x) == z3.Or(z3.Select(s.mem, x), z3.And(z3.Select(a.mem, x), z3.Not(is_ver(E, st, x))))))
        E.prove('selectNonVerifiedInvocations: the given set is not modified', getset(E, st2, pa).mem == a.mem)
        heap_unchanged(E, st2, st)
    E.verify(fn, st.copy(), [pa, ps], end)
def run_proxy(E, fn):
    st = State(); ps, s = setarg(E, st, 'into'); this = E.region('this', None, sym=True); inner = E.ref('inner'); st.setcell(this, off(E, 'ISP_inner'), 8, ir.PTR, inner)
    def end(st2, out):
        if out[0] != 'ret': return E.prove('InvocationsSourceProxy does not throw', False)
        (x,) = q('x')
        E.prove('InvocationsSourceProxy: exactly the calls of the inner source are added', z3.ForAll([x], z3.Select(getset(E, st2, ps).mem, x) == z3.Or(z3.Select(s.mem, x), z3.Select(SRC(inner.off), x))))
        heap_unchanged(E, st2, st)
    E.verify(fn, st.copy(), [Ptr(this, 0), ps], end)

import sys, _phrases
_vc, _sp, _sum = _phrases.build(sys.modules[__name__]); VIRT += _vc

SPECS = [
    Spec('isMatch', r'^fakeit::MatchAnalysis::isMatch\(', ['C03'], run_ismatch, 'every criterion accepts the call at its position', sum_ismatch, ismatch_hints),
    Spec('findNextMatch', r'^fakeit::MatchAnalysis::findNextMatch\(fakeit::Sequence\*&', ['C03'], run_findnext1, 'first match of one sequence', sum_findnext1, findnext1_hints),
    Spec('collectMatchedInvocations', r'^fakeit::MatchAnalysis::collectMatchedInvocations\(', ['C04'], run_collect, 'appends the matched calls', sum_collect, collect_hints),
    Spec('findNextMatch(pattern)', r'^fakeit::MatchAnalysis::findNextMatch\(std::vector', ['C03', 'C04'], run_findnext2, 'greedy match of the whole pattern', sum_findnext2, findnext2_hints),
    Spec('countMatches', r'^fakeit::MatchAnalysis::countMatches\(', ['C03', 'C04'], run_count, 'greedy count', _sum['count'], count_hints),
    Spec('sortByInvocationOrder', r'^fakeit::InvocationUtils::sortByInvocationOrder\(', ['C05', 'C03', 'C04'], run_sort, 'all calls of the set, by call order', _sum['sort'], set_hints),
    Spec('collectActualInvocations', r'^fakeit::InvocationUtils::collectActualInvocations\(', ['C05', 'C04'], run_collectactual, 'union of the sources', _sum['collectactual'], lambda E, st0: {'invs': [('calls of the first k sources', E.ctx)]}),
    Spec('selectNonVerifiedInvocations', r'^fakeit::InvocationUtils::selectNonVerifiedInvocations\(', ['C04'], run_selectnon, 'not verified calls', _sum['selectnon'], set_hints),
    Spec('AggregateInvocationsSource', r'^fakeit::AggregateInvocationsSource::getActualInvocations\(', ['C05'], run_aggregate, 'union of the sources', _sum['aggregate'], aggregate_hints),
    Spec('UnverifiedInvocationsSource', r'^fakeit::UnverifiedInvocationsSource::getActualInvocations\(', ['C04', 'C05'], run_unverified, 'filter of the inner source', None, set_hints),
    Spec('InvocationsSourceProxy', r'^fakeit::InvocationsSourceProxy::getActualInvocations\(', ['C05'], run_proxy, 'delegates'),
] + _sp
GROUP = Group('verify', 'verify.cpp', SPECS, VIRT)
