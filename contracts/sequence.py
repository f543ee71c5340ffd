"""Contracts of sequence expressions."""
import z3, ir
from engine import *
from spec import Spec, Group
from stdmodels import VContract, Contract
import verify as V
from verify import q, vecarg, SZ, EXP, MAXN, heap_unchanged, I
from _phrases import NM, MK
RT = z3.Function('RT', I, I); RV = z3.Function('RV', I, I, I)   # length and contents of the k-fold repetition

def v_appender(LEN, ELT, lo):
    def f(E, st, name, a, inst):
        S = E.enc(a[0]); v = E.getvec(st, a[1], 8); E.fact(z3.And(LEN(S) >= lo, LEN(S) <= MAXN)); na = E.arr('app'); (j,) = q('j')
        E.fact(z3.ForAll([j], z3.Select(na, j) == z3.If(z3.And(j >= toz(v.n), j < toz(v.n) + LEN(S)), ELT(S, j - toz(v.n)), z3.Select(v.comps[0], j)), patterns=[z3.Select(na, j)]))
        E.setvec(st, a[1], Vec(add(v.n, LEN(S)), {0: na}, 8))
    return f
MOCK = z3.Function('MOCK', I, I)
VIRT = [VContract(r'Sequence::size\(\) const', V.v_size, 'Sequence::size of an operand (interface contract)'),
        VContract(r'Sequence::getExpectedSequence\(', v_appender(SZ, EXP, 1), 'Sequence::getExpectedSequence of an operand (interface contract)'),
        VContract(r'Sequence::getInvolvedMocks\(', v_appender(NM, MK, 0), 'Sequence::getInvolvedMocks of an operand (interface contract)'),
        VContract(r'Context::getInvolvedMock\(', lambda E, st, name, a, inst: Ptr(None, MOCK(E.enc(a[0]))), 'Context::getInvolvedMock (interface contract)'),
        VContract(r'Context::~|Destructible::~|~Context', lambda E, st, name, a, inst: None, 'destructors of the context')]

def appended(E, st2, p, v, parts, what):
    """the list at p is v followed by the parts [(length, element function)]"""
    w = E.getvec(st2, p); n = toz(v.n); x = E.int('pos')
    tot = n
    for ln, f in parts: tot = tot + ln
    E.prove(what + ': length', toz(w.n) == tot)
    E.prove(what + ': earlier contents are kept', z3.Implies(z3.And(x >= 0, x < n), z3.Select(w.comps[0], x) == z3.Select(v.comps[0], x)))
    at = n
    for i, (ln, f) in enumerate(parts):
        E.prove(what + ': part %d in order' % (i + 1), z3.Implies(z3.And(x >= 0, x < ln), z3.Select(w.comps[0], at + x) == f(x)))
        at = at + ln
def run_list(nargs, parts, what):
    def run(E, fn):
        st = State(); ops = [E.ref('op%d' % i) for i in range(nargs)]; p, v = vecarg(E, st, 'into')
        def end(st2, out):
            if out[0] != 'ret': return E.prove(what + ' does not throw', False)
            appended(E, st2, p, v, [g(ops) for g in parts], what); heap_unchanged(E, st2, st)
        E.verify(fn, st.copy(), ops + [p], end)
    return run
def exp(i): return lambda ops: (SZ(ops[i].off), lambda x: EXP(ops[i].off, x))
def mocks(i): return lambda ops: (NM(ops[i].off), lambda x: MK(ops[i].off, x))
def rep_facts(S, n, k):
    (x,) = q('x')
    return [z3.Or(k < n, k > n, z3.And(RT(k) == RT(n), z3.ForAll([x], RV(k, x) == RV(n, x), patterns=[RV(n, x)]))), RT(0) == 0, RT(k + 1) == RT(k) + SZ(S), RT(k) >= 0, z3.ForAll([x], RV(k + 1, x) == z3.If(x < RT(k), RV(k, x), EXP(S, x - RT(k))), patterns=[RV(k + 1, x)])]
def run_rep(first, what):
    def run(E, fn):
        st = State(); a = E.ref('a'); n = E.int('n', 32); p, v = vecarg(E, st, 'into'); args = [a, n, p]; pre = []
        if first: b = E.ref('first'); args = [b, a, n, p]
        E.fact(RT(0) == 0); E.ctx = (a.off, n, p, first and b.off, v)
        def end(st2, out):
            if out[0] != 'ret':
                E.prove(what + ': invalid_argument exactly when n <= 0', z3.And(z3.BoolVal(out[1].ti == '_ZTISt16invalid_argument'), n <= 0)); return
            E.prove(what + ': n <= 0 is rejected', n > 0)
            parts = ([(SZ(b.off), lambda x: EXP(b.off, x))] if first else []) + [(RT(n), lambda x: RV(n, x))]
            appended(E, st2, p, v, parts, what); heap_unchanged(E, st2, st)
        E.verify(fn, st.copy(), args, end)
    return run
def rep_hints(E, st0):
    S, n, p, b, v = E.ctx; w0 = E.getvec(st0, p)
    def content(st, k):
        w = E.getvec(st, p); (x,) = q('x'); n0 = toz(w0.n)
        return z3.And(toz(w.n) == n0 + RT(k), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n0 + RT(k)), z3.Select(w.comps[0], x) == z3.If(x < n0, z3.Select(w0.comps[0], x), RV(k, x - n0))), patterns=[z3.Select(w.comps[0], x)]))
    return {'ints': [('k', lambda st, k: k)], 'invs': [('k repetitions appended', content), ('k within n', lambda st, k: k <= n)], 'facts': [lambda st, k: rep_facts(S, n, k)]}
def run_size(kind):
    def run(E, fn):
        st = State(); a = E.ref('a')
        if kind == 'cat': b = E.ref('b'); args = [a, b]; E.fact(SZ(a.off) + SZ(b.off) < (1 << 31)); want = SZ(a.off) + SZ(b.off)
        else: n = E.int('n', 32); args = [a, n]; want = SZ(a.off) * n; E.fact(z3.Implies(n > 0, z3.And(want < (1 << 31), want >= n)))
        def end(st2, out):
            if out[0] != 'ret':
                if kind == 'cat': return E.prove('size does not throw', False)
                return E.prove('invalid_argument exactly when n <= 0', z3.And(z3.BoolVal(out[1].ti == '_ZTISt16invalid_argument'), n <= 0))
            if kind == 'rep': E.prove('n <= 0 is rejected', n > 0)
            E.prove('size is the length of the denoted list', toz(out[1]) == want); heap_unchanged(E, st2, st)
        E.verify(fn, st.copy(), args, end)
    return run
def run_repmocks(E, fn):
    st = State(); a = E.ref('a'); n = E.int('n', 32); p, v = vecarg(E, st, 'into')
    def end(st2, out):
        if out[0] != 'ret': return E.prove('invalid_argument exactly when n <= 0', z3.And(z3.BoolVal(out[1].ti == '_ZTISt16invalid_argument'), n <= 0))
        E.prove('n <= 0 is rejected', n > 0); x = E.int('pos'); y = E.int('j'); w = E.getvec(st2, p); m = toz(v.n)
        # the same mock may be listed any number of times
        E.prove('every mock of the operand is listed', z3.Implies(z3.And(y >= 0, y < NM(a.off)), z3.Select(w.comps[0], m + y) == MK(a.off, y)))
        E.prove('only mocks of the operand are added', z3.Implies(z3.And(x >= m, x < toz(w.n)), z3.And(x - m < NM(a.off), z3.Select(w.comps[0], x) == MK(a.off, x - m))))
        E.prove('earlier contents are kept', z3.And(toz(w.n) >= m + NM(a.off), z3.Implies(z3.And(x >= 0, x < m), z3.Select(w.comps[0], x) == z3.Select(v.comps[0], x)))); heap_unchanged(E, st2, st)
    E.verify(fn, st.copy(), [a, n, p], end)
def run_one(E, fn):
    st = State(); c = E.ref('context'); p, v = vecarg(E, st, 'into')
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        E.prove('a method phrase denotes itself: the last element is the phrase', E.tobool(out[1]))
        w = E.getvec(st2, p)
        appended(E, st2, p, v, [(z3.IntVal(1), lambda x: z3.Select(w.comps[0], toz(w.n) - 1))], 'a method phrase denotes itself')
    E.verify(fn, st.copy(), [c, p], end)
def run_onesize(E, fn):
    st = State(); c = E.ref('context')
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        E.prove('a method phrase has size 1', toz(out[1]) == 1)
    E.verify(fn, st.copy(), [c], end)
def run_onemocks(E, fn):
    st = State(); x = E.ref('context'); p, v = vecarg(E, st, 'into')
    E.fact(z3.And(MOCK(x.off) > 0, MOCK(x.off) < BASE0))
    def end(st2, out):
        if out[0] != 'ret': return E.prove('does not throw', False)
        appended(E, st2, p, v, [(z3.IntVal(1), lambda y: MOCK(x.off))], 'a method phrase mentions its mock')
    E.verify(fn, st.copy(), [x, p], end)
def run_get(want, nm, rep=False):
    def run(E, fn):
        st = State(); a = E.ref('a'); b = E.int('n', 32) if rep else E.ref('b')
        def end(st2, out):
            if out[0] != 'ret': return E.prove('invalid_argument exactly when n <= 0', toz(b) <= 0 if rep else False)
            r = out[1]; E.prove(nm, (E.enc(r) if isinstance(r, Ptr) else toz(r)) == (a.off if want == 0 else (b if rep else b.off)))
        E.verify(fn, st.copy(), [a, b], end)
    return run
P6 = ['C06']
SPECS = [
    Spec('cat', '^sq_cat$', P6, run_list(2, [exp(0), exp(1)], 'a + b'), 'a + b lists a, then b'),
    Spec('cat (as Sequence)', '^sq_cat_base$', P6, run_list(2, [exp(0), exp(1)], 'a + b'), 'a + b lists a, then b'),
    Spec('cat three', '^sq_nest2$', P6, run_list(3, [exp(0), exp(1), exp(2)], '(a + b) + c'), 'a, then b, then c'),
    Spec('cat size', '^sq_cat_size$', P6, run_size('cat'), 'size of a + b'),
    Spec('cat mocks', '^sq_cat_mocks$', P6 + ['C05'], run_list(2, [mocks(0), mocks(1)], 'mocks of a + b'), 'mocks of a + b'),
    Spec('repeat', '^sq_rep$', P6, run_rep(False, 'a * n'), 'n-fold repetition', None, rep_hints),
    Spec('repeat left', '^sq_repl$', P6, run_rep(False, 'n * a'), 'n-fold repetition', None, rep_hints),
    Spec('repeat size', '^sq_rep_size$', P6, run_size('rep'), 'size of a * n'),
    Spec('repeat left size', '^sq_repl_size$', P6, run_size('rep'), 'size of n * a'),
    Spec('repeat mocks', '^sq_rep_mocks$', P6 + ['C05'], run_repmocks, 'mocks of a * n'),
    Spec('repeat left mocks', '^sq_repl_mocks$', P6 + ['C05'], run_repmocks, 'mocks of n * a'),
    Spec('nested', '^sq_nest$', P6, run_rep(True, 'a + b * n'), 'a followed by the repetition of b', None, rep_hints),
    Spec('phrase', '^sq_one$', P6, run_one, 'a method phrase denotes itself'),
    Spec('phrase size', '^sq_one_size$', P6, run_onesize, 'a method phrase has size 1'),
    Spec('phrase mocks', '^sq_one_mocks$', P6 + ['C05'], run_onemocks, 'a method phrase mentions its mock'),
    Spec('left operand', '^sq_left$', P6, run_get(0, 'getLeft is the left operand'), 'getLeft'),
    Spec('right operand', '^sq_right$', P6, run_get(1, 'getRight is the right operand'), 'getRight'),
    Spec('repeated operand', '^sq_inner$', P6, run_get(0, 'getSequence is the operand', True), 'getSequence'),
    Spec('repetitions', '^sq_times$', P6, run_get(1, 'getTimes is the number of repetitions', True), 'getTimes'),
]
GROUP = Group('sequence', 'sequence.cpp', SPECS, VIRT)
