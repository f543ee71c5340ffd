"""Contracts of whole verification phrases (client functions of the harness)."""
import z3, ir
from engine import *
from spec import Spec, off
from stdmodels import VContract, getset, setset, EMPTYSET

NM = z3.Function('NM', z3.IntSort(), z3.IntSort())                 # number of mocks a sequence mentions
MK = z3.Function('MK', z3.IntSort(), z3.IntSort(), z3.IntSort())   # MK(S, j): j-th mock of the sequence
TB = z3.Function('mention', z3.BoolSort(), z3.BoolSort())
EV = 'fakeit::VerificationEvent::'; SE = 'fakeit::SequenceVerificationEvent::'; NE = 'fakeit::NoMoreInvocationsVerificationEvent::'
KIND = {'exact': 0, 'atleast': 1}

def build(V):
    """V: the module with the contracts of the functions below the phrases"""
    q = V.q; SRC = V.SRC; I = V.I; B = V.B
    def v_involved(E, st, name, a, inst):
        S = E.enc(a[0]); v = E.getvec(st, a[1], 8); E.fact(z3.And(NM(S) >= 0, NM(S) <= V.MAXN))
        na = E.arr('mocks'); (j,) = q('j')
        E.fact(z3.ForAll([j], z3.Select(na, j) == z3.If(z3.And(j >= toz(v.n), j < toz(v.n) + NM(S)), MK(S, j - toz(v.n)), z3.Select(v.comps[0], j)), patterns=[z3.Select(na, j)]))
        st.ghost['mocks'] = st.ghost.get('mocks', ()) + ((S, toz(v.n), na),)
        E.setvec(st, a[1], Vec(add(v.n, NM(S)), {0: na}, 8))
    def sum_aggregate(E, st, name, a, inst):
        v = E.getvec(st, Ptr(a[0].base, add(a[0].off, off(E, 'AIS_sources'))), 8)
        if isint(v.n) and any(E.dec(z3.Select(v.comps[0], i)).base is not None for i in range(v.n)): return InlineInstead()
        v = E.getvec(st, Ptr(a[0].base, add(a[0].off, off(E, 'AIS_sources'))), 8); s = getset(E, st, a[1])
        m = z3.Array('set!%d' % fresh_id(), I, B); x, t = q('x', 't'); w = z3.Function('wit!%d' % fresh_id(), I, I)
        E.fact(z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.Or(z3.Select(s.mem, x), z3.And(w(x) >= 0, w(x) < toz(v.n), z3.Select(SRC(z3.Select(v.comps[0], w(x))), x)))), patterns=[z3.Select(m, x)]))
        E.fact(z3.ForAll([x], z3.Implies(z3.Select(s.mem, x), z3.Select(m, x))))
        E.fact(z3.ForAll([x, t], z3.Implies(z3.And(t >= 0, t < toz(v.n), z3.Select(SRC(z3.Select(v.comps[0], t)), x)), z3.Select(m, x)), patterns=[z3.Select(SRC(z3.Select(v.comps[0], t)), x)]))
        E.fact(z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.And(x > 0, x < BASE0)), patterns=[z3.Select(m, x)]))
        setset(E, st, a[1], SetV(m), V.SETB)
        st.ghost['union'] = st.ghost.get('union', ()) + ((m, s.mem, v, w),)
    def sum_collectactual(E, st, name, a, inst):
        v = E.getvec(st, a[1], 8); s = getset(E, st, a[0]); m = z3.Array('set!%d' % fresh_id(), I, B); x, t = q('x', 't'); w = z3.Function('wit!%d' % fresh_id(), I, I)
        E.fact(z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.Or(z3.Select(s.mem, x), z3.And(w(x) >= 0, w(x) < toz(v.n), z3.Select(SRC(z3.Select(v.comps[0], w(x))), x)))), patterns=[z3.Select(m, x)]))
        E.fact(z3.ForAll([x], z3.Implies(z3.Select(s.mem, x), z3.Select(m, x))))
        E.fact(z3.ForAll([x, t], z3.Implies(z3.And(t >= 0, t < toz(v.n), z3.Select(SRC(z3.Select(v.comps[0], t)), x)), z3.Select(m, x)), patterns=[z3.Select(SRC(z3.Select(v.comps[0], t)), x)]))
        if isint(v.n):
            for i in range(v.n): E.fact(z3.ForAll([x], z3.Implies(z3.Select(SRC(simp(z3.Select(v.comps[0], i))), x), z3.Select(m, x))))
        E.fact(z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.And(x > 0, x < BASE0)), patterns=[z3.Select(m, x)]))
        setset(E, st, a[0], SetV(m), V.SETB)
    def sum_selectnon(E, st, name, a, inst):
        s = getset(E, st, a[0]); t = getset(E, st, a[1]); m = z3.Array('set!%d' % fresh_id(), I, B); (x,) = q('x')
        E.fact(z3.ForAll([x], z3.Select(m, x) == z3.Or(z3.Select(t.mem, x), z3.And(z3.Select(s.mem, x), z3.Not(V.is_ver(E, st, x)))), patterns=[z3.Select(m, x), z3.Select(s.mem, x)] if s.mem.decl().kind() == z3.Z3_OP_UNINTERPRETED else [z3.Select(m, x)]))
        setset(E, st, a[1], SetV(m), V.SETB)
    def sum_sort(E, st, name, a, inst):
        E.trusted.add('different recorded calls have different ordinals (C20; no wrap-around of the 32-bit counter)')
        V.sum_sort(E, st, name, a, inst)
    def sum_count(E, st, name, a, inst):
        pat = E.getvec(st, a[0]); act = E.getvec(st, a[1]); mt = E.getvec(st, a[2])
        E.prove('call of countMatches: the list of matched calls is empty', toz(mt.n) == 0)
        E.prove('call of countMatches: the pattern is not empty', toz(pat.n) >= 1)
        c = E.int('count', 32); E.fact(z3.And(c >= 0, c <= toz(act.n)))
        w = Vec(E.int('matched.n', lo=0, hi=1 << 30), {0: E.arr('matched')}, 8); (t,) = q('t')
        E.fact(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < w.n), z3.And(z3.Select(w.comps[0], t) > 0, z3.Select(w.comps[0], t) < BASE0)), patterns=[z3.Select(w.comps[0], t)]))
        E.setvec(st, a[2], w)
        st.ghost['counted'] = st.ghost.get('counted', ()) + ((pat, act, c, w),)
        return c
    # ---- marking
    def marked(E, h0, h1, v, k):
        """the verified flags h1 are h0 with the flags of v[0..k-1] set"""
        o = flagoff(E); y, t = q('y', 't')
        return z3.And(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < k), z3.Select(h1, z3.Select(v, t) + o) == 1), patterns=[z3.Select(v, t)]),
                      z3.ForAll([y], z3.Or(z3.Select(h1, y) == z3.Select(h0, y), z3.And(z3.Select(h1, y) == 1, z3.Exists([t], z3.And(t >= 0, t < k, z3.Select(v, t) + o == y)))), patterns=[z3.Select(h1, y)] if h1.decl().kind() == z3.Z3_OP_UNINTERPRETED else []))
    def flagkey(E): return V.ordkey(E)['ver']
    def flagoff(E): k = flagkey(E); return E.m.layout(('struct', k[0]))[2][k[1]]
    def run_mark(E, fn):
        st = State(); pv, v = V.vecarg(E, st, 'matched'); (t,) = q('t')
        E.fact(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < v.n), z3.And(z3.Select(v.comps[0], t) > 0, z3.Select(v.comps[0], t) < BASE0)), patterns=[z3.Select(v.comps[0], t)]))
        h0 = E.hmap(st, flagkey(E)); E.ctx = (h0, v)
        def end(st2, out):
            if out[0] != 'ret': return E.prove('markAsVerified does not throw', False)
            E.prove('markAsVerified: exactly the given calls become verified, no flag is taken back', marked(E, h0, E.hmap(st2, flagkey(E)), v.comps[0], toz(v.n)))
            V.unchanged(E, st2, [('the list', pv, v)])
            others(E, st2, st)
        E.verify(fn, st.copy(), [pv], end)
    def others(E, st2, st):
        for k, h in st2.heap.items():
            if k == flagkey(E): continue
            o = st.heap.get(k)
            if o is None: o = z3.Array('H_%s!0' % '_'.join(map(str, k)), I, I)
            E.prove('no other field is modified (%s)' % (k,), True if h.eq(o) else h == o)
    def mark_hints(E, st0):
        h0, v = E.ctx
        return {'invs': [('the flags of the first k calls are set', lambda st, k: marked(E, h0, E.hmap(st, flagkey(E)), v.comps[0], k)), ('k in range', lambda st, k: k <= toz(v.n))]}
    def sum_mark(E, st, name, a, inst):
        v = E.getvec(st, a[0]); h0 = E.hmap(st, flagkey(E)); h1 = z3.Array('H!%d' % fresh_id(), I, I)
        E.fact(marked(E, h0, h1, v.comps[0], toz(v.n))); st.heap[flagkey(E)] = h1
    # ---- handlers
    def v_handle(E, st, name, a, inst):
        st.ghost['events'] = st.ghost.get('events', ()) + ((a[0], a[1], st.copy()),)
        x = Exc(None, E.ref('exc')); st.ghost['hexc'] = x
        return Alts([Alt([]), Alt([], throw=x)])
    VC = [VContract(r'Sequence::getInvolvedMocks\(', v_involved, 'Sequence::getInvolvedMocks (interface contract; overriders are verified in group sequence)'),
          VContract(r'EventHandler::handle\(', v_handle, 'event handlers are arbitrary: they may return or throw, and do not change recorded calls')]
    def vec_is(E, v, items):
        if not isinstance(v, Vec): raise Unsupported('vector')
        return z3.And(toz(v.n) == len(items), *[z3.Select(v.comps[0], i) == x for i, x in enumerate(items)])
    def vec_eq(v, w):
        if eqv(v, w): return True
        (i,) = q('i')
        return z3.And(toz(v.n) == toz(w.n), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < toz(v.n)), z3.Select(v.comps[0], i) == z3.Select(w.comps[0], i))))
    def accessor(E, st, ev, cls, nm):
        r = E.value(st, cls + nm + '() const', [ev]); return r
    def functor(E, st, name):
        ctx = E.ref('context'); r = E.region(name, 16); st.setcell(r, 0, 8, ir.PTR, ctx); return Ptr(r, 0), ctx
    def sources_f(E, st, mem, kind, seqs, srcs):
        """mem is exactly the calls of the involved sources"""
        (x, j) = q('x', 'j')
        if kind == 'verify': inv = z3.Or(*[z3.Exists([j], z3.And(j >= 0, j < NM(S), z3.Select(SRC(MK(S, j)), x))) for S in seqs])
        else: inv = z3.Or(*[z3.Select(SRC(s), x) for s in srcs])
        return x, inv
    def src_obl(E, st2, mem, kind, seqs, srcs, unv):
        """both directions of: mem is the set of calls of the involved sources"""
        x, j = q('x', 'j'); x0 = E.int('call'); f = (lambda e: z3.Not(V.is_ver(E, E.pre, e))) if unv else (lambda e: z3.BoolVal(True))
        if kind == 'verify':
            # instances for the mocks of each sequence
            for S in seqs:
                j0 = E.int('j'); E.push()
                E.fact(z3.And(j0 >= 0, j0 < NM(S), z3.Select(SRC(MK(S, j0)), x0), f(x0)))
                for S2, n0, na in st2.ghost.get('mocks', ()):
                    if S2.eq(S): E.fact(z3.Select(na, n0 + j0) == MK(S, j0)) if E.entails(z3.Select(na, n0 + j0) == MK(S, j0)) else None
                for m, base, v, w in st2.ghost.get('union', ()):
                    for S2, n0, na in st2.ghost.get('mocks', ()):
                        if S2.eq(S):
                            lem = z3.Select(v.comps[0], n0 + j0) == MK(S, j0)
                            if E.entails(lem): E.fact(lem)
                            E.fact(TB(z3.Select(SRC(z3.Select(v.comps[0], n0 + j0)), x0)))
                E.prove('every call of an involved mock takes part', z3.Select(mem, x0), assume=False)
                E.pop()
            wit = [w(x0) for m, base, v, w in st2.ghost.get('union', ())]
            alt = [z3.And(i - n0 >= 0, i - n0 < NM(S2), z3.Select(SRC(MK(S2, i - n0)), x0)) for i in wit for S2, n0, na in st2.ghost.get('mocks', ())] + [z3.And(i >= 0, i < NM(S), z3.Select(SRC(MK(S, i)), x0)) for i in wit for S in seqs]
            E.push(); E.fact(z3.Select(mem, x0))
            E.prove('only calls of involved mocks take part', z3.And(f(x0), z3.Or(*(alt + [z3.Exists([j], z3.And(j >= 0, j < NM(S), z3.Select(SRC(MK(S, j)), x0))) for S in seqs]))), assume=False)
            E.pop()
        else:
            inv = z3.And(f(x0), z3.Or(*[z3.Select(SRC(s), x0) for s in srcs]))
            E.push(); E.fact(z3.Select(mem, x0)); E.prove('only calls of the given sources take part', inv, assume=False); E.pop()
            for s in srcs:
                E.push(); E.fact(z3.And(z3.Select(SRC(s), x0), f(x0)))
                for m, base, v, w in st2.ghost.get('union', ()):
                    if isint(v.n):
                        for i in range(v.n): E.fact(z3.Select(v.comps[0], i) == simp(z3.Select(v.comps[0], i))); y = z3.Select(SRC(z3.Select(v.comps[0], i)), x0); E.fact(TB(y))
                E.prove('every call of a given source takes part', z3.Select(mem, x0), assume=False); E.pop()
    def client(kind, pred, ev, mode='stmt', extra=(), neg=True, unv=False, quantity=True):
        """pred(c, n): the phrase passes; ev(n): (kind, expected count) of the event"""
        def run(E, fn):
            st = State(); pf, ctx = functor(E, st, 'functor'); A = E.ref('a'); f = E.ref('file'); m = E.ref('method'); l = E.int('line', 32); n = E.int('n', 32)
            args = [pf, A, f, l, m, n]; seqs = [A.off]; srcs = []
            for e in extra:
                p = E.ref(e); args.append(p)
                if e.startswith('seq'): seqs.append(p.off)
                elif e.startswith('src'): srcs.append(p.off)
            u = E.int('uncaught', 32); E.fact(u >= 0); st.ghost['_uncaught'] = u
            E.pre = st; V.flags0 = E.hmap(st, flagkey(E)); E.hmap(st, V.ordkey(E)['ord'])
            if unv: E.fact(V.ver_bool(E, st, None))
            def end(st2, out):
                cnt = st2.ghost.get('counted', ()); evs = st2.ghost.get('events', ()); h1 = E.hmap(st2, flagkey(E)); h0 = V.flags0
                bad = z3.And(n < 0, z3.BoolVal(quantity))
                if out[0] != 'ret' and out[1].ti == '_ZTISt16invalid_argument':
                    E.prove('invalid_argument only for a negative quantity', bad)
                    E.prove('a rejected quantity does not evaluate the phrase', z3.BoolVal(not cnt and not evs)); others(E, st2, st); return
                if quantity: E.prove('a negative quantity is rejected', z3.Not(bad))
                if mode == 'stmt':
                    if not cnt:
                        E.prove('the phrase is evaluated at the end of the statement unless the stack is being unwound', u > 0)
                        E.prove('an abandoned phrase reports nothing', z3.BoolVal(not evs and out[0] == 'ret')); E.prove('an abandoned phrase marks nothing', h0 == h1); others(E, st2, st); return
                    E.prove('the phrase is not evaluated while the stack is being unwound', u == 0)
                if len(cnt) != 1: return E.prove('the phrase is evaluated exactly once', False)
                pat, act, c, mt = cnt[0]
                E.prove('the pattern counted is the pattern written', vec_is(E, pat, seqs))
                srt = [s for s in st2.ghost.get('sorted', ())]
                if not srt: raise Unsupported('the history is not sorted by sortByInvocationOrder')
                mem, w = srt[0]
                E.prove('the sequence counted is the history in call order', vec_eq(act, w))
                src_obl(E, st2, mem, kind, seqs, srcs, unv)
                ok = pred(c, n)
                passed = not evs if mode == 'stmt' else None
                if mode == 'stmt':
                    E.prove('no event on success' if not evs else 'an event only on failure', ok if not evs else z3.Not(ok))
                    E.prove('at most one event', z3.BoolVal(len(evs) <= 1))
                    if not evs: E.prove('a passing phrase does not throw', z3.BoolVal(out[0] == 'ret'))
                    for hp, e, se in evs:
                        E.prove('the event goes to the context of the phrase', E.enc(hp) == E.enc(ctx))
                        k, x = ev(n); E.prove('the event carries the kind', toz(accessor(E, se, e, EV, 'verificationType')) == k)
                        E.prove('the event carries the expected count', toz(accessor(E, se, e, SE, 'expectedCount')) == x)
                        E.prove('the event carries the actual count', toz(accessor(E, se, e, SE, 'actualCount')) == c)
                        E.prove('the event carries the actual sequence', vec_eq(E.getvec(se, accessor(E, se, e, SE, 'actualSequence')), w))
                        E.prove('the event carries the pattern', vec_is(E, E.getvec(se, accessor(E, se, e, SE, 'expectedPattern')), seqs))
                        E.prove('the event carries the file', E.enc(accessor(E, se, e, EV, 'file')) == f.off)
                        E.prove('the event carries the line', toz(accessor(E, se, e, EV, 'line')) == l)
                        E.prove('the event carries the function', E.enc(accessor(E, se, e, EV, 'callingMethod')) == m.off)
                        if out[0] != 'ret': E.prove('only what the handler threw leaves the phrase', z3.BoolVal(out[1] is st2.ghost.get('hexc')))
                else:
                    if out[0] != 'ret': return E.prove('a phrase converted to bool does not throw', False)
                    E.prove('a phrase converted to bool reports nothing', z3.BoolVal(not evs))
                    r = b2z(out[1]); E.prove('the converted phrase says whether it passed', r == (ok if mode == 'bool' else z3.Not(ok)))
                E.prove('a failing phrase marks nothing as verified', z3.Implies(z3.Not(ok), h0 == h1))
                (t, y) = q('t', 'y'); o = flagoff(E); t0 = E.int('t')
                E.push(); E.fact(ok)
                E.prove('a passing phrase marks every matched call', z3.Implies(z3.And(t0 >= 0, t0 < toz(mt.n)), z3.Select(h1, z3.Select(mt.comps[0], t0) + o) == 1), assume=False)
                E.prove('a passing phrase marks only matched calls', z3.ForAll([y], z3.Or(z3.Select(h1, y) == z3.Select(h0, y), z3.And(z3.Select(h1, y) == 1, z3.Exists([t], z3.And(t >= 0, t < toz(mt.n), z3.Select(mt.comps[0], t) + o == y))))), assume=False)
                E.pop(); others(E, st2, st)
            E.verify(fn, st.copy(), args, end)
        return run
    ex = lambda c, n: c == n; al = lambda c, n: c >= n
    def const(k): return lambda c, n: c == k
    K = lambda k, x: (lambda n: (KIND[k], x if x is not None else n))
    al1 = lambda c, n: c >= 1
    C = [('exactly', 'verify', ex, K('exact', None), 'stmt', (), True), ('atleast', 'verify', al, K('atleast', None), 'stmt', (), True),
         ('default', 'verify', al1, K('atleast', 1), 'stmt', (), False), ('never', 'verify', const(0), K('exact', 0), 'stmt', (), False),
         ('once', 'verify', const(1), K('exact', 1), 'stmt', (), False), ('twice', 'verify', const(2), K('exact', 2), 'stmt', (), False),
         ('any', 'verify', lambda c, n: z3.BoolVal(True), K('exact', None), 'stmt', (), False), ('atleastonce', 'verify', al1, K('atleast', 1), 'stmt', (), False),
         ('exactly_q', 'verify', ex, K('exact', None), 'stmt', (), True), ('atleast_q', 'verify', al, K('atleast', None), 'stmt', (), True),
         ('two', 'verify', ex, K('exact', None), 'stmt', ('seq2',), True), ('three', 'verify', al, K('atleast', None), 'stmt', ('seq2', 'seq3'), True),
         ('exactly_b', 'verify', ex, None, 'bool', (), True), ('atleast_b', 'verify', al, None, 'bool', (), True), ('exactly_n', 'verify', ex, None, 'not', (), True),
         ('default_b', 'verify', al1, None, 'bool', (), False), ('default_n', 'verify', al1, None, 'not', (), False),
         ('using', 'using', ex, K('exact', None), 'stmt', ('src1', 'src2'), True), ('using_two', 'using', al, K('atleast', None), 'stmt', ('src1', 'seq2'), True),
         ('using_b', 'using', ex, None, 'bool', ('src1', 'src2'), True)]
    specs = []
    for nm, kind, pred, ev, mode, extra, qt in C:
        specs.append(Spec('phrase ' + nm, r'^cl_%s$' % nm, ['C03', 'C04', 'C05', 'C14'] if nm != 'any' else ['C03', 'C04', 'C14'], client(kind, pred, ev, mode, extra, quantity=qt), 'the whole phrase: sources, count, outcome, event, marks'))
    specs.append(Spec('phrase unverified', r'^cl_unverified$', ['C04', 'C05'], client('verify', ex, K('exact', None), 'stmt', (), unv=True), 'Unverified.Verify: the whole phrase', None, V.set_hints))
    specs.append(Spec('phrase using_unverified', r'^cl_using_unverified$', ['C04', 'C05'], client('using', ex, K('exact', None), 'stmt', ('src1', 'src2', 'u'), unv=True), 'Using(Unverified(...)).Verify: the whole phrase', None, V.set_hints))
    def noother(mode):
        def run(E, fn):
            st = State(); pf, ctx = functor(E, st, 'functor'); f = E.ref('file'); m = E.ref('method'); l = E.int('line', 32); s = E.ref('src1'); t = E.ref('src2')
            u = E.int('uncaught', 32); E.fact(u >= 0); st.ghost['_uncaught'] = u; E.pre = st; h0 = E.hmap(st, flagkey(E)); E.hmap(st, V.ordkey(E)['ord']); E.fact(V.ver_bool(E, st, None))
            def end(st2, out):
                evs = st2.ghost.get('events', ()); x0 = E.int('call'); (x,) = q('x')
                inn = lambda e: z3.Or(z3.Select(SRC(s.off), e), z3.Select(SRC(t.off), e)); unv = lambda e: z3.And(inn(e), z3.Not(V.is_ver(E, st, e)))
                V.heap_unchanged(E, st2, st)
                if mode == 'stmt':
                    if not evs:
                        E.prove('VerifyNoOtherInvocations passes only if no call of the sources is unverified', z3.Implies(u == 0, z3.Not(unv(x0))))
                        E.prove('a passing VerifyNoOtherInvocations does not throw', z3.BoolVal(out[0] == 'ret')); return
                    E.prove('not evaluated while the stack is being unwound', u == 0)
                    E.prove('VerifyNoOtherInvocations fails only if some call of the sources is unverified', z3.Exists([x], unv(x)))
                    E.prove('exactly one event', z3.BoolVal(len(evs) == 1)); hp, e, se = evs[0]
                    E.prove('the event goes to the context of the phrase', E.enc(hp) == E.enc(ctx))
                    al = E.getvec(se, accessor(E, se, e, NE, 'allIvocations')); un = E.getvec(se, accessor(E, se, e, NE, 'unverifedIvocations'))
                    for nm, v, p in (('all calls', al, inn), ('the unverified calls', un, unv)):
                        lam = z3.Array('set!%d' % fresh_id(), I, B); E.fact(z3.ForAll([x], z3.Select(lam, x) == p(x), patterns=[z3.Select(lam, x)]))
                        for n2, g in V.sorted_f(E, st, v, z3.IntVal(0), lam): E.prove('the event lists %s: %s' % (nm, n2), g)
                    E.prove('the event carries the file', E.enc(accessor(E, se, e, EV, 'file')) == f.off)
                    E.prove('the event carries the line', toz(accessor(E, se, e, EV, 'line')) == l)
                    E.prove('the event carries the function', E.enc(accessor(E, se, e, EV, 'callingMethod')) == m.off)
                    if out[0] != 'ret': E.prove('only what the handler threw leaves the phrase', z3.BoolVal(out[1] is st2.ghost.get('hexc')))
                else:
                    if out[0] != 'ret': return E.prove('a phrase converted to bool does not throw', False)
                    E.prove('a phrase converted to bool reports nothing', z3.BoolVal(not evs)); r = b2z(out[1]); r = r if mode == 'bool' else z3.Not(r)
                    E.prove('true only if no call of the sources is unverified', z3.Implies(r, z3.Not(unv(x0))))
                    E.prove('false only if some call of the sources is unverified', z3.Implies(z3.Not(r), z3.Exists([x], unv(x))))
            E.verify(fn, st.copy(), [pf, f, l, m, s, t], end)
        return run
    for nm, mode in (('noother', 'stmt'), ('noother_b', 'bool'), ('noother_n', 'not')):
        specs.append(Spec('phrase ' + nm, '^cl_%s$' % nm, ['C04', 'C05', 'C14'], noother(mode), 'VerifyNoOtherInvocations: the whole phrase'))
    mk = Spec('markAsVerified', r'^fakeit::SequenceVerificationExpectation::markAsVerified\(', ['C04'], run_mark, 'exactly the given calls become verified', sum_mark, mark_hints)
    return VC, [mk] + specs, dict(aggregate=sum_aggregate, collectactual=sum_collectactual, selectnon=sum_selectnon, sort=sum_sort, count=sum_count)
