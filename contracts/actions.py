"""Contracts of the parts of a stubbing phrase: the action each of them makes, and what happens when it runs."""
import z3, ir
from engine import *
from spec import Spec, Group
from stdmodels import PContract, Contract
from record import one, ti, snap
from mock import fp_call, ran_once

def loc(E, st, name, size, ty):
    r = E.region(name, size, sym=True); v = E.int(name + '_before', 8 * size); st.setcell(r, 0, size, ty, v); return Ptr(r, 0), v
def flag(E, st, p): return b2z(E.tobool(E.load(st, p, ir.I8)))
def val(E, st, p, w): return toz(E.load(st, p, ('int', w)))
def run(args, post, pre=None, init=None):
    """args: names of int parameters with their widths, or locations; post(E, st2, out, values)"""
    def r(E, fn):
        st = State(); V = {}; a = []
        for n, t in args:
            if t == 'bool*': p = Ptr(E.region(n, 1, sym=True), 0); V[n] = p; a.append(p)
            elif isinstance(t, tuple): p, v = loc(E, st, n, *t); V[n] = p; V[n + '0'] = v; a.append(p)
            elif t == 'fn': V[n] = E.ref(n); a.append(V[n])
            else: V[n] = E.int(n, t); a.append(V[n])
        if pre: E.fact(pre(V))
        if init: init(E, st)
        E.verify(fn, st.copy(), a, lambda st2, out: post(E, st2, out, V))
    return r
P32, P64 = (4, ir.I32), (8, ('int', 64)); INT = ('x', 32)
def returns(E, out, v):
    if out[0] != 'ret': E.prove('does not throw', False); return False
    E.prove('the value of the phrase is returned', toz(out[1]) == toz(v)); return True
def post_return(done):
    def f(E, st, out, V):
        if not returns(E, out, V['v']): return
        E.prove('the action is not done at first', z3.Not(flag(E, st, V['before']))); E.prove('the action is done after as many calls as the phrase says', flag(E, st, V['done']) == done(V))
        if 'again' in V: E.prove('the same value again', val(E, st, V['again'], 32) == V['v'])
    return f
def post_nth(k):
    def f(E, st, out, V): returns(E, out, V[k])
    return f
def post_ref(E, st, out, V):
    if out[0] != 'ret': return E.prove('does not throw', False)
    E.prove('the object of the phrase is returned', E.enc(out[1]) == E.enc(V['v'])); E.prove('it is not changed', val(E, st, V['v'], 32) == V['v0'])
def post_throw(E, st, out, V):
    if out[0] != 'throw': return E.prove('throws', False)
    e = out[1]; E.prove('what the phrase gives is thrown', z3.BoolVal(e.ti == ti(E, 'err')))
    if e.ti == ti(E, 'err'): E.prove('what the phrase gives is thrown', toz(E.load(st, e.ptr, ('int', 64))) == V['e0']); E.prove('the object of the user is not thrown itself', z3.BoolVal(e.ptr.base is not V['e'].base))
def post_set(ret, sets, again=False):
    def f(E, st, out, V):
        if ret:
            if not returns(E, out, V['v']): return
        elif out[0] != 'ret': return E.prove('does not throw', False)
        if again: E.prove('the same value again', val(E, st, V['again'], 32) == V['v'])
        for p, w in (('p', 32), ('q', 64 if 'q' in V and V['q'].base.size == 8 else 32)):
            if p in V: E.prove('%s is set to the value of the phrase' % p if p in sets else '%s is kept' % p, val(E, st, V[p], w) == (V[sets[p]] if p in sets else V[p + '0']))
    return f
def post_do(E, st, out, V):
    r = ran_once(E, st, out)
    if r is None: return
    who, a, s1 = r[:3]; E.prove('the function of the phrase runs', who == V['f'].off); E.prove('it gets the argument', toz(E.load(s1, a[0], ir.I32)) == V['x'])
def post_void(E, st, out, V):
    if out[0] != 'ret': return E.prove('does not throw', False)
    E.prove('the action is not done at first', z3.Not(flag(E, st, V['before']))); E.prove('the action is done after one call', flag(E, st, V['done']))
def post_mv(E, st, out, V):
    if out[0] != 'ret': return E.prove('does not throw', False)
    v = V.get('v0', V.get('v', 77)); g = lambda n: val(E, st, V[n], 64)
    if 'first' in V: E.prove('every call returns the value of the phrase', z3.And(g('first') == v, g('again') == v))
    if 'set' in V: E.prove('every call sets the argument', z3.And(g('set') == V['a'], g('p') == V['a']))
    if 'v' not in V and 'a' not in V: E.prove('the default value is kept', val(E, st, E.gptr(st, made(E)), 64) == 77)
    if 'v0' in V: E.prove('the object of the user is kept', g('v') == v)
def made(E, st=None):
    """what is known of the static object of DefaultValue once it is made: it has its default value"""
    for n in E.m.globals:
        if n.startswith('_ZZN6fakeit12DefaultValueI2Mv'):
            if st: st.setcell(E.gptr(st, n).base, 0, 8, ('int', 64), z3.IntVal(77))
            return n
    raise Unsupported('DefaultValue')
def run_default(args): return run(args, post_mv, init=made)
def post_mvthrow(E, st, out, V):
    if out[0] != 'throw': return E.prove('throws', False)
    e = out[1]; E.prove('what the phrase gives is thrown', z3.BoolVal(e.ti == ti(E, 'mv')))
    if e.ti == ti(E, 'mv'): E.prove('every call throws the same value', toz(E.load(st, e.ptr, ('int', 64))) == V['v0'])
def mark(E, st, name, a, inst): st.ghost['marks'] = st.ghost.get('marks', ()) + ((a[0], st.copy()),)
def post_count(E, st, out, V):
    if out[0] != 'ret': return E.prove('does not throw', False)
    E.prove('an action for no calls is done at first, another is not', flag(E, st, V['before']) == (V['n'] == 0)); E.prove('it is done after one call exactly when it was for one', z3.Implies(V['n'] >= 1, flag(E, st, V['done']) == (V['n'] == 1)))
def post_ever(E, st, out, V):
    if out[0] != 'ret': return E.prove('does not throw', False)
    E.prove('the action is never done', z3.And(z3.Not(flag(E, st, V['before'])), z3.Not(flag(E, st, V['done']))))
    m = st.ghost.get('marks', ()); E.prove('harness: two marks', z3.BoolVal(len(m) == 2))
    if len(m) != 2: return
    # so what holds for the first call holds for every later one
    (p, s1), (q, s2) = m
    for r, cells in s1.mem.items():
        if Reg.table[r].name != 'new' or r in s1.dead: continue
        E.prove('a call does not free what the action uses', z3.BoolVal(r not in s2.dead))
        for o, (z, t, v) in cells.items():
            w = s2.mem[r].get(o); E.prove('a call keeps the layout of the action', z3.BoolVal(w is not None and w[0] == z))
            if w is not None and w[2] is not v: E.prove('a call leaves the action as it was', E.enc(v) == E.enc(w[2]) if isinstance(v, Ptr) else toz(v) == toz(w[2]))
FL = [('before', 'bool*'), ('done', 'bool*')]; AG = [('again', P32)]; ERR = ('e', P64); V = ('v', 32); A, Bv, BL = ('a', 32), ('b', 32), ('b', 64)
def s(nm, fn, props, args, post, doc, pre=None): return one(nm, fn, props, run(args, post, pre), doc)
SPECS = [s('Return', 'act_return', ['C02', 'C16'], [V, INT] + FL, post_return(lambda V: z3.BoolVal(True)), 'one call'), s('AlwaysReturn', 'act_always', ['C02', 'C16'], [V, INT] + FL + AG, post_return(lambda V: z3.BoolVal(False)), 'for ever'),
         s('Return(n times)', 'act_return_times', ['C02', 'C16'], [V, ('n', 64), INT] + FL + AG, post_return(lambda V: V['n'] == 1), 'n calls', lambda V: z3.And(V['n'] >= 1, V['n'] < 1 << 31)),
         s('Return(v, w) first', 'act_return_first', ['C02', 'C16'], [V, ('w', 32), INT], post_nth('v'), 'in order'), s('Return(v, w) second', 'act_return_second', ['C02', 'C16'], [V, ('w', 32), INT], post_nth('w'), 'in order'),
         s('Return(v, w, z) third', 'act_return_third', ['C02', 'C16'], [V, ('w', 32), ('z', 32), INT], post_nth('z'), 'in order'),
         s('Return(reference)', 'act_return_ref', ['C16'], [('v', P32), INT], post_ref, 'the object itself'), s('AlwaysReturn(reference)', 'act_always_ref', ['C16'], [('v', P32), INT], post_ref, 'the object itself'),
         s('Throw', 'act_throw', ['C16', 'C02'], [ERR, INT], post_throw, 'throws a copy'), s('AlwaysThrow', 'act_always_throw', ['C16', 'C02'], [ERR, INT], post_throw, 'throws a copy'),
         s('Throw(n times)', 'act_throw_times', ['C16', 'C02'], [ERR, ('n', 64), INT], post_throw, 'throws a copy'), s('Throw of void', 'act_void_throw', ['C16'], [ERR, INT], post_throw, 'throws a copy'), s('Return of void', 'act_void_return', ['C02', 'C16'], [INT] + FL, post_void, 'one call'),
         s('ReturnAndSet one', 'act_set', ['C16'], [V, A, ('p', P32), INT], post_set(True, {'p': 'a'}), 'sets the argument'), s('ReturnAndSet two', 'act_set2', ['C16'], [V, A, BL, ('p', P32), ('q', P64)] + AG, post_set(True, {'p': 'a', 'q': 'b'}, True), 'sets both'),
         s('AlwaysReturnAndSet', 'act_always_set', ['C16'], [V, A, BL, ('p', P32), ('q', P64)] + AG, post_set(True, {'p': 'a', 'q': 'b'}, True), 'sets both, every time'),
         s('ReturnAndSet of void', 'act_void_set', ['C16'], [A, BL, ('p', P32), ('q', P64)], post_set(False, {'p': 'a', 'q': 'b'}), 'sets both'), s('AlwaysReturnAndSet of void', 'act_void_always_set', ['C16'], [A, BL, ('p', P32), ('q', P64)], post_set(False, {'p': 'a', 'q': 'b'}), 'sets both'),
         s('ReturnAndSet placed', 'act_place', ['C16'], [V, A, Bv, ('p', P32), INT, ('q', P32)] + AG, post_set(True, {'q': 'a', 'p': 'b'}, True), 'by position'), s('ReturnAndSet placed one', 'act_place_one', ['C16'], [V, Bv, ('p', P32), INT, ('q', P32)] + AG, post_set(True, {'q': 'b'}, True), 'only that position'),
         s('ReturnAndSet placed of void', 'act_void_place', ['C16'], [A, Bv, ('p', P32), INT, ('q', P32)], post_set(False, {'p': 'a', 'q': 'b'}), 'by position'),
         s('Do', 'act_do', ['C02', 'C16'], [('f', 'fn'), INT], post_do, 'runs the function once'), s('AlwaysDo', 'act_always_do', ['C02', 'C16'], [('f', 'fn'), INT], post_do, 'runs the function once')]
FA = [('first', P64), ('again', P64)]; FSA = [('p', P64), ('first', P64), ('set', P64), ('again', P64)]
SPECS += [s('Return(2 times) of a class', 'mv_times', ['C02', 'C16'], [('v', P64), INT] + FA, post_mv, 'the same value again'), s('AlwaysReturn of a class', 'mv_always', ['C02', 'C16'], [('v', P64), INT] + FA, post_mv, 'the same value again'),
          one('AlwaysReturn of a default', 'mv_default', ['C19'], run_default([INT] + FA), 'the default value again'), one('ReturnDefaultValue of a class', 'mv_fake', ['C19'], run_default([INT] + FA), 'the default value again'),
          s('AlwaysReturnAndSet of a class', 'mv_set', ['C16'], [('v', 64), ('a', 64)] + FSA, post_mv, 'the same values again'), s('AlwaysReturnAndSet placed of a class', 'mv_place', ['C16'], [('v', 64), ('a', 64)] + FSA, post_mv, 'the same values again'),
          s('AlwaysReturnAndSet of void and a class', 'mv_void_set', ['C16'], [('a', 64), ('p', P64), ('set', P64)], post_mv, 'the same values again'), s('AlwaysReturnAndSet placed of void and a class', 'mv_void_place', ['C16'], [('a', 64), ('p', P64), ('set', P64)], post_mv, 'the same values again'),
          s('AlwaysThrow of a class', 'mv_throw', ['C16'], [('v', P64), INT], post_mvthrow, 'the same value again')]
N = [('n', 64), INT] + FL; nonneg = lambda V: z3.And(V['n'] >= 0, V['n'] < 1 << 31)
def kept(nm, fn, args, post, doc='the value it had when the phrase was written'): return s(nm + ' of a variable that changes', 'kept_' + fn, ['C16'], args, post, doc)
SPECS += [kept('Return', 'return', [V, INT], post_nth('v')), kept('AlwaysReturn', 'always', [V, INT], post_nth('v')), kept('Return(2 times)', 'times', [V, INT], post_nth('v')),
          kept('Throw', 'throw', [ERR, INT], post_throw), kept('AlwaysThrow', 'always_throw', [ERR, INT], post_throw), kept('Throw(2 times)', 'throw_times', [ERR, INT], post_throw),
          kept('Throw of void', 'void_throw', [ERR, INT], post_throw), kept('AlwaysThrow of void', 'void_always_throw', [ERR, INT], post_throw), kept('Throw(2 times) of void', 'void_throw_times', [ERR, INT], post_throw),
          kept('ReturnAndSet', 'set', [V, A, BL, ('p', P32), ('q', P64)], post_set(True, {'p': 'a', 'q': 'b'})), kept('AlwaysReturnAndSet of void', 'void_set', [A, BL, ('p', P32), ('q', P64)], post_set(False, {'p': 'a', 'q': 'b'})),
          kept('AlwaysReturnAndSet placed', 'place', [V, A, Bv, ('p', P32), INT, ('q', P32)], post_set(True, {'q': 'a', 'p': 'b'})), kept('ReturnAndSet placed of void', 'void_place', [A, Bv, ('p', P32), INT, ('q', P32)], post_set(False, {'p': 'a', 'q': 'b'}))]
SPECS += [s('how often %s' % nm, 'count_' + fn, ['C02'], N, post_count, 'as many calls as the phrase says', nonneg)
          for nm, fn in (('Do', 'do'), ('Throw', 'throw'), ('Return', 'return'), ('Do of void', 'void_do'), ('Throw of void', 'void_throw'), ('Return of void', 'void_return'))]
SPECS += [s('for ever: %s' % nm, 'ever_' + fn, pr, ar, post_ever, 'a call leaves the action as it was: what holds for one call holds for every call')
          for nm, fn, pr, ar in [(n, f, ['C02', 'C16'], [INT] + FL) for n, f in (('AlwaysDo', 'do'), ('AlwaysThrow', 'throw'), ('AlwaysReturn', 'return'), ('AlwaysReturn()', 'default'), ('AlwaysDo of void', 'void_do'), ('AlwaysThrow of void', 'void_throw'), ('AlwaysReturn of void', 'void_return'))]
          + [(n, f, ['C02', 'C15'], [INT] + FL) for n, f in (('an assigned value', 'assign_value'), ('an assigned body', 'assign_body'), ('an assigned body of void', 'assign_void_body'))]
          + [('Fake', 'fake', ['C02', 'C19'], [INT] + FL), ('Spy', 'spied', ['C02', 'C11'], [INT] + FL)]
          + [(n, f, p, [INT] + FL) for n, f, p in (('a Fake phrase', 'fake_phrase', ['C02', 'C19']), ('a Fake phrase of void', 'fake_void_phrase', ['C02', 'C19']), ('a Spy phrase', 'spy_phrase', ['C11']), ('a Spy phrase of void', 'spy_void_phrase', ['C11']), ('a SpyWithoutVerify phrase', 'spy_without_phrase', ['C11']))] + [(n, f, ['C02', 'C16'], [A, ('p', P32)] + FL) for n, f in (('AlwaysReturnAndSet', 'set'), ('AlwaysReturnAndSet of void', 'void_set'))]]
def statics(E):
    for n in E.m.globals:
        if n.startswith('_ZZN6fakeit12DefaultValueIi'):
            t, init, const = E.m.glob(n)
            if t[0] == 'int' and not const and init is not None: yield n, t, init
def initial(E, st):
    """static objects of DefaultValue<int> have the value the program starts with (kept by every call, see the postcondition)"""
    for n, t, init in statics(E):
        v = init[1] if isinstance(init, tuple) and len(init) > 1 and isinstance(init[1], int) else 0 if 'zero' in str(init) or str(init) in ('0', "('int', 0)") else None
        if v is None: raise Unsupported('initial value of a static object: %r' % (init,))
        st.setcell(E.gptr(st, n).base, 0, E.m.size(t), t, z3.IntVal(v))
        E.static0 = v
def post_fakephrase(E, st, out, V):
    if out[0] != 'ret': return E.prove('does not throw', False)
    for n, t, init in statics(E): E.prove('the default value is kept', toz(E.load(st, E.gptr(st, n), t)) == E.static0)
    E.prove('a faked method returns the default value', toz(out[1]) == 0); E.prove('the phrase takes effect once', val(E, st, V['n'], 32) == 1)
def post_spyphrase(E, st, out, V): post_do(E, st, out, V); E.prove('the phrase takes effect once', val(E, st, V['n'], 32) == 1)
SPECS += [one('Fake phrase', 'fake_value', ['C19', 'C15'], run([INT, ('n', P32)], post_fakephrase, init=initial), 'the default value, for all calls'), s('Spy phrase', 'spy_value', ['C11', 'C15'], [('f', 'fn'), INT, ('n', P32)], post_spyphrase, 'runs the original once with the argument'), s('SpyWithoutVerify phrase', 'spy_without_value', ['C11', 'C15'], [('f', 'fn'), INT, ('n', P32)], post_spyphrase, 'runs the original once with the argument')]
GROUP = Group('actions', 'actions.cpp', SPECS, [PContract(fp_call, 'functions of the user: may return or throw'), Contract(r'^mark$', mark, 'harness: takes a snapshot of the memory')])
