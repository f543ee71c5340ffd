"""Contracts of the default texts: what they say for every event, list, sequence, call and criterion."""
import re
import z3, ir
from engine import *
from spec import Spec, Group
from stdmodels import VContract, Contract, constext, isa_fn
from record import one
I = z3.IntSort(); T = z3.StringSort()
FMT = z3.Function('text', I, T)           # what format() of a call, matcher or criterion gives
SEQ = z3.Function('sequence_text', I, T)  # text of an operand
DEC = z3.Function('decimal', I, T); CTX = z3.Function('c_text', I, T); CHR = z3.Function('char_text', I, T); SHOWN = z3.Function('shown', I, T)
CC = '_ZTIN6fakeit20ConcatenatedSequenceE'; RP = '_ZTIN6fakeit16RepeatedSequenceE'
W = 'std::string and std::ostream as character sequences; decimal output of integers is a function of the value'
def cat(*p):
    p = [z3.StringVal(x) if isinstance(x, str) else x for x in p]; p = [x for x in p if not (z3.is_string_value(x) and x.as_string() == '')]
    return z3.StringVal('') if not p else p[0] if len(p) == 1 else z3.Concat(*p)
def gets(E, st, p):
    p = E.access(st, p)
    if p.base is None or not isint(p.off): raise Unsupported('text at an unknown place')
    c = st.cells(p.base).get(p.off)
    if c is None or not isinstance(c[2], Str) or c[2].v.sort() != T: raise Unsupported('not a text')
    return c[2].v
def puts(E, st, p, v):
    p = E.access(st, p)
    if p.base is None or not isint(p.off): raise Unsupported('text at an unknown place')
    d = dict(st.mem.get(p.base.id, ()))
    for o in list(d):
        if p.off <= o < p.off + 32: del d[o]
    d[p.off] = (32, ('str',), Str(v)); st.mem[p.base.id] = d
def ctext(E, p):
    if isinstance(p, Ptr) and p.base is not None and p.base.kind == 'glob':
        g = E.m.glob(p.base.name)
        if g and g[1] and g[2] and isint(p.off):
            if g[1][0] == 'zero': return z3.StringVal('')
            if g[1][0] == 'cstr':
                t = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), g[1][1]); t = t[p.off:].split('\0')[0]
                return z3.StringVal(t)
        raise Unsupported('text constant')
    return CTX(E.enc(p))
def char(E, v):
    v = simp(v) if isz(v) else v
    if isz(v) and z3.is_int_value(v): v = v.as_long()
    return z3.StringVal(chr(v & 255)) if isint(v) else CHR(toz(v))
def number(E, v, ty):
    v = toz(v)
    w = {'unsigned int': 32, 'unsigned long': 64, 'unsigned short': 16, 'unsigned long long': 64}.get(ty)
    if w: v = z3.If(v < 0, v + (1 << w), v)
    return DEC(z3.simplify(v))
INTS = ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'long long', 'unsigned long long')
def piece(E, st, ty, v):
    """the text of one operand of << or +="""
    if ty in INTS: return number(E, v, ty)
    if ty == 'char const*': return ctext(E, v)
    if ty == 'char': return char(E, v)
    if 'basic_string<' in ty: return gets(E, st, v)
    if ty == 'bool': raise Unsupported('bool output')
    raise Unsupported('output of ' + ty)
def lastarg(d):
    """the type of the last parameter in a demangled name"""
    k = 0; i = len(d) - 1
    while i > 0 and d[i] != ')': i -= 1
    e = i
    while i > 0:
        if d[i] == ')': k += 1
        if d[i] == '(':
            k -= 1
            if k == 0: break
        i -= 1
    s = d[i + 1:e]; parts = []; k = 0; cur = ''
    for ch in s:
        if ch in '<(': k += 1
        if ch in '>)': k -= 1
        if ch == ',' and k == 0: parts.append(cur.strip()); cur = ''
        else: cur += ch
    parts.append(cur.strip()); return parts
def m_stream(E, st, name, a, inst):
    d = E.dem[name]
    if '::~' in d: return None
    if re.search(r'::basic_o?stringstream\(\)$', d): puts(E, st, a[0], z3.StringVal('')); return None
    if d.endswith('::str() const'): puts(E, st, a[0], gets(E, st, a[1])); return None
    if re.search(r'::operator<<\(std::(ostream|basic_ostream<.*>)& \(\*\)', d):
        f = a[1]
        if isinstance(f, Ptr) and f.base is not None and f.base.kind == 'fn' and f.base.name.startswith('_ZSt4endlI'): puts(E, st, a[0], cat(gets(E, st, a[0]), '\n')); return a[0]
        raise Unsupported('manipulator')
    if 'operator<<' in d:
        ty = lastarg(d)[-1]; puts(E, st, a[0], cat(gets(E, st, a[0]), piece(E, st, ty, a[-1]))); return a[0]
    if '::flush()' in d: return a[0]
    if re.search(r'::put\(char\)$', d): puts(E, st, a[0], cat(gets(E, st, a[0]), char(E, a[1]))); return a[0]
    raise Unsupported('stream function ' + d)
def m_string(E, st, name, a, inst):
    d = E.dem[name]; ps = lastarg(d)
    if '::~' in d: return None
    moved = ps and ps[-1].endswith('&&')
    def src(ty, v): return piece(E, st, ty, v)
    if re.search(r'>::basic_string(<.*>)?\(', d):
        if ps == ['']: puts(E, st, a[0], z3.StringVal('')); return None
        if len(ps) == 2 and ps[0] == 'unsigned long' and isint(a[1]): puts(E, st, a[0], cat(*[char(E, a[2])] * a[1])); return None
        if len(ps) == 1 or (len(ps) == 2 and 'allocator' in ps[1]):
            puts(E, st, a[0], src(ps[0], a[1]))
            if moved: puts(E, st, a[1], z3.String('moved!%d' % fresh_id()))
            return None
    if re.search(r'>::operator=\(', d):
        puts(E, st, a[0], src(ps[0], a[1]))
        if moved: puts(E, st, a[1], z3.String('moved!%d' % fresh_id()))
        return a[0]
    if re.search(r'>::(operator\+=|append|push_back)\(', d) and len(ps) == 1: puts(E, st, a[0], cat(gets(E, st, a[0]), src(ps[0], a[1]))); return a[0] if inst.ty[0] == 'ptr' else None
    if re.search(r'>::(empty)\(\) const', d): return simp(gets(E, st, a[0]) == z3.StringVal(''))
    if re.search(r'>::(reserve|shrink_to_fit)\(', d): return None
    raise Unsupported('string function ' + d)
def m_plus(E, st, name, a, inst):
    ps = lastarg(E.dem[name]); puts(E, st, a[0], cat(piece(E, st, ps[0], a[1]), piece(E, st, ps[1], a[2])))
def m_tostring(E, st, name, a, inst): puts(E, st, a[0], piece(E, st, lastarg(E.dem[name])[0], a[1]))
SS = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
STD = [Contract(r'^(std::)?(__cxx11::)?to_string\(|^std::__cxx11::to_string\(', m_tostring, W), Contract(r'^%s std::operator\+<char' % SS, m_plus, W),
       Contract(r'^%s::' % SS, m_string, W), Contract(r'^std::(__cxx11::)?basic_o?stringstream<|^std::basic_ostream<|^std::ostream::|^std::__cxx11::basic_ostringstream<', m_stream, W)]
def v_format(E, st, name, a, inst): puts(E, st, a[0], FMT(E.enc(a[1])))
def c_sequence(E, st, name, a, inst):
    p = a[1]
    if p.base is not None: return InlineInstead()      # the sequence of the harness: its own text is under proof
    puts(E, st, a[0], SEQ(E.enc(p)))
def c_show(E, st, name, a, inst): puts(E, st, a[0], cat(gets(E, st, a[0]), SHOWN(toz(E.load(st, a[1], ir.I32)))))
VIRT = [VContract(r'::format\(\) const', v_format, 'format() of a call or matcher is a function of the object (interface contract; implementations verified in this group)'), VContract(r'::~', lambda *x: None, 'destructors'),
        Contract(r'^fakeit::DefaultEventFormatter::formatSequence(\[abi:cxx11\])?\(', c_sequence, 'text of a part of a sequence: induction over the structure of sequences, the steps are verified in this group'),
        Contract(r'^show$', c_show, 'client function')]

def strcell(E, st, n):
    r = E.region(n, 32, sym=True); v = z3.String(n + '_text'); puts(E, st, Ptr(r, 0), v); return Ptr(r, 0), v
def vec(E, st, n):
    p = Ptr(E.region(n, 24, sym=True), 0); v = Vec(E.int(n + '.n', lo=0, hi=1 << 28), {0: E.arr(n)}, 8); E.setvec(st, p, v); return p, v
class List:
    """first k elements of a list, joined by a separator"""
    def __init__(s, E, nm, v, elem, sep):
        s.f = z3.Function('list_' + nm, I, T); s.v = v; s.elem = elem; s.sep = sep
        E.fact(s.f(z3.IntVal(0)) == z3.StringVal('')); E.lists = getattr(E, 'lists', []) + [s]
    def step(s, k): return s.f(k + 1) == cat(z3.If(k == 0, z3.StringVal(''), cat(s.f(k), s.sep)), s.elem(z3.Select(s.v.comps[0], k)))
def hints(E, st0):
    invs = []
    def flag(rid, o, first):
        def now(st, k):
            v = toz(st.mem[rid][o][2]); return (v == (k == 0)) if z3.is_bool(v) else (v == z3.If(k == 0, 1, 0)) if first else (v == z3.If(k == 0, 0, 1))
        return now
    for rid, cells in st0.mem.items():
        for o, (z, ty, v) in cells.items():
            if z == 1: invs += [('set by the first element', flag(rid, o, True)), ('set by the first element', flag(rid, o, False))]
            if isinstance(v, Str) and v.v.sort() == T:
                for l in getattr(E, 'lists', ()):
                    now = lambda st, rid=rid, o=o: st.mem[rid][o][2].v
                    invs.append(('the first k elements', lambda st, k, v=v, l=l, now=now: now(st) == cat(v.v, l.f(k))))
                    for m in (toz(l.v.n), z3.IntVal(50)):
                        invs.append(('the first k elements, each ended', lambda st, k, v=v, l=l, now=now, m=m: now(st) == cat(v.v, l.f(k), z3.If(z3.And(k > 0, k < m), z3.StringVal(l.sep), z3.StringVal('')))))
                        invs.append(('the first k elements, each ended', lambda st, k, v=v, l=l, now=now, m=m: now(st) == cat(v.v, l.f(k), z3.If(k > 0, z3.StringVal(l.sep), z3.StringVal('')))))
    return {'invs': invs, 'facts': [lambda st, k, l=l: [l.step(k)] for l in getattr(E, 'lists', ())]}
def result(E, out, st2, o, want, what):
    if out[0] != 'ret': return E.prove('does not throw', False)
    for l in getattr(E, 'lists', ()):
        if hasattr(l, 'fifty'): E.fact(z3.Implies(toz(l.v.n) == 50, l.f(toz(l.v.n)) == cat(*l.fifty)))      # what the list function is for 50 elements
    E.prove(what, z3.simplify(gets(E, st2, o) == want))
def listed(E, l):
    """the first min(n, 50) of the list, and a mark exactly if there are more"""
    n = toz(l.v.n); first = l.fifty = []
    for k in range(50): first += ['\n' if k else '', l.elem(z3.Select(l.v.comps[0], k))]
    return z3.If(n > 50, cat(*first, '\n  ...'), l.f(n))
def setup(E, *vs):
    st = State(); o = Ptr(E.region('result', 32, sym=True), 0); return st, o
def calls(E, st, n):
    p, v = vec(E, st, n); l = List(E, n, v, lambda x: cat('  ', FMT(x)), '\n')
    return p, v, l
def pattern(E, st): p, v = vec(E, st, 'pattern'); return p, v, List(E, 'pattern', v, SEQ, ' ... ')
def run_unexpected(E, fn):
    st, o = setup(E); u = E.bool('unmatched'); i = E.ref('call')
    E.verify(fn, st.copy(), [o, u, i], lambda st2, out: result(E, out, st2, o, cat('Unexpected method invocation: ', FMT(i.off), '\n', z3.If(u, z3.StringVal('  Could not find any recorded behavior to support this method call.'), z3.StringVal('  An unmocked method was invoked. All used virtual methods must be stubbed!'))), 'the text names the call and says whether it is unmocked or unmatched'))
def run_seqtext(E, fn):
    st, o = setup(E); ex = E.bool('exact'); p, pv, pl = pattern(E, st); a, av, al = calls(E, st, 'actual'); n, m = E.int('expected', 32), E.int('count', 32); E.fact(toz(pv.n) >= 1)
    want = cat('Verification error\nExpected pattern: ', pl.f(toz(pv.n)), '\nExpected matches: ', z3.If(ex, z3.StringVal('exactly '), z3.StringVal('at least ')), DEC(n), '\nActual matches  : ', DEC(m), '\nActual sequence : total of ', DEC(toz(av.n)), ' actual invocations', z3.If(toz(av.n) == 0, z3.StringVal('.'), cat(':\n', listed(E, al))))
    E.verify(fn, st.copy(), [o, ex, p, a, n, m], lambda st2, out: result(E, out, st2, o, want, 'the text names pattern, kind, counts, total and the first 50 calls'))
def run_nomore(E, fn):
    st, o = setup(E); q, _ = vec(E, st, 'all'); a, av, al = calls(E, st, 'unverified')
    E.verify(fn, st.copy(), [o, q, a], lambda st2, out: result(E, out, st2, o, cat('Verification error\nExpected no more invocations!! but the following unverified invocations were found:\n', listed(E, al)), 'the text lists the first 50 unverified calls'))
def run_pattern(E, fn):
    st, o = setup(E); p, v, l = pattern(E, st)
    E.verify(fn, st.copy(), [o, p], lambda st2, out: result(E, out, st2, o, l.f(toz(v.n)), 'the pattern lists its sequences in order'))
def nested(E, l, t): return z3.If(z3.Or(isa_fn(CC)(l.off), isa_fn(RP)(l.off)), cat('(', t, ')'), t)
def run_struct(args, want):
    def run(E, fn):
        st, o = setup(E); V = {n: E.int(n, 32) if n in 'mn' else E.ref(n) for n in args}
        E.verify(fn, st.copy(), [o] + [V[n] for n in args], lambda st2, out: result(E, out, st2, o, want(E, V), 'the text shows the structure'))
    return run
def S_(V, n): return SEQ(V[n].off)
def run_call(args, want):
    """args: (name, width) or kinds"""
    def run(E, fn):
        st, o = setup(E); nm, t = strcell(E, st, 'name'); V = {}; a = []
        for n, k in args:
            if k == 'bool': V[n] = E.bool(n); a.append(V[n])
            elif k == 'text': V[n] = E.ref(n); a.append(V[n])
            elif isinstance(k, tuple): r = E.region(n, k[0], sym=True); V[n] = E.int(n, 8 * k[0]); st.setcell(r, 0, k[0], ('int', 8 * k[0]), V[n]); a.append(Ptr(r, 0))
            else: V[n] = E.int(n, k); a.append(V[n])
        E.verify(fn, st.copy(), [o, nm] + a, lambda st2, out: result(E, out, st2, o, cat(t, '(', *want(V), ')'), 'the text is the name and the arguments'))
    return run
def commas(*p):
    out = []
    for i, x in enumerate(p): out += ([', '] if i else []) + (x if isinstance(x, list) else [x])
    return out
def run_crit(want, n=1):
    def run(E, fn):
        st, o = setup(E); V = [E.int('v%d' % i, 32) for i in range(n)]
        E.verify(fn, st.copy(), [o] + V, lambda st2, out: result(E, out, st2, o, cat(*want(*V)), 'the text names the relation and the value'))
    return run
IM = z3.Function('im', I, I)
def run_criteria(E, fn):
    st, o = setup(E); p, v = vec(E, st, 'matchers'); l = List(E, 'matchers', v, lambda x: FMT(stdview(x)), ', '); i = z3.Int('i'); x = z3.Select(v.comps[0], i)
    E.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < toz(v.n)), z3.And(x > 0, x < BASE0, isa_fn('_ZTIN6fakeit8IMatcherE')(x))), patterns=[x]))    # a criterion is an IMatcher
    E.verify(fn, st.copy(), [o, p], lambda st2, out: result(E, out, st2, o, cat('(', l.f(toz(v.n)), ')'), 'the text lists the criteria in order'))
from stdmodels import view_fn
def stdview(x): return view_fn('_ZTIN6fakeit8IMatcherE')(x)
C = ['C18']
def t(nm, fn, run, doc): return one(nm, fn, C, run, doc, hints)
SPECS = [t('unexpected call text', 't_unexpected', run_unexpected, 'text of an unexpected call'), t('verification text', 't_sequence', run_seqtext, 'text of a failed verification, any pattern and history'), t('no more invocations text', 't_nomore', run_nomore, 'text of unverified calls, any number'), t('pattern text', 't_pattern', run_pattern, 'text of any pattern'),
         t('a + b', 't_concat', run_struct('lr', lambda E, V: cat(S_(V, 'l'), ' + ', S_(V, 'r'))), 'structure'), t('a * n', 't_repeat', run_struct('ln', lambda E, V: cat(nested(E, V['l'], S_(V, 'l')), ' * ', DEC(V['n']))), 'structure'),
         t('(a + b) * n', 't_repeat_concat', run_struct('lrn', lambda E, V: cat('(', S_(V, 'l'), ' + ', S_(V, 'r'), ') * ', DEC(V['n']))), 'structure'), t('(a * m) * n', 't_repeat_repeat', run_struct('lmn', lambda E, V: cat('(', nested(E, V['l'], S_(V, 'l')), ' * ', DEC(V['m']), ') * ', DEC(V['n']))), 'structure'),
         t('a + b + c', 't_concat_concat', run_struct('lrz', lambda E, V: cat(S_(V, 'l'), ' + ', S_(V, 'r'), ' + ', S_(V, 'z'))), 'structure'), t('a + b * n', 't_concat_repeat', run_struct('lzn', lambda E, V: cat(S_(V, 'z'), ' + ', nested(E, V['l'], S_(V, 'l')), ' * ', DEC(V['n']))), 'structure'),
         t('one call', 't_leaf', run_struct('x', lambda E, V: FMT(V['x'].off)), 'structure'), t('one call * n', 't_repeat_leaf', run_struct('xn', lambda E, V: cat(FMT(V['x'].off), ' * ', DEC(V['n']))), 'structure'),
         t('f()', 't_call0', run_call([], lambda V: []), 'a call'), t('f(int)', 't_call1', run_call([('a', 32)], lambda V: [DEC(V['a'])]), 'a call'),
         t('f(int, bool, char)', 't_call3', run_call([('a', 32), ('b', 'bool'), ('c', 8)], lambda V: commas(DEC(V['a']), z3.If(V['b'], z3.StringVal('true'), z3.StringVal('false')), ["'", CHR(V['c']), "'"])), 'a call'),
         t('f(unsigned long, class)', 't_call2', run_call([('a', 64), ('b', 32)], lambda V: commas(DEC(z3.If(V['a'] < 0, V['a'] + (1 << 64), V['a'])), '?')), 'a call'),
         t('f(int x 5)', 't_call5', run_call([(c, 32) for c in 'abcde'], lambda V: commas(*[DEC(V[c]) for c in 'abcde'])), 'a call'), t('f(int &, const long &)', 't_callref', run_call([('a', (4,)), ('b', (8,))], lambda V: commas(DEC(V['a']), DEC(V['b']))), 'a call'),
         t('f(const char *, int)', 't_calltext', run_call([('a', 'text'), ('b', 32)], lambda V: commas(z3.If(V['a'].off == 0, z3.StringVal('[nullptr]'), cat('"', CTX(V['a'].off), '"')), DEC(V['b']))), 'a call'), t('f(class with <<, short)', 't_callshown', run_call([('a', 32), ('b', 16)], lambda V: commas(SHOWN(V['a']), DEC(V['b']))), 'a call')]
SPECS += [t('text of ' + nm, 't_' + fn, run_crit(lambda a, p=p: [p, DEC(a)]), 'a criterion') for nm, fn, p in (('Eq', 'eq', ''), ('Ne', 'ne', '!='), ('Gt', 'gt', '>'), ('Ge', 'ge', '>='), ('Lt', 'lt', '<'), ('Le', 'le', '<='), ('Eq of a temporary', 'eq_r', ''))]
SPECS += [t('text of Any', 't_any', run_crit(lambda a: ['Any']), 'a criterion'), t('text of ApproxEq', 't_approx', run_crit(lambda a, b: [DEC(a), '+/-', DEC(b)], 2), 'a criterion'), t('text of criteria', 't_criteria', run_criteria, 'any number of criteria'),
          t('text of any arguments', 't_anyargs', run_crit(lambda: ['( Any arguments )'], 0), 'no criteria')]
GROUP = Group('texts', 'texts.cpp', SPECS, STD + VIRT)
