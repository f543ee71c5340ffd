"""Specifications written as client functions in a harness: see harness/proof.hpp."""
import os, re
import z3, ir
from engine import *
from spec import Spec
from stdmodels import Contract, VContract, PContract

def cstring(E, p):
    if isinstance(p, Ptr) and p.base is not None and p.base.kind == 'glob':
        g = E.m.glob(p.base.name)
        if g and g[1] and g[1][0] == 'cstr': return g[1][1].replace('\\00', '')
    return 'obligation'
def truth(E, v):
    if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): return v
    return E.tobool(v)
def c_prove(E, st, name, a, inst):
    E.choices = st.ghost.get('_choices', ())
    E.prove(cstring(E, a[1]), truth(E, a[0]))
def choice(mk):
    def f(E, st, n, a, i):
        v = mk(E); st.ghost['_choices'] = E.choices = st.ghost.get('_choices', ()) + (v,)
        return v
    return f
def c_assume(E, st, name, a, inst):
    c = truth(E, a[0])
    if c is False: raise PathEnd()
    E.fact(c)
    if not E.feasible(): raise PathEnd()
CONTRACTS = [Contract('^verif_prove$', c_prove, 'obligations'), Contract('^verif_assume$', c_assume, 'preconditions of the proof functions'),
             Contract('^verif_bool$', choice(lambda E: E.bool('any')), 'arbitrary value'), Contract('^verif_int$', choice(lambda E: E.int('any', 32)), 'arbitrary value')]
CONTRACTS.append(Contract('^verif_live$', lambda E, st, n, a, i: len([r for r in st.ghost.get('_new', ()) if r not in st.dead]), 'heap objects'))
for c in CONTRACTS: c.trusted = False

def runner(setup=None):
    def run(E, fn):
        st = State(); f = E.m.func(fn); args = []
        for t, nm, at in f.params: args.append(E.ref(nm.strip('%')) if t[0] == 'ptr' else E.fresh(t, nm.strip('%')))
        E.inputs = tuple(args); E.choices = ()
        if setup: setup(E, st, args)
        def end(st2, out):
            E.choices = st2.ghost.get('_choices', ())
            if out[0] != 'ret': E.prove('no exception leaves the proof function', False)
        if not E.program: return E.verify(fn, st.copy(), args, end)
        st.ghost['_uncaught'] = 0
        for g, b in (('__libc_single_threaded', 0),):
            if E.m.glob(g) is not None: E.store(st, E.gptr(st, g), ir.I8, b)
        inits = [n for n in E.m.funcs if n.startswith('_GLOBAL__')]
        def start(i):
            def go(st2, out):
                if out[0] != 'ret': raise Unsupported('static initialiser throws')
                E.paths -= 1
                if i < len(inits): E.verify(inits[i], st2.copy(), [], start(i + 1))
                else: E.verify(fn, st2.copy(), args, end)
            return go
        E.paths += 1; start(0)(st, ('ret', None))
    return run

def proofs(harness, hints={}, setup={}, timeout=120, more=()):
    """the specs of the PROOF functions of a harness"""
    txt = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', harness)).read(); out = []
    for m in re.finditer(r'^((?://[^\n]*\n)?)PROOF\(([\w ]+), *(\w+)\)', txt, re.M):
        doc = ' '.join(l.strip('/ ') for l in m.group(1).split('\n') if l)
        out.append(Spec(m.group(3), '^pf_%s$' % m.group(3), m.group(2).split(), runner(setup.get(m.group(3))), doc or m.group(3), None, hints.get(m.group(3)), timeout=timeout))
    for n, props, doc in more: out.append(Spec(n, '^pf_%s$' % n, props, runner(setup.get(n)), doc, None, hints.get(n), timeout=timeout))
    return out

def value(m, v):
    """text of a value in a model, as harness/native.hpp reads it"""
    if not isz(v): return str(int(v)) if isinstance(v, bool) else str(v)
    x = m.eval(v, model_completion=True)
    if z3.is_bool(x): return str(int(z3.is_true(x)))
    if z3.is_int_value(x): return x.as_string()
    if z3.is_bv_value(x): return str(x.as_signed_long())
    if z3.is_fp(x):
        if x.isNaN(): return 'nan'
        if x.isInf(): return '-inf' if x.isNegative() else 'inf'
        from fractions import Fraction
        b = m.eval(z3.fpToIEEEBV(x), model_completion=True).as_long(); import struct
        return (struct.unpack('<d', struct.pack('<Q', b))[0] if x.sort() == z3.Float64() else struct.unpack('<f', struct.pack('<I', b))[0]).hex()
    raise ValueError(str(x))
def case(E, m):
    if getattr(E, 'inputs', None) is None: return None
    try: return ','.join(value(m, v) for v in tuple(E.inputs) + tuple(E.choices))
    except Exception: return None

def native_source(harness):
    """text of a program that runs the proof functions of a harness"""
    txt = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', harness)).read()
    ts = [(n, ps) for ps, n in re.findall(r'^PROOF\(([\w ]+), *(\w+)\)', txt, re.M)]
    return '#define VERIF_NATIVE\n#include "%s"\n#include "native.hpp"\nint main(int c, char **v) { return native::main(c, v, {%s}); }\n' % (harness, ', '.join('{"%s", "%s", [] { native::call(pf_%s); }}' % (n, ps, n) for n, ps in ts))
