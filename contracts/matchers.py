"""Contracts of argument criteria, through the phrases that take them."""
import z3, ir
from engine import *
from spec import Spec, Group
from stdmodels import Contract, VContract
import proof
from _common import VIRT, pure
I = z3.IntSort(); B = z3.BoolSort(); F64 = z3.Float64()
CMP = {op: z3.Function('K_' + nm, I, I, I, I, B) for op, nm in (('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('>', 'gt'), ('<=', 'le'), ('>=', 'ge'))}
def c_cmp(op):
    def f(E, st, n, a, i): return CMP[op](*[toz(E.load(st, Ptr(p.base, add(p.off, o), ('struct.K', j)), ir.I64)) for p in a for j, o in enumerate((0, 8))])
    return Contract(r'^operator%s\(K const&, K const&\)$' % op, f, 'comparison operators of the user type K: any function of the two values')
NUM = ['eq', 'value', 'gt', 'ge', 'lt', 'le', 'ne', 'rvalue', 'gt_rvalue', 'any', 'any_of', 'underscore']; OBJ = ['eq', 'value', 'gt', 'ge', 'lt', 'le', 'ne', 'any']
names = ['%s_%s' % (t, m) for t in 'int unsigned longlong ulonglong short uchar char bool double float'.split() for m in NUM] + ['%s_%s' % (t, m) for t in 'object object_ref object_const'.split() for m in OBJ] + ['pointer_' + m for m in 'eq value ne null ne_null'.split()] + ['str_%s%s' % (m, r) for m in 'eq ne gt ge lt le'.split() for r in ('', '_rvalue')]
def doc(n): return 'a phrase with the criterion %s accepts exactly the calls of its method whose argument satisfies it' % n.replace('_', ' ')
SPECS = proof.proofs('matchers.cpp', more=[(n, ['C07'], doc(n)) for n in names])
GROUP = Group('matchers', 'matchers.cpp', SPECS, [c_cmp(o) for o in CMP] + [pure(r'^user4\(', 'user4', [I, F64, I, I], B), pure(r'^user0\(', 'user0', [], B)] + VIRT + proof.CONTRACTS)
