"""Deductive verifier for LLVM IR functions.

One function is verified at a time.  The engine walks every path of the
function symbolically.  A call to a function with a contract is replaced by
the contract; a call to any other defined function is walked in place.  Loops
are cut with inductive invariants: the engine finds what the loop modifies,
proposes candidates (strides, plus the candidates of the contract) and keeps
those it can prove inductive.  Every proof obligation is a named record.
"""
import re, subprocess, sys, time, itertools
import z3
import ir
sys.setrecursionlimit(200000)

class Unsupported(Exception): pass
class Refuted(Exception): pass
class PathEnd(Exception): pass

_ctr = itertools.count(1)
def restart_ids():
    """the same names in every run of a spec, whatever ran before"""
    global _ctr
    _ctr = itertools.count(1); Reg.table.clear(); _symc.clear()
def fresh_id(): return next(_ctr)

BASE0 = 1 << 44          # addresses of regions known by identity start here
STEP = 1 << 24

class Reg:
    """A memory region known by identity."""
    __slots__ = ('id', 'name', 'kind', 'size', 'sym', 'addr', 'info', 'alive')
    table = {}
    def __init__(s, name, kind='obj', size=None, sym=False, info=None):
        s.id = fresh_id(); s.name = name; s.kind = kind; s.size = size; s.sym = sym; s.info = info
        s.addr = BASE0 + s.id * STEP; Reg.table[s.id] = s
    def __repr__(s): return '<%s#%d>' % (s.name, s.id)

class Ptr:
    """base is a Reg, or None for a plain address (off is then the address)."""
    __slots__ = ('base', 'off', 'key', 'tag')
    def __init__(s, base, off, key=None, tag=None): s.base = base; s.off = off; s.key = key; s.tag = tag
    def __repr__(s): return 'Ptr(%s,%s)' % (s.base, s.off)
    def isnull(s): return s.base is None and isinstance(s.off, int) and s.off == 0
NULL = Ptr(None, 0)

class FnSlot:
    """entry of the virtual table of an object whose class is not known"""
    def __init__(s, obj, slot, vexpr): s.obj = obj; s.slot = slot; s.vexpr = vexpr

class PI:
    """integer image of a region pointer"""
    __slots__ = ('p',)
    def __init__(s, p): s.p = p

class Undef: pass
UNDEF = Undef()

class Agg:
    def __init__(s, e): s.e = list(e)

class Vec:
    """abstract contents of a std::vector: length and one array per element word"""
    def __init__(s, n, comps, esize, ver=None, ctypes=None):
        s.n = n; s.comps = comps; s.esize = esize; s.ver = ver or fresh_id(); s.ctypes = ctypes or {}
    def new(s, n=None, comps=None, newver=True):
        return Vec(s.n if n is None else n, dict(s.comps) if comps is None else comps, s.esize, None if newver else s.ver, s.ctypes)

class SetV:
    """abstract contents of an associative set of pointers"""
    def __init__(s, mem, cmp=None, ver=None): s.mem = mem; s.cmp = cmp; s.ver = ver or fresh_id(); s.enum = None

class Str:
    """abstract std::string: identity of its value"""
    def __init__(s, v): s.v = v

class Exc:
    def __init__(s, ti, ptr, uid=None, dtor=None): s.ti = ti; s.ptr = ptr; s.uid = uid or fresh_id(); s.dtor = dtor

class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'loc', 'prev', 'inst', 'loops', 'exc', 'allocas', 'vargs')
    def __init__(s, fn): s.fn = fn; s.blk = fn.order[0]; s.ip = 0; s.loc = {}; s.prev = None; s.inst = None; s.loops = []; s.exc = None; s.allocas = []
    def copy(s):
        f = Frame.__new__(Frame); f.fn = s.fn; f.blk = s.blk; f.ip = s.ip; f.loc = dict(s.loc); f.prev = s.prev; f.inst = s.inst
        f.loops = list(s.loops); f.exc = s.exc; f.allocas = s.allocas
        return f

class State:
    def __init__(s): s.frames = []; s.mem = {}; s.heap = {}; s.ghost = {}; s.vclass = {}; s.log = (); s.caught = (); s.dead = frozenset()
    def copy(s):
        t = State.__new__(State); t.frames = [f.copy() for f in s.frames]; t.mem = dict(s.mem); t.heap = dict(s.heap)
        t.ghost = dict(s.ghost); t.vclass = dict(s.vclass); t.log = s.log; t.caught = s.caught; t.dead = s.dead
        return t
    def cells(s, r): return s.mem.get(r.id, {})
    def setcell(s, r, off, size, ty, val):
        d = dict(s.mem.get(r.id, ())); d[off] = (size, ty, val); s.mem[r.id] = d

_symc = {}
def symbols(f):
    """names of the uninterpreted symbols of a formula"""
    k = f.get_id(); h = _symc.get(k)
    if h is not None and h[0].eq(f): return h[1]
    out = set(); seen = set(); todo = [f]
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): todo.append(e.body()); continue
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(e.decl().name())
            todo.extend(e.children())
    _symc[k] = (f, frozenset(out)); return _symc[k][1]

class Loop:
    def __init__(s, head, body, mode): s.head = head; s.body = body; s.mode = mode; s.snap = None; s.count = 0; s.on_back = None; s.on_exit = None; s.forked = False; s.first = None; s.bmc = 0; s.ff = []

class Alts(list): pass
class Walk:
    """the model is a call of another function"""
    def __init__(s, name, args): s.name = name; s.args = args
class Alt:
    def __init__(s, facts=(), eff=None, ret=None, throw=None, end=False): s.facts = list(facts); s.eff = eff; s.ret = ret; s.throw = throw; s.end = end

def isz(x): return isinstance(x, z3.ExprRef)
def isint(x): return isinstance(x, int) and not isinstance(x, bool)
def simp(e):
    if not isz(e): return e
    e = z3.simplify(e)
    if z3.is_int_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e

def toz(x):
    if isz(x): return x
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    raise Unsupported('toz %r' % (x,))

def b2z(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    return x

def lin(e):
    """linear decomposition: (const, {key: (coef, term)})"""
    if isint(e): return e, {}
    if z3.is_int_value(e): return e.as_long(), {}
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        c = 0; t = {}
        for x in e.children():
            c2, t2 = lin(x); c += c2
            for q, (a, tm) in t2.items(): t[q] = (t.get(q, (0, tm))[0] + a, tm)
        return c, {q: v for q, v in t.items() if v[0]}
    if k == z3.Z3_OP_SUB:
        ch = e.children(); c, t = lin(ch[0]); t = dict(t)
        for x in ch[1:]:
            c2, t2 = lin(x); c -= c2
            for q, (a, tm) in t2.items(): t[q] = (t.get(q, (0, tm))[0] - a, tm)
        return c, {q: v for q, v in t.items() if v[0]}
    if k == z3.Z3_OP_UMINUS:
        c, t = lin(e.children()[0]); return -c, {q: (-a, tm) for q, (a, tm) in t.items()}
    if k == z3.Z3_OP_MUL:
        ch = e.children(); co = 1; rest = []
        for x in ch:
            if z3.is_int_value(x): co *= x.as_long()
            else: rest.append(x)
        if len(rest) == 1:
            c, t = lin(rest[0]); return c * co, {q: (a * co, tm) for q, (a, tm) in t.items()}
        if not rest: return co, {}
    return 0, {e.get_id(): (1, e)}

def unlin(c, t):
    r = None
    for q in sorted(t):
        a, tm = t[q]
        x = tm if a == 1 else a * tm
        r = x if r is None else r + x
    if r is None: return c
    return r + c if c else r

def add(a, b):
    if isint(a) and isint(b): return a + b
    if isint(a) and a == 0: return b
    if isint(b) and b == 0: return a
    return norm(toz(a) + toz(b))
def sub(a, b):
    if isint(a) and isint(b): return a - b
    if isint(b) and b == 0: return a
    return norm(toz(a) - toz(b))
def norm(e):
    c, t = lin(e)
    return unlin(c, t)
def mulc(a, c):
    if isint(a): return a * c
    if c == 1: return a
    if c == 0: return 0
    return norm(a * c)
def divexact(e, d):
    """(quotient, remainder const) when every coefficient is divisible by d; else None"""
    c, t = lin(e)
    if any(a % d for a, _ in t.values()): return None
    return unlin(c // d, {q: (a // d, tm) for q, (a, tm) in t.items()}), c % d

def eqv(a, b):
    """syntactic equality"""
    if a is b: return True
    if isz(a) and isz(b): return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.base is b.base and eqv(a.off, b.off)
    if isinstance(a, PI) and isinstance(b, PI): return eqv(a.p, b.p)
    if isinstance(a, Vec) and isinstance(b, Vec): return a.ver == b.ver and eqv(a.n, b.n) and all(eqv(a.comps[k], b.comps.get(k)) for k in a.comps)
    if isinstance(a, SetV) and isinstance(b, SetV): return eqv(a.mem, b.mem)
    if isinstance(a, Str) and isinstance(b, Str): return eqv(a.v, b.v)
    if type(a) != type(b): return False
    try: return bool(a == b)
    except Exception: return False

IntArr = z3.ArraySort(z3.IntSort(), z3.IntSort())

class Oblig:
    def __init__(s, fn, name, status, backend, secs, detail=''): s.fn = fn; s.name = name; s.status = status; s.backend = backend; s.secs = secs; s.detail = detail; s.cut = False; s.cross = ''

class Engine:
    def __init__(s, mod, dem, contracts, vslots, opts=None):
        s.paths_only = s.program = False; s.shared_hook = None
        s.m = mod; s.dem = dem; s.contracts = contracts; s.vslots = vslots
        s.facts = []; s.scopes = []
        s.qf = z3.SolverFor('QF_AUFLIA') if False else z3.Solver()
        s.qf.set('timeout', 1000)
        s.obl = []; s.fname = '?'; s.mute = 0; s.hints = None; s.globs = {}; s.fnregs = {}; s.optimistic = 0
        s.opts = opts or {}; s.memo = {}; s.trusted = set(); s.inlined = set(); s.used = set(); s.paths = 0
        s.deadline = None; s.full_timeout = s.opts.get('timeout', 20000); s.nchecks = 0
        s.cvc5 = s.opts.get('cvc5'); s.contract_cache = {}
        s.strids = {}; s.axioms = []; s.steps = 0; s.maxsteps = s.opts.get('maxsteps', 30000000)
        s.peeking = False; s.invcache = {}; s.bufes = {}; s.lazy = {}; s.cutdepth = 0; s.bmc = s.opts.get('bmc', 0)
    # ---------- facts
    def push(s): s.qf.push(); s.scopes.append((len(s.facts), dict(s.memo)))
    def pop(s):
        n, memo = s.scopes.pop(); del s.facts[n:]; s.memo = memo; s.qf.pop()
    def fact(s, f):
        if isinstance(f, bool):
            if f: return
            f = z3.BoolVal(False)
        s.facts.append(f)
        if not hasq(f): s.qf.add(f)
    def check_time(s):
        if s.deadline and time.time() > s.deadline: raise Unsupported('time budget of the function used up')
    def feasible(s):
        s.nchecks += 1
        return s.qf.check() != z3.unsat
    def sure(s, f):
        """quick entailment from the quantifier-free facts"""
        if isinstance(f, bool): return f
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return not s.feasible()
        k = f.get_id()
        h = s.memo.get(k)
        if h is not None and h[0].eq(f) and h[1]: return True
        s.qf.push(); s.qf.add(z3.Not(f)); s.nchecks += 1
        r = s.qf.check(); s.open = r == z3.unknown; r = r == z3.unsat
        s.qf.pop()
        if r: s.memo[k] = (f, True)
        return r
    def entails(s, f, rlimit=3000000):
        if isinstance(f, bool): return f or not s.feasible()
        s.open = False
        if s.sure(f): return True
        if not s.open and not hasq(f) and not any(hasq(x) for x in s.facts) and not s.axioms: return False
        sol = z3.SimpleSolver(); sol.set('timeout', 30000); sol.set('rlimit', rlimit); sol.set('mbqi', False)   # the same answer on a busy machine
        for x in s.axioms: sol.add(x)
        for x in s.facts: sol.add(x)
        sol.add(z3.Not(f))
        return sol.check() == z3.unsat
    def near(s, f, rounds):
        """the facts that share symbols with f, transitively for some rounds"""
        want = set(symbols(f)); left = list(s.facts); out = []
        for _ in range(rounds):
            rest = []; add_ = set()
            for x in left:
                y = symbols(x)
                if not y or not want.isdisjoint(y): out.append(x); add_ |= y
                else: rest.append(x)
            left = rest
            if not add_ - want: break
            want |= add_
        return out, bool(left)
    def bynear(s, f, rlimit):
        for rounds in (1, 2, 3):
            fs, more = s.near(f, rounds)
            if not more: return False
            sol = z3.SimpleSolver(); sol.set('timeout', 20000); sol.set('rlimit', rlimit); sol.set('mbqi', False)
            for x in s.axioms: sol.add(x)
            for x in fs: sol.add(x)
            sol.add(z3.Not(f))
            if sol.check() == z3.unsat: return True
        return False
    def full(s, f, timeout=None):
        sol = z3.SimpleSolver(); sol.set('timeout', 20000); sol.set('rlimit', 4000000); sol.set('mbqi', False)
        for x in s.axioms: sol.add(x)
        for x in s.facts: sol.add(x)
        sol.add(z3.Not(f))
        if sol.check() == z3.unsat or s.bynear(f, 1500000): return 'proved', 'z3', None
        sol = z3.Solver(); sol.set('timeout', timeout or s.full_timeout)
        for x in s.axioms: sol.add(x)
        for x in s.facts: sol.add(x)
        sol.add(z3.Not(f))
        sol.set('smt.mbqi', False)
        r = sol.check()
        if r == z3.unsat: return 'proved', 'z3', None
        if r != z3.sat:
            sol.set('smt.mbqi', True); r = sol.check()
        if r == z3.unsat: return 'proved', 'z3', None
        if r == z3.sat: return 'refuted', 'z3', sol.model()
        if timeout is None:
            # other instantiation orders
            for seed, opt in ((7, {}), (23, {'smt.qi.eager_threshold': 100.0}), (5, {'smt.arith.solver': 2})):
                s2 = z3.Solver(); s2.set('timeout', s.full_timeout // 2); s2.set('smt.mbqi', False); s2.set('smt.random_seed', seed)
                for k, v in opt.items(): s2.set(k, v)
                for x in s.axioms: s2.add(x)
                for x in s.facts: s2.add(x)
                s2.add(z3.Not(f))
                if s2.check() == z3.unsat: return 'proved', 'z3', None
        if s.cvc5 and timeout is None:
            txt = '(set-logic ALL)\n' + sol.to_smt2()
            try:
                out = subprocess.run([s.cvc5, '--lang=smt2', '--tlimit=%d' % s.full_timeout], input=txt, capture_output=True, text=True, timeout=s.full_timeout/1000+5).stdout
                if out.strip().startswith('unsat'): return 'proved', 'cvc5', None
            except subprocess.TimeoutExpired: pass
        return 'unknown', 'z3', None
    def crosscheck(s, f):
        """the same obligation with cvc5"""
        sol = z3.Solver()
        for x in s.axioms + s.facts: sol.add(x)
        sol.add(z3.Not(f))
        try: return subprocess.run([s.cvc5, '--lang=smt2', '--tlimit=5000'], input='(set-logic ALL)\n' + sol.to_smt2(), capture_output=True, text=True, timeout=15).stdout.strip().split('\n')[0]
        except (subprocess.TimeoutExpired, OSError): return 'timeout'
    def prove(s, name, f, assume=True):
        """an obligation"""
        if s.mute:
            if assume and not isinstance(f, bool): s.fact(f)
            return True
        s.check_time()
        t = time.time()
        if isinstance(f, bool): f = z3.BoolVal(f)
        if s.sure(f): r = ('proved', 'z3', None)
        else: r = s.full(f)
        detail = ''
        if r[0] == 'refuted' and r[2] is not None:
            detail = model_text(r[2])
        elif r[0] == 'unknown': detail = 'solver gave no answer'
        o = Oblig(s.fname, name, r[0], r[1], time.time() - t, detail); o.cut = s.cutdepth > 0; s.obl.append(o)
        if r[0] == 'refuted' and r[2] is not None and s.program:
            import proof
            o.case = proof.case(s, r[2])
        if r[0] == 'proved' and s.opts.get('cross'): o.cross = s.crosscheck(f)
        if r[0] != 'proved' and s.opts.get('dump'):
            sys.stderr.write('FAILED %s: %s\n  goal %s\n' % (s.fname, name, f))
        if r[0] == 'refuted' and not o.cut: raise Refuted()      # one counterexample is enough
        if r[0] == 'unknown': s.full_timeout = max(2000, s.full_timeout // 2)
        if assume: s.fact(f)
        return r[0] == 'proved'
    # ---------- symbols
    def int(s, name, w=None, lo=None, hi=None):
        v = z3.Int('%s!%d' % (name, fresh_id()))
        if w: lo, hi = -(1 << (w-1)), (1 << (w-1)) - 1
        if lo is not None: s.fact(v >= lo)
        if hi is not None: s.fact(v <= hi)
        return v
    def bool(s, name): return z3.Bool('%s!%d' % (name, fresh_id()))
    def arr(s, name): return z3.Array('%s!%d' % (name, fresh_id()), z3.IntSort(), z3.IntSort())
    def ref(s, name, nonnull=True):
        v = s.int(name, lo=1 if nonnull else 0, hi=BASE0 - 1)
        return Ptr(None, v)
    def region(s, name, size=None, sym=False, kind='obj', info=None): return Reg(name, kind, size, sym, info)
    def vec(s, st, p, esize, n=None, comps=None, name='v', hi=1 << 30):
        """make the vector at p an arbitrary one"""
        if n is None: n = s.int(name + '.n', lo=0, hi=hi)
        if comps is None: comps = {c: s.arr('%s.%d' % (name, c)) for c in range(0, esize, 8 if esize >= 8 else esize)}
        v = Vec(n, comps, esize)
        st.setcell(p.base, p.off, 24, ('vec',), v)
        return v
    def getvec(s, st, p, esize=None):
        c = st.cells(p.base).get(p.off) if p.base is not None else None
        if c is None or not isinstance(c[2], Vec):
            if p.base is not None and p.base.sym and c is None and esize:
                return s.vec(st, p, esize, name=p.base.name)
            raise Unsupported('no vector at %r' % p)
        return c[2]
    def setvec(s, st, p, v): st.setcell(p.base, p.off, 24, ('vec',), v)
    def enc(s, v):
        """integer image of a value to be kept in an array"""
        if isinstance(v, Ptr):
            if v.base is None: return toz(v.off)
            if isint(v.off): return z3.IntVal(v.base.addr + v.off)
            return toz(v.off) + v.base.addr
        if isinstance(v, PI): return s.enc(v.p)
        if isinstance(v, bool): return z3.IntVal(int(v))
        if isinstance(v, Undef): return z3.Int('undef!%d' % fresh_id())
        if isz(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return toz(v)
    def dec(s, e, key=None, tag=None):
        e = simp(e) if isz(e) else e
        if isint(e):
            if e >= BASE0:
                r = Reg.table.get((e - BASE0) // STEP)
                if r is None: raise Unsupported('address %d' % e)
                return Ptr(r, e - r.addr)
            return Ptr(None, e)
        c, t = lin(e)
        if c >= BASE0:
            r = Reg.table.get((c - BASE0) // STEP)
            if r is not None: return Ptr(r, unlin(c - r.addr, t))
        return Ptr(None, e, key, tag)
    # ---------- integers
    def wrap(s, e, w):
        if isint(e):
            e &= (1 << w) - 1
            return e - (1 << w) if e >> (w - 1) else e
        if s.optimistic: return e
        lo, hi = -(1 << (w-1)), (1 << (w-1)) - 1
        if s.sure(z3.And(e >= lo, e <= hi)): return e
        M = 1 << w
        if s.sure(z3.And(e >= lo - M, e <= hi + M)):
            return z3.If(e > hi, e - M, z3.If(e < lo, e + M, e))
        return (e - lo) % M + lo
    def uns(s, e, w):
        """unsigned reading of a canonical signed value"""
        if isint(e): return e & ((1 << w) - 1)
        if s.optimistic or s.sure(e >= 0): return e
        return z3.If(e >= 0, e, e + (1 << w))
    def fresh(s, ty, name='h'):
        k = ty[0]
        if k == 'int':
            if ty[1] == 1: return s.bool(name)
            return s.int(name, ty[1])
        if k == 'ptr': return Ptr(None, s.int(name, lo=0, hi=BASE0 - 1))
        if k == 'double': return z3.FP('%s!%d' % (name, fresh_id()), z3.Float64())
        if k == 'float': return z3.FP('%s!%d' % (name, fresh_id()), z3.Float32())
        if k in ('struct', 'lit'): return Agg([s.fresh(e, name) for e in s.m.elems(ty)[0]])
        if k == 'arr': return Agg([s.fresh(ty[2], name) for _ in range(ty[1])])
        if k == 'void': return None
        raise Unsupported('fresh %r' % (ty,))
    # ---------- globals
    def fnptr(s, name):
        name = s.m.aliases.get(name, name)
        if name not in s.fnregs: s.fnregs[name] = Reg(name, 'fn', 1)
        return Ptr(s.fnregs[name], 0)
    def gptr(s, st, name):
        name = s.m.aliases.get(name, name)
        if name in s.m.funcs or name in s.m.decls: return s.fnptr(name)
        if name not in s.globs:
            g = s.m.glob(name)
            if g is None: raise Unsupported('global ' + name)
            t, init, const = g
            try: z = s.m.size(t)
            except KeyError: z = 1
            if s.program and not const and init is not None: s.globs[name] = (Reg(name, 'glob', z, sym=True, info='program'), init, t)
            else: s.globs[name] = (Reg(name, 'glob', z, sym=not (const and init is not None)), init if const else None, t)
        r, init, t = s.globs[name]
        if init is not None and r.id not in st.mem:
            st.mem[r.id] = {}
            s.store_const(st, Ptr(r, 0), t, init)
        return Ptr(r, 0)
    def store_const(s, st, p, t, v):
        k = t[0]
        if v[0] == 'undef': return
        if k in ('struct', 'lit'):
            el, _ = s.m.elems(t); offs = s.m.layout(t)[2]
            for i, e in enumerate(el):
                s.store_const(st, Ptr(p.base, p.off + offs[i]), e, ('zero',) if v[0] == 'zero' else v[1][i][1])
        elif k == 'arr':
            z = s.m.size(t[2])
            if v[0] == 'cstr':
                bs = cbytes(v[1])
                d = dict(st.mem.get(p.base.id, ()))
                for i, b in enumerate(bs): d[p.off + i] = (1, ir.I8, b - 256 if b > 127 else b)
                st.mem[p.base.id] = d
                return
            if v[0] == 'zero' and t[1] > 64: 
                return
            for i in range(t[1]):
                s.store_const(st, Ptr(p.base, p.off + i * z), t[2], ('zero',) if v[0] == 'zero' else v[1][i][1])
        else:
            st.setcell(p.base, p.off, s.m.size(t), t, s.const(st, t, v))
    def const(s, st, t, v):
        k = v[0]
        if k == 'int':
            if t == ir.I1: return bool(v[1])
            return s.wrap(v[1], t[1]) if t[0] == 'int' else v[1]
        if k == 'null': return NULL
        if k == 'global': return s.gptr(st, v[1])
        if k == 'undef': return UNDEF
        if k == 'zero':
            if t[0] == 'int': return False if t[1] == 1 else 0
            if t[0] == 'ptr': return NULL
            if t[0] in ('double', 'float'): return z3.FPVal(0.0, z3.Float64() if t[0] == 'double' else z3.Float32())
            if t[0] in ('struct', 'lit'): return Agg([s.const(st, e, v) for e in s.m.elems(t)[0]])
            if t[0] == 'arr': return Agg([s.const(st, t[2], v) for _ in range(t[1])])
        if k == 'gep':
            return s.gep(st, s.const(st, ir.PTR, v[2]), v[1], [(it, s.const(st, it, iv)) for it, iv in v[3]])
        if k == 'cast':
            x = s.const(st, v[2], v[3])
            if v[1] == 'ptrtoint': return s.p2i(x)
            if v[1] == 'inttoptr': return s.i2p(x)
            return x
        if k == 'agg': return Agg([s.const(st, et, ev) for et, ev in v[1]])
        if k == 'fp':
            so = z3.Float64() if t[0] == 'double' else z3.Float32()
            x = v[1]
            if x.startswith('0x'):
                import struct
                return z3.FPVal(struct.unpack('>d', int(x, 16).to_bytes(8, 'big'))[0], so)
            return z3.FPVal(float(x), so)
        if k == 'cbin':
            a = s.const(st, v[2], v[3]); b = s.const(st, v[2], v[4])
            return add(a, b) if v[1] == 'add' else sub(a, b)
        raise Unsupported('constant %r' % (v,))
    def p2i(s, x):
        if isinstance(x, Ptr): return x.off if x.base is None else PI(x)
        if isinstance(x, FnSlot): return x
        if x is UNDEF: return UNDEF
        return x
    def i2p(s, x):
        if isinstance(x, PI): return x.p
        if isinstance(x, (Ptr, FnSlot)): return x
        if x is UNDEF: return UNDEF
        return s.dec(x)
    def val(s, st, t, v):
        if v[0] == 'local':
            f = st.frames[-1]
            if v[1] not in f.loc: raise Unsupported('value %%%s of %s' % (v[1], f.fn.name))
            return f.loc[v[1]]
        return s.const(st, t, v)
    # ---------- pointers
    def gep(s, st, p, t, idx):
        if isinstance(p, FnSlot): raise Unsupported('gep on slot')
        if p is UNDEF: return UNDEF
        off = p.off; key = None
        tag = p.tag if isinstance(p, Ptr) else None
        first = True; ct = t; path0 = True
        for it, iv in idx:
            iv = s.i2i(iv)
            if first:
                z = s.m.size(ct)
                off = add(off, mulc(iv, z)) ; first = False
                if not (isint(iv) and iv == 0): path0 = False
            elif ct[0] in ('struct', 'lit'):
                el, _ = s.m.elems(ct); offs = s.m.layout(ct)[2]
                off = add(off, offs[iv]); key = (ct[1] if ct[0] == 'struct' else '?', iv); ct = el[iv]
            elif ct[0] in ('arr', 'vec'):
                off = add(off, mulc(iv, s.m.size(ct[2]))); ct = ct[2]
            else: raise Unsupported('gep into %r' % (ct,))
        q = Ptr(p.base, off, key)
        if tag and tag[0] == 'vptr': q.tag = ('slot', tag[1], sub(off, p.off), tag[2])
        if len(idx) == 1 and key is None and isint(off) and path0: q.key = p.key
        return q
    def i2i(s, v):
        if isinstance(v, PI): return s.enc(v.p)
        if v is UNDEF: return s.int('undef', 64)
        return v
    def resolve(s, p):
        """plain addresses that are provably inside a known region"""
        return p
    def access(s, st, p):
        if isinstance(p, PI): p = p.p
        if not isinstance(p, Ptr): raise Unsupported('access through %r' % (p,))
        if p.base is None:
            if isz(p.off):
                q = s.dec(p.off, p.key, p.tag)
                if q.base is not None: p = q
        if p.base is None and isint(p.off) and p.off < 4096:
            s.prove('no null pointer access', False)
            raise PathEnd()
        if p.base is not None and (p.base.id in st.dead or s.program and st.mem.get(p.base.id, ()) is None):
            s.prove('no access to released memory (%s)' % p.base.name, False)
            raise PathEnd()
        return p
    def bufcell(s, st, p):
        own, off, ver = p.base.info
        c = st.cells(own).get(off)
        if c is None or not isinstance(c[2], Vec): raise Unsupported('vector gone')
        v = c[2]
        if v.ver != ver:
            s.prove('no use of an invalidated vector iterator', False); raise PathEnd()
        d = divexact(p.off, v.esize)
        if d is None: raise Unsupported('element offset %s / %d' % (p.off, v.esize))
        return own, off, v, d[0], d[1]
    def load(s, st, p, ty):
        k = ty[0]
        if k in ('struct', 'lit'):
            el, _ = s.m.elems(ty); offs = s.m.layout(ty)[2]
            return Agg([s.load(st, Ptr(p.base, add(p.off, offs[i])), e) for i, e in enumerate(el)])
        if k == 'arr':
            z = s.m.size(ty[2]); return Agg([s.load(st, Ptr(p.base, add(p.off, i*z)), ty[2]) for i in range(ty[1])])
        p = s.access(st, p)
        z = s.m.size(ty)
        if p.base is None: return s.rawload(st, p, ty)
        kind = p.base.kind
        if kind == 'buf':
            own, off, v, i, c = s.bufcell(st, p)
            s.prove('vector element access in range', z3.And(toz(i) >= 0, toz(i) < toz(v.n)))
            return s.comp(st, v, i, c, ty)
        if kind == 'enum':
            d = divexact(p.off, 8); n, a = p.base.info[:2]
            s.prove('set element access in range', z3.And(toz(d[0]) >= 0, toz(d[0]) < toz(n)))
            return s.dec(z3.Select(a, toz(d[0])))
        if not isint(p.off):
            p = s.concretize(st, p, z)
        cells = st.cells(p.base)
        c = cells.get(p.off)
        if c is not None and c[0] == z: return s.conv(st, c[2], ty)
        if c is not None and isinstance(c[2], Vec) and z == 8: return s.vecptr(st, p.base, p.off, c[2], 0)
        if c is not None and isinstance(c[2], SetV): raise Unsupported('raw read of a set')
        for o, (cz, cty, cv) in cells.items():
            if o < p.off + z and p.off < o + cz:
                if isinstance(cv, Vec): return s.vecptr(st, p.base, o, cv, p.off - o)
                if isint(cv) and cz > z and o <= p.off:
                    sh = (p.off - o) * 8; x = ((cv & ((1 << cz*8) - 1)) >> sh) & ((1 << z*8) - 1)
                    return s.conv(st, s.wrap(x, z*8), ty)
                if p.base.kind == 'glob' and z > cz:
                    x = 0
                    for b in range(z):
                        cc = cells.get(p.off + b)
                        if cc is None or cc[0] != 1 or not isint(cc[2]): break
                        x |= (cc[2] & 255) << (8*b)
                    else: return s.conv(st, s.wrap(x, z*8), ty)
                x = s.assemble(cells, p.off, z)
                if x is not None: return s.conv(st, s.wrap(x, z*8), ty)
                raise Unsupported('overlapping access in %s at %d' % (p.base.name, p.off))
        if p.base.kind == 'glob' and (not p.base.sym or p.base.info == 'program'): # zero part of a big constant
            v = s.const(st, ty, ('zero',))
            return v
        if p.key and p.base.sym and '_Vector_impl_data' in p.key[0]:
            import stdmodels
            es = stdmodels.esize_of(stdmodels.vec_elt(p.key[0].replace('_Vector_base<', 'vector<')))
            if es:
                o = p.off - 8 * p.key[1]
                vv = s.vec(st, Ptr(p.base, o), es, name=p.base.name)
                s.lazy[(p.base.id, o)] = vv
                return s.vecptr(st, p.base, o, vv, 8 * p.key[1])
        v = s.fresh(ty, p.base.name + '+%d' % p.off)
        if ty[0] == 'ptr' and p.key is None and p.base.sym and p.base.kind == 'obj' and isinstance(v, Ptr): v.tag = ('vptr', s.enc(p), v.off)
        s.lazy[(p.base.id, p.off)] = v
        st.setcell(p.base, p.off, z, ty, v)
        return v
    def assemble(s, cells, off, z):
        """a wide integer from adjacent narrow ones"""
        x = 0; o = off
        while o < off + z:
            c = cells.get(o)
            if c is None or o + c[0] > off + z: return None
            v = c[2]
            if not (isint(v) or (isz(v) and v.sort() == z3.IntSort())): return None
            x = add(x, mulc(s.uns(v, c[0]*8), 1 << (8*(o - off)))); o += c[0]
        return x
    def concretize(s, st, p, z):
        """offset decided by the facts"""
        r = s.qf.check()
        if r == z3.sat:
            mv = s.qf.model().eval(toz(p.off), model_completion=True)
            if z3.is_int_value(mv):
                if s.sure(toz(p.off) == mv): return Ptr(p.base, mv.as_long(), p.key)
        raise NeedSplit(p.off, p.base.size, z)
    def vecptr(s, st, own, off, v, d):
        key = ('buf', own.id, off, v.ver)
        r = s.globs.get(key)
        if r is None: r = s.globs[key] = Reg('buf(%s+%d)' % (own.name, off), 'buf', None, info=(own, off, v.ver))
        s.bufes[r.id] = v.esize
        if d == 0: return Ptr(r, 0)
        if d == 8: return Ptr(r, mulc(v.n, v.esize))
        if d == 16:
            cap = s.int('cap'); s.fact(cap >= toz(v.n)); return Ptr(r, mulc(cap, v.esize))
        raise Unsupported('vector internals')
    def comp(s, st, v, i, c, ty):
        if c not in v.comps: raise Unsupported('element component %d' % c)
        e = z3.Select(v.comps[c], toz(i))
        if ty[0] == 'ptr': return s.dec(e)
        if ty[0] == 'int':
            w = ty[1]
            e2 = simp(e)
            if isz(e2): s.fact(z3.And(e2 >= -(1 << (w-1)), e2 < (1 << (w-1))))
            return e2
        raise Unsupported('component type %r' % (ty,))
    def hmap(s, st, key):
        if key not in st.heap:
            nm = 'H_%s' % '_'.join(map(str, key))
            st.heap[key] = z3.Array(nm + '!0', z3.IntSort(), z3.IntSort())
        return st.heap[key]
    def rkey(s, p, ty): return p.key if p.key else ('scalar', s.m.size(ty))
    def rawload(s, st, p, ty):
        if p.tag and p.tag[0] == 'slot':
            o = p.tag[2]
            if isint(o):
                if o >= 0: return FnSlot(p.tag[1], o // 8, p.tag[3])
                # virtual base offset / offset to top of an object of unknown class
                f = z3.Function('vboff_%d' % (-o), z3.IntSort(), z3.IntSort())
                return f(toz(p.tag[1]))
        if ty[0] in ('double', 'float'): raise Unsupported('raw fp load')
        e = z3.Select(s.hmap(st, s.rkey(p, ty)), toz(p.off))
        e = simp(e)
        if ty[0] == 'ptr':
            q = s.dec(e)
            if q.base is None and isz(q.off):
                s.fact(z3.And(q.off >= 0, q.off < BASE0))
                if p.key is None: q.tag = ('vptr', p.off, e)
            return q
        if ty[0] == 'int':
            w = ty[1]
            if isz(e): s.fact(z3.And(e >= -(1 << (w-1)), e < (1 << (w-1))))
            return s.conv(st, e, ty)
        raise Unsupported('raw load %r' % (ty,))
    def conv(s, st, v, ty):
        k = ty[0]
        if v is UNDEF: return s.fresh(ty, 'undef') if k != 'ptr' else UNDEF
        if k == 'ptr':
            if isinstance(v, (Ptr, FnSlot)): return v
            return s.i2p(v)
        if k == 'int':
            if isinstance(v, Ptr): return s.p2i(v)
            if isinstance(v, FnSlot): return v
            if ty[1] == 1:
                if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): return v
                return s.tobool(v)
            if isinstance(v, bool): return int(v)
            if isz(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isz(v) and z3.is_fp(v): raise Unsupported('fp as int')
            return v
        if k in ('double', 'float'):
            if isz(v) and z3.is_fp(v): return v
            if isint(v) and v == 0: return z3.FPVal(0.0, z3.Float64() if k == 'double' else z3.Float32())
            raise Unsupported('fp conversion')
        if isinstance(v, Agg): return v
        raise Unsupported('conversion of %r to %r' % (v, ty))
    def tobool(s, v):
        if isint(v): return bool(v & 1)
        if isz(v) and v.decl().kind() == z3.Z3_OP_ITE:
            a, b = v.arg(1), v.arg(2)
            if z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() == 1 and b.as_long() == 0: return v.arg(0)
        if s.optimistic: return v == 1
        if s.sure(z3.Or(v == 0, v == 1)): return v == 1
        return v % 2 == 1
    def store(s, st, p, ty, v):
        k = ty[0]
        if k in ('struct', 'lit') or k == 'arr':
            if v is UNDEF: return
            el = s.m.elems(ty)[0] if k != 'arr' else [ty[2]] * ty[1]
            offs = s.m.layout(ty)[2] if k != 'arr' else [i * s.m.size(ty[2]) for i in range(ty[1])]
            for i, e in enumerate(el): s.store(st, Ptr(p.base, add(p.off, offs[i])), e, v.e[i])
            return
        p = s.access(st, p)
        z = s.m.size(ty)
        if p.base is None:
            key = s.rkey(p, ty)
            st.heap[key] = z3.Store(s.hmap(st, key), toz(p.off), s.enc(v)); return
        if p.base.kind == 'buf':
            own, off, vv, i, c = s.bufcell(st, p)
            s.prove('vector element access in range', z3.And(toz(i) >= 0, toz(i) < toz(vv.n)))
            comps = dict(vv.comps); comps[c] = z3.Store(comps[c], toz(i), s.enc(v))
            st.setcell(own, off, 24, ('vec',), vv.new(comps=comps, newver=False)); return
        if p.base.kind == 'glob' and not p.base.sym: raise Unsupported('store to constant')
        if p.base.kind == 'enum': raise Unsupported('store to set element')
        if not isint(p.off): p = s.concretize(st, p, z)
        d = dict(st.mem.get(p.base.id, ()))
        c = d.get(p.off)
        if c is None or c[0] != z:
            for o in list(d):
                cz, cty, cv = d[o]
                if o < p.off + z and p.off < o + cz:
                    if isinstance(cv, Vec): raise Unsupported('raw write into vector')
                    if isint(cv) and cv == 0 or cv is UNDEF or (isinstance(cv, Ptr) and cv.isnull()):
                        del d[o]
                        for b in range(o, o + cz):
                            if not (p.off <= b < p.off + z): d[b] = (1, ir.I8, 0 if not cv is UNDEF else UNDEF)
                    elif p.off <= o and o + cz <= p.off + z: del d[o]
                    else:
                        del d[o]
                        for b in range(o, o + cz):
                            if p.off <= b < p.off + z: continue
                            if isint(cv) or (isz(cv) and cv.sort() == z3.IntSort()):
                                u = s.uns(cv, cz*8); by = (u >> 8*(b - o)) & 255 if isint(u) else (u / (1 << 8*(b - o))) % 256
                                d[b] = (1, ir.I8, s.wrap(by, 8))
                            else: d[b] = (1, ir.I8, s.int('byte', 8))
        if p.base.size is not None and isint(p.off) and not (0 <= p.off and p.off + z <= p.base.size):
            s.prove('store inside the object %s' % p.base.name, False); raise PathEnd()
        d[p.off] = (z, ty, v); st.mem[p.base.id] = d
    def memcpy(s, st, d, sr, n):
        if not isint(n): raise Unsupported('memcpy of symbolic size')
        if n == 0: return
        d = s.access(st, d); sr = s.access(st, sr)
        if d.base is not None and d.base.kind == 'buf' or sr.base is not None and sr.base.kind == 'buf':
            for o in range(0, n, 8):
                t = ir.I64 if n - o >= 8 else ('int', 8 * (n - o))
                s.store(st, Ptr(d.base, add(d.off, o)), t, s.load(st, Ptr(sr.base, add(sr.off, o)), t))
            return
        if d.base is None or sr.base is None:
            raise Unsupported('memcpy through plain address')
        if not isint(sr.off) or not isint(d.off): raise Unsupported('memcpy symbolic offset')
        src = st.cells(sr.base); dst = dict(st.mem.get(d.base.id, ()))
        for o in list(dst):
            if d.off <= o < d.off + n: del dst[o]
        cov = 0
        for o in sorted(src):
            cz, cty, cv = src[o]
            if sr.off <= o and o + cz <= sr.off + n:
                if isinstance(cv, (Vec, SetV)): raise Unsupported('memcpy of container')
                dst[o - sr.off + d.off] = (cz, cty, cv); cov += cz
        st.mem[d.base.id] = dst
        if cov < n and sr.base.sym:
            o = 0
            while o < n:
                if not any(q <= sr.off + o < q + cz for q, (cz, _, _) in src.items()):
                    t = ir.I64 if n - o >= 8 and o % 8 == 0 else ir.I8
                    v = s.load(st, Ptr(sr.base, sr.off + o), t)
                    s.store(st, Ptr(d.base, d.off + o), t, v); o += s.m.size(t)
                else: o += 1
    def memset(s, st, d, b, n):
        if not isint(n): raise Unsupported('memset of symbolic size')
        if not isint(b): raise Unsupported('memset value')
        d = s.access(st, d)
        if d.base is None: raise Unsupported('memset raw')
        c = dict(st.mem.get(d.base.id, ()))
        for o in list(c):
            if d.off <= o < d.off + n: del c[o]
        o = 0
        while o < n:
            w = 8 if n - o >= 8 and (d.off + o) % 8 == 0 else (4 if n - o >= 4 and (d.off + o) % 4 == 0 else 1)
            x = 0
            for _ in range(w): x = x << 8 | (b & 255)
            c[d.off + o] = (w, ('int', 8*w), s.wrap(x, 8*w)); o += w
        st.mem[d.base.id] = c
    # ---------- comparison
    def ptrcmp(s, st, pred, a, b):
        if a is UNDEF or b is UNDEF: return s.bool('undef')
        if isinstance(a, FnSlot) or isinstance(b, FnSlot):
            if pred == 'eq': return False
            if pred == 'ne': return True
            raise Unsupported('slot compare')
        if a.base is not None and a.base is b.base:
            x, y = a.off, b.off
        elif a.base is not None and b.base is not None:
            if pred in ('eq', 'ne'):
                if a.base.kind == 'buf' and b.base.kind == 'buf' and a.base.info[:2] == b.base.info[:2]:
                    s.prove('no use of an invalidated vector iterator', False); raise PathEnd()
                return pred == 'ne'
            x, y = s.enc(a), s.enc(b)
        else:
            x, y = s.enc(a), s.enc(b)
            if a.base is not None and b.isnull() or b.base is not None and a.isnull():
                if pred in ('eq', 'ne'): return pred == 'ne'
        return s.icmp2(pred, x, y, 64, True)
    def icmp2(s, pred, x, y, w, isptr=False):
        if isint(x) and isint(y):
            if pred[0] == 'u' and not isptr: x &= (1 << w) - 1; y &= (1 << w) - 1
            return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
        if pred == 'eq': return simp(toz(x) == toz(y))
        if pred == 'ne': return simp(toz(x) != toz(y))
        if pred[0] == 'u' and not isptr: x = s.uns(x, w); y = s.uns(y, w)
        x, y = toz(x), toz(y)
        return simp({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]])
    # ---------- running
    def set_(s, st, inst, v):
        if inst.res is not None: st.frames[-1].loc[inst.res] = v
    def fork(s, st, alts):
        """alts: list of (facts, fn(state)); runs every feasible alternative to its end"""
        if s.peeking: raise PeekFail()
        live = []
        for facts, fn in alts:
            if any(isinstance(f, bool) and not f for f in facts): continue
            live.append((facts, fn))
        if len(live) > 1:
            for fr in st.frames:
                for i, l in enumerate(fr.loops):
                    if l.mode == 'unroll' and not l.forked:
                        l2 = Loop(l.head, l.body, 'unroll'); l2.count = l.count; l2.snap = l.snap; l2.forked = True; l2.first = l.first; l2.bmc = l.bmc; l2.ff = l.ff
                        fr.loops[i] = l2
        for n, (facts, fn) in enumerate(live):
            s.push()
            try:
                for f in facts: s.fact(f)
                if len(live) == 1 or s.feasible():
                    s2 = st if n == len(live) - 1 else st.copy()
                    try:
                        fn(s2); s.run(s2)
                    except PathEnd: pass
            finally: s.pop()
        raise PathEnd()
    def run(s, st):
        while True:
            f = st.frames[-1]
            inst = f.fn.blocks[f.blk][f.ip]
            s.steps += 1
            if s.steps > s.maxsteps: raise Unsupported('too many steps')
            if s.steps % 2000 == 0: s.check_time()
            try:
                s.step(st, f, inst)
            except NeedSplit as e:
                if e.size is None: raise Unsupported('symbolic offset in unbounded region')
                alts = []
                for o in range(0, e.size - e.z + 1, e.z):
                    alts.append(([toz(e.off) == o], lambda s2, o=o: None))
                # outside
                if not s.sure(z3.And(toz(e.off) >= 0, toz(e.off) <= e.size - e.z)):
                    s.prove('access inside the object', z3.And(toz(e.off) >= 0, toz(e.off) <= e.size - e.z))
                s.fork(st, alts)
    def goto(s, st, f, dst):
        # leaving loops
        while f.loops and dst not in f.loops[-1].body:
            l = f.loops.pop()
            if l.on_exit: l.on_exit(st)
        f.prev = f.blk
        L = f.fn.loops()
        if dst in L:
            if f.loops and f.loops[-1].head == dst:
                l = f.loops[-1]
                if l.mode == 'inv':
                    f.blk = dst; f.ip = 0
                    l.on_back(st); raise PathEnd()
                if s.bmc and l.forked:
                    if l.bmc >= s.bmc: raise PathEnd()
                    l2 = Loop(l.head, l.body, 'unroll'); l2.bmc = l.bmc + 1; l2.forked = True; l2.ff = l.ff; f.loops[-1] = l2; f.blk = dst; f.ip = 0
                    for ff in l2.ff:
                        for x in ff(st, z3.IntVal(l2.bmc)): s.fact(x)
                    return
                if l.forked and not s.paths_only and not (l.count < 8 and s.peek(st, dst)): return s.cutloop((l.first or l.snap).copy(), len(f.loops) - 1)
                l2 = Loop(l.head, l.body, 'unroll'); l2.count = l.count + 1; l2.first = l.first
                if l.count > s.opts.get('unroll', 2000): raise Unsupported('loop unrolled too often')
                f.loops[-1] = l2; f.blk = dst; f.ip = 0
                if not s.paths_only: l2.snap = st.copy()
                return
            l = Loop(dst, L[dst], 'unroll'); f.loops.append(l); f.blk = dst; f.ip = 0
            if not s.paths_only: l.snap = st.copy()
            if s.bmc and s.hints:
                l.ff = s.hints(s, st).get('facts', []); n = len(f.loops)
                for ff in l.ff:
                    for x in ff(st, z3.IntVal(0)): s.fact(x)
            return
        f.blk = dst; f.ip = 0
    def peek(s, st, dst):
        """is the next test of the loop decided without any symbolic choice?"""
        if s.peeking: return False
        s2 = st.copy(); f = s2.frames[-1]; f.loops.pop(); f.blk = dst; f.ip = 0; depth = len(s2.frames)
        s.peeking = True; s.mute += 1; s.push()
        try:
            for _ in range(400):
                f = s2.frames[-1]; inst = f.fn.blocks[f.blk][f.ip]
                if len(s2.frames) == depth:
                    if inst.op in ('br', 'ret', 'switch', 'resume'): return False
                    if inst.op == 'condbr':
                        c = s.val(s2, ir.I1, inst.a['c']); c = simp(c) if isz(c) else c
                        return isinstance(c, (bool, int))
                s.step(s2, f, inst)
            return False
        except (PeekFail, Unsupported, PathEnd, NeedSplit): return False
        finally: s.pop(); s.mute -= 1; s.peeking = False
    def branch(s, st, f, cond, t, e):
        if isinstance(cond, bool):
            return s.goto(st, f, t if cond else e)
        # a symbolic exit from a loop that is being unrolled: use an invariant
        for depth, l in enumerate(f.loops):
            if l.mode == 'unroll' and not s.bmc and not s.paths_only and ((t in l.body) != (e in l.body)):
                # decided by facts?
                # (then a later cut starts here: the hints count iterations from the first)
                if s.sure(cond): dst = t
                elif s.sure(z3.Not(cond)): dst = e
                else: return s.cutloop((l.first or l.snap).copy(), depth)
                if dst in l.body and l.first is None: l.first = l.snap
                return s.goto(st, f, dst)
        s.fork(st, [([cond], lambda s2: s.goto(s2, s2.frames[-1], t)), ([z3.Not(cond)], lambda s2: s.goto(s2, s2.frames[-1], e))])
    # ---------- loops
    def cutloop(s, st0, depth):
        import loops
        loops.cut(s, st0, depth)
        raise PathEnd()
    # ---------- instructions
    def step(s, st, f, inst):
        op = inst.op
        f.ip += 1
        a = inst.a
        if s.shared_hook and op in ('load', 'store', 'atomicrmw', 'cmpxchg'): s.shared_hook(st, inst, s.val(st, ir.PTR, a['p']), False)
        if op == 'load':
            try: f.loc[inst.res] = s.load(st, s.val(st, ir.PTR, a['p']), inst.ty)
            except NeedSplit: f.ip -= 1; raise
        elif op == 'store':
            try: s.store(st, s.val(st, ir.PTR, a['p']), inst.ty, s.val(st, inst.ty, a['v']))
            except NeedSplit: f.ip -= 1; raise
            if s.shared_hook: s.shared_hook(st, inst, s.val(st, ir.PTR, a['p']), True)
        elif op == 'alloca':
            n = 1
            if a['n'] is not None: n = s.const(st, ir.I64, a['n'])
            r = Reg('%s' % inst.res, 'obj', s.m.size(inst.ty) * n); f.loc[inst.res] = Ptr(r, 0)
            if s.program: f.allocas = f.allocas + [r.id]
        elif op == 'gep':
            f.loc[inst.res] = s.gep(st, s.val(st, ir.PTR, a['base']), inst.ty, [(it, s.val(st, it, iv)) for it, iv in a['idx']])
        elif op == 'br': s.goto(st, f, a['dst'])
        elif op == 'condbr':
            c = s.val(st, ir.I1, a['c'])
            if c is UNDEF: c = s.bool('undef')
            if isint(c): c = bool(c)
            if isz(c):
                c = simp(c)
            s.branch(st, f, c, a['t'], a['f'])
        elif op in ('call', 'invoke'): s.call(st, f, inst)
        elif op == 'ret':
            v = None if a['v'] is None else s.val(st, inst.ty, a['v'])
            s.ret(st, v)
        elif op == 'icmp':
            x = s.val(st, inst.ty, a['x']); y = s.val(st, inst.ty, a['y'])
            if inst.ty[0] == 'ptr': f.loc[inst.res] = s.ptrcmp(st, a['pred'], x, y)
            else: f.loc[inst.res] = s.icmp(st, a['pred'], x, y, inst.ty[1])
        elif op == 'bin': f.loc[inst.res] = s.binop(st, inst, s.val(st, inst.ty, a['x']), s.val(st, inst.ty, a['y']))
        elif op == 'cast': f.loc[inst.res] = s.cast(st, a['o'], a['ft'], inst.ty, s.val(st, a['ft'], a['x']))
        elif op == 'select':
            c = s.val(st, ir.I1, a['c']); x = s.val(st, inst.ty, a['x']); y = s.val(st, inst.ty, a['y'])
            if isz(c): c = simp(c)
            if isinstance(c, bool): f.loc[inst.res] = x if c else y
            elif eqv(x, y): f.loc[inst.res] = x
            else:
                r = inst.res
                def pick(v):
                    def g(s2): s2.frames[-1].loc[r] = v
                    return g
                s.fork(st, [([c], pick(x)), ([z3.Not(c)], pick(y))])
        elif op == 'phi':
            # all phis of the block read the values of the previous block
            blk = f.fn.blocks[f.blk]; i0 = f.ip - 1; vals = []
            j = i0
            while blk[j].op == 'phi':
                for v, l in blk[j].a['inc']:
                    if l == f.prev: vals.append((blk[j].res, s.val(st, blk[j].ty, v))); break
                else: raise Unsupported('phi')
                j += 1
            for r, v in vals: f.loc[r] = v
            f.ip = j
        elif op == 'switch':
            v = s.val(st, inst.ty, a['v'])
            cases = [(s.const(st, inst.ty, cv), d) for cv, d in a['cases']]
            if isint(v):
                for cv, d in cases:
                    if cv == v: return s.goto(st, f, d)
                return s.goto(st, f, a['default'])
            alts = [([toz(v) == cv], lambda s2, d=d: s.goto(s2, s2.frames[-1], d)) for cv, d in cases]
            alts.append(([toz(v) != cv for cv, d in cases], lambda s2: s.goto(s2, s2.frames[-1], a['default'])))
            s.fork(st, alts)
        elif op == 'extractvalue':
            v = s.val(st, inst.ty, a['x'])
            for i in a['idx']:
                if v is UNDEF: break
                v = v.e[i]
            f.loc[inst.res] = v
        elif op == 'insertvalue':
            v = s.val(st, inst.ty, a['x']); e = s.val(st, a['et'], a['e'])
            if v is UNDEF: v = Agg([UNDEF] * len(s.m.elems(inst.ty)[0]))
            v = Agg(v.e)
            if len(a['idx']) != 1: raise Unsupported('insertvalue')
            v.e[a['idx'][0]] = e; f.loc[inst.res] = v
        elif op == 'landingpad': s.landing(st, f, inst)
        elif op == 'resume': s.unwind(st, f.exc, True)
        elif op == 'unreachable': raise PathEnd()
        elif op == 'freeze': f.loc[inst.res] = s.val(st, inst.ty, a['x'])
        elif op == 'atomicrmw':
            p = s.val(st, ir.PTR, a['p']); old = s.load(st, p, inst.ty); v = s.val(st, inst.ty, a['v'])
            if a['o'] == 'add': nv = s.wrap(add(old, v), inst.ty[1])
            elif a['o'] == 'sub': nv = s.wrap(sub(old, v), inst.ty[1])
            elif a['o'] == 'xchg': nv = v
            else: raise Unsupported('atomicrmw ' + a['o'])
            s.store(st, p, inst.ty, nv); f.loc[inst.res] = old
            if s.shared_hook: s.shared_hook(st, inst, p, True)
        elif op == 'fneg': f.loc[inst.res] = z3.fpNeg(s.val(st, inst.ty, a['x']))
        elif op == 'fcmp': f.loc[inst.res] = s.fcmp(a['pred'], s.val(st, inst.ty, a['x']), s.val(st, inst.ty, a['y']))
        elif op == 'nop': pass
        else: raise Unsupported('instruction: ' + str(a.get('text', op))[:160])
    def fcmp(s, pred, x, y):
        uno = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        base = {'eq': z3.fpEQ(x, y), 'gt': z3.fpGT(x, y), 'ge': z3.fpGEQ(x, y), 'lt': z3.fpLT(x, y), 'le': z3.fpLEQ(x, y), 'ne': z3.Not(z3.fpEQ(x, y))}
        if pred == 'ord': return simp(z3.Not(uno))
        if pred == 'uno': return simp(uno)
        b = base[pred[1:]]
        if pred[0] == 'o': return simp(z3.And(z3.Not(uno), b))
        return simp(z3.Or(uno, b))
    def icmp(s, st, pred, x, y, w):
        if isinstance(x, PI) or isinstance(y, PI) or isinstance(x, Ptr) or isinstance(y, Ptr) or isinstance(x, FnSlot):
            return s.ptrcmp(st, pred, s.i2p(x), s.i2p(y))
        if x is UNDEF or y is UNDEF: return s.bool('undef')
        if w == 1:
            if pred == 'eq': return simp(b2z(x) == b2z(y))
            if pred == 'ne': return simp(b2z(x) != b2z(y))
            x = s.conv(st, x, ir.I8); y = s.conv(st, y, ir.I8)
        return s.icmp2(pred, x, y, w)
    def binop(s, st, inst, x, y):
        o = inst.a['o']; w = inst.ty[1] if inst.ty[0] == 'int' else None
        if inst.ty[0] in ('double', 'float'):
            rm = z3.RNE()
            return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[o](rm, x, y)
        if w == 1:
            x, y = b2z(x), b2z(y)
            if o == 'and': return simp(z3.And(x, y))
            if o == 'or': return simp(z3.Or(x, y))
            if o in ('xor', 'add'): return simp(z3.Xor(x, y))
            raise Unsupported('i1 ' + o)
        if isinstance(x, FnSlot) or isinstance(y, FnSlot): raise Unsupported('slot arithmetic')
        if isinstance(x, PI) or isinstance(y, PI):
            if o == 'sub' and isinstance(x, PI) and isinstance(y, PI):
                if x.p.base is y.p.base: return sub(x.p.off, y.p.off)
                if x.p.base.kind == 'buf' and y.p.base.kind == 'buf' and x.p.base.info[:2] == y.p.base.info[:2]:
                    s.prove('no use of an invalidated vector iterator', False); raise PathEnd()
            if o == 'sub' and isinstance(x, PI) and isint(y): return PI(Ptr(x.p.base, sub(x.p.off, y)))
            if o == 'add' and isinstance(x, PI) and not isinstance(y, PI): return PI(Ptr(x.p.base, add(x.p.off, y)))
            if o == 'add' and isinstance(y, PI) and not isinstance(x, PI): return PI(Ptr(y.p.base, add(y.p.off, x)))
            if o == 'and' and isint(y) and isinstance(x, PI) and isint(x.p.off) and 0 <= y < 4096: return x.p.off & y
            x = s.i2i(x) if isinstance(x, PI) else x; y = s.i2i(y) if isinstance(y, PI) else y
            if isz(x): x = simp(x)
            if isz(y): y = simp(y)
        if x is UNDEF: x = s.int('undef', w)
        if y is UNDEF: y = s.int('undef', w)
        if o == 'add': return s.wrap(add(x, y), w)
        if o == 'sub': return s.wrap(sub(x, y), w)
        if o == 'mul':
            if isint(x): x, y = y, x
            if isint(y): return s.wrap(mulc(x, y), w)
            return s.wrap(toz(x) * toz(y), w)
        if isint(x) and isint(y):
            ux, uy = x & ((1 << w) - 1), y & ((1 << w) - 1)
            if o == 'and': return s.wrap(ux & uy, w)
            if o == 'or': return s.wrap(ux | uy, w)
            if o == 'xor': return s.wrap(ux ^ uy, w)
            if o == 'shl': return s.wrap(ux << uy, w)
            if o == 'lshr': return s.wrap(ux >> uy, w)
            if o == 'ashr': return x >> uy
            if uy == 0: s.prove('no division by zero', False); raise PathEnd()
            if o == 'udiv': return s.wrap(ux // uy, w)
            if o == 'urem': return s.wrap(ux % uy, w)
            q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
            if o == 'sdiv': return s.wrap(q, w)
            if o == 'srem': return x - q * y
        if o in ('sdiv', 'udiv', 'srem', 'urem'):
            if isint(y) and y > 0:
                if o in ('sdiv', 'udiv'):
                    d = divexact(x, y)
                    if d is not None and d[1] == 0: return d[0]
                if s.sure(toz(x) >= 0): return x / y if o in ('sdiv', 'udiv') else x % y
                if o in ('udiv', 'urem'):
                    x = s.uns(x, w); return x / y if o == 'udiv' else x % y
                q = z3.If(x >= 0, x / y, -((-x) / y))
                return q if o == 'sdiv' else x - q * y
            raise Unsupported('division by non-constant')
        if o == 'shl' and isint(y): return s.wrap(mulc(x, 1 << y), w)
        if o in ('lshr', 'ashr') and isint(y):
            d = divexact(x, 1 << y)
            if d is not None and s.sure(toz(x) >= 0): return d[0]
            if s.sure(toz(x) >= 0) or o == 'ashr': return x / (1 << y)
            return s.uns(x, w) / (1 << y)
        if o == 'and':
            if isint(x): x, y = y, x
            if isint(y) and y >= 0 and (y & (y + 1)) == 0: return toz(x) % (y + 1)
            if isint(y) and y == -2:      # clear bit 0
                return x - (x % 2)
            if isint(y) and y > 0 and (y & (y - 1)) == 0: return z3.If((x / y) % 2 == 1, z3.IntVal(y), z3.IntVal(0))
        if o == 'xor' and isint(y) and y == -1: return sub(-1, x)
        if o == 'xor' and isint(y) and y == 1 and s.sure(z3.Or(x == 0, x == 1)): return 1 - x
        if o == 'or' and isint(y) and y == 0: return x
        if w <= 8 and o in ('and', 'or') :
            if s.sure(z3.And(z3.Or(toz(x) == 0, toz(x) == 1), z3.Or(toz(y) == 0, toz(y) == 1))):
                bx, by = toz(x) == 1, toz(y) == 1
                return z3.If(z3.And(bx, by) if o == 'and' else z3.Or(bx, by), z3.IntVal(1), z3.IntVal(0))
        # bit operations through bit-vectors
        bx = z3.Int2BV(toz(x), w); by = z3.Int2BV(toz(y), w)
        r = {'and': lambda: bx & by, 'or': lambda: bx | by, 'xor': lambda: bx ^ by, 'shl': lambda: bx << by, 'lshr': lambda: z3.LShR(bx, by), 'ashr': lambda: bx >> by}
        if o in r: return z3.BV2Int(r[o](), True)
        raise Unsupported('binary ' + o)
    def cast(s, st, o, ft, tt, x):
        if o == 'ptrtoint': return s.p2i(x)
        if o == 'inttoptr': return s.i2p(x)
        if x is UNDEF: return UNDEF
        if o == 'bitcast': 
            if isz(x) and z3.is_fp(x) and tt[0] == 'int': raise Unsupported('bitcast fp')
            return x
        if o == 'zext':
            if ft[1] == 1: return s.conv(st, x, tt)
            if isinstance(x, PI): return x
            return s.uns(x, ft[1])
        if o == 'sext':
            if ft[1] == 1:
                v = s.conv(st, x, tt); return -v if not isz(v) else z3.If(x, z3.IntVal(-1), z3.IntVal(0))
            return x
        if o == 'trunc':
            if isinstance(x, PI): raise Unsupported('trunc of pointer')
            if tt[1] == 1: return s.tobool(x)
            return s.wrap(x, tt[1])
        so = {'double': z3.Float64(), 'float': z3.Float32()}
        if o == 'fpext': return z3.fpFPToFP(z3.RNE(), x, so[tt[0]])
        if o == 'fptrunc': return z3.fpFPToFP(z3.RNE(), x, so[tt[0]])
        if o == 'sitofp':
            if isint(x): return z3.FPVal(x, so[tt[0]])
            return z3.fpSignedToFP(z3.RNE(), z3.Int2BV(toz(x), ft[1]), so[tt[0]])
        raise Unsupported('cast ' + o)
    # ---------- calls
    def find_contract(s, name):
        if name in s.contract_cache: return s.contract_cache[name]
        d = s.dem.get(name, name); r = None
        for c in s.contracts:
            if c.match(name, d): r = c; break
        s.contract_cache[name] = r
        return r
    def call(s, st, f, inst):
        a = inst.a
        cal = a['callee']
        if cal[0] == 'asm': 
            s.set_(st, inst, s.fresh(inst.ty) if inst.ty != ir.VOID else None); return s.after(st, f, inst)
        if cal[0] == 'global' and cal[1].startswith('llvm.'):
            return s.intrinsic(st, f, inst, cal[1])
        cv = s.val(st, ir.PTR, cal)
        args = [s.val(st, t, v) for t, v, _ in a['args']]
        for i, (t, v, at) in enumerate(a['args']):
            if 'byval' in at:
                p = ir.P(list(at['byval'])); bt = p.type()
                r = Reg('byval', 'obj', s.m.size(bt)); s.memcpy(st, Ptr(r, 0), args[i], s.m.size(bt)); args[i] = Ptr(r, 0)
        if isinstance(cv, FnSlot):
            cls = st.vclass.get(cv.vexpr.get_id() if isz(cv.vexpr) else cv.vexpr)
            m = s.vslots.get((cls, cv.slot))
            if m is None: raise Unsupported('virtual call %s slot %s' % (cls, cv.slot))
            h = None
            for c in s.contracts:
                if c.vmatch(cls, m): h = c; break
            if h is None: raise Unsupported('virtual call without contract: %s' % m)
            s.used.add('virtual ' + m)
            return s.apply(st, f, inst, h, m, args)
        if isinstance(cv, Ptr) and cv.base is not None and cv.base.kind == 'fn':
            return s.callfn(st, f, inst, cv.base.name, args)
        if isinstance(cv, Ptr) and cv.base is None:
            for c in s.contracts:
                if c.pmatch(s, st, cv): 
                    st.ghost['_callee'] = cv
                    return s.apply(st, f, inst, c, 'function pointer', args)
        raise Unsupported('indirect call in %s' % s.dem.get(f.fn.name, f.fn.name)[:100])
    def callfn(s, st, f, inst, name, args):
        h = s.find_contract(name)
        if h is not None:
            s.used.add(s.dem.get(name, name))
            return s.apply(st, f, inst, h, name, args)
        fn = s.m.func(name)
        if fn is None:
            raise Unsupported('external function without contract: %s' % s.dem.get(name, name)[:200])
        if len(st.frames) > 120: raise Unsupported('call depth')
        s.inlined.add(name)
        if len(args) < len(fn.params): args = args + [s.fresh(t, 'garbage') for t, nm, _ in fn.params[len(args):]]   # a call through a cast pointer
        nf = Frame(fn); f.inst = inst
        for (t, nm, _), v in zip(fn.params, args): nf.loc[nm] = v
        st.frames.append(nf)
    def apply(s, st, f, inst, h, name, args):
        r = h.apply(s, st, name, args, inst)
        if isinstance(r, Alts):
            f.inst = inst
            alts = []
            for al in r:
                def go(s2, al=al):
                    if al.eff:
                        al.eff(s2)
                    if al.end: raise PathEnd()
                    f2 = s2.frames[-1]
                    if al.throw is not None: s.unwind(s2, al.throw() if callable(al.throw) else al.throw, False)
                    else:
                        v = al.ret(s2) if callable(al.ret) else al.ret
                        s.set_(s2, inst, v); s.after(s2, f2, inst)
                alts.append((al.facts, go))
            return s.fork(st, alts)
        if isinstance(r, Walk): return s.callfn(st, f, inst, r.name, r.args)
        if isinstance(r, InlineInstead):
            fn = s.m.func(name)
            if fn is None: raise Unsupported('external ' + name)
            nf = Frame(fn); f.inst = inst
            for (t, nm, _), v in zip(fn.params, args): nf.loc[nm] = v
            st.frames.append(nf); return
        s.set_(st, inst, r)
        s.after(st, f, inst)
    def after(s, st, f, inst):
        if inst.op == 'invoke': s.goto(st, f, inst.a['normal'])
    def leave(s, st, fr):
        """the variables of a function end with it"""
        for r in fr.allocas: st.mem[r] = None
    def ret(s, st, v):
        fr = st.frames.pop()
        if s.program: s.leave(st, fr)
        for l in reversed(fr.loops):
            if l.on_exit: l.on_exit(st)
        if not st.frames:
            s.paths += 0 if s.mute else 1
            s.on_end(st, ('ret', v)); raise PathEnd()
        f = st.frames[-1]; inst = f.inst
        if isinstance(inst, Cont):
            return inst.fn(st, v)
        s.set_(st, inst, v); s.after(st, f, inst)
    def callback(s, st, name, args, k, onexc=None):
        """run a defined function in place, then continue with k(state, value)"""
        fn = s.m.func(name)
        if fn is None: raise Unsupported('callback ' + name)
        f = st.frames[-1]; f.inst = Cont(k, onexc)
        nf = Frame(fn)
        for (t, nm, _), v in zip(fn.params, args): nf.loc[nm] = v
        st.frames.append(nf)
    def unwind(s, st, exc, popself):
        """raise exc out of the current instruction of the top frame"""
        if not popself: st.ghost['_inflight'] = st.ghost.get('_inflight', 0) + 1
        if popself:
            fr = st.frames.pop()
            if s.program: s.leave(st, fr)
            for l in reversed(fr.loops):
                if l.on_exit: l.on_exit(st)
        while st.frames:
            f = st.frames[-1]; inst = f.inst
            if isinstance(inst, Cont): raise Unsupported('exception through callback')
            if inst is not None and inst.op == 'invoke':
                f.exc = exc
                s.goto(st, f, inst.a['unwind']); return
            fr = st.frames.pop()
            if s.program: s.leave(st, fr)
            for l in reversed(fr.loops):
                if l.on_exit: l.on_exit(st)
        s.paths += 0 if s.mute else 1
        s.on_end(st, ('throw', exc)); raise PathEnd()
    def typeid(s, ti):
        if ti not in s.strids: s.strids[ti] = len(s.strids) + 1
        return s.strids[ti]
    def isa(s, ti, base):
        """does typeinfo ti derive from base: True/False"""
        if ti == base: return True
        g = s.m.glob(ti)
        if g is None or g[1] is None: 
            # classes of the standard library
            d = STDEXC.get(ti)
            while d:
                if d == base: return True
                d = STDEXC.get(d)
            return False
        def refs(v):
            if v[0] == 'global': yield v[1]
            elif v[0] == 'agg':
                for _, x in v[1]: yield from refs(x)
            elif v[0] == 'gep': yield from refs(v[2])
        for r in refs(g[1]):
            if r.startswith('_ZTI') and r != ti and s.isa(r, base): return True
        return False
    def landing(s, st, f, inst):
        exc = f.exc; alts = []; neg = []
        ptr = exc.ptr
        def sel(n):
            def g(s2): s2.frames[-1].loc[inst.res] = Agg([ptr, n])
            return g
        for kind, cv in inst.a['clauses']:
            if kind == 'filter': continue
            if cv[0] == 'null':
                alts.append((list(neg), sel(s.typeid('null')))); break
            ti = cv[1]
            if exc.ti is not None:
                if s.isa(exc.ti, ti):
                    alts.append((list(neg), sel(s.typeid(ti)))); break
            else:
                b = s.excisa(exc, ti)
                alts.append((neg + [b], sel(s.typeid(ti)))); neg.append(z3.Not(b))
        else:
            if inst.a['cleanup']: alts.append((list(neg), sel(0)))
            else: alts.append((list(neg), lambda s2: s.unwind(s2, exc, True)))
        s.fork(st, alts)
    def excisa(s, exc, ti):
        F = z3.Function('exc_isa', z3.IntSort(), z3.IntSort(), z3.BoolSort())
        return F(toz(exc.uid), z3.IntVal(s.typeid(ti)))
    def intrinsic(s, st, f, inst, name):
        a = inst.a
        if name.startswith(('llvm.public.type.test', 'llvm.type.test')):
            v = s.val(st, ir.PTR, a['args'][0][1])
            cls = a['args'][1][1][1]
            if isinstance(v, Ptr) and v.base is None and isz(v.off): st.vclass[v.off.get_id()] = cls; v.tag = v.tag or None
            if isinstance(v, Ptr) and v.tag and isz(v.tag[2]): st.vclass[v.tag[2].get_id()] = cls
            s.set_(st, inst, True)
        elif name.startswith(('llvm.assume', 'llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.stackrestore', 'llvm.invariant')): pass
        elif name.startswith('llvm.stacksave'): s.set_(st, inst, NULL)
        elif name.startswith(('llvm.memcpy', 'llvm.memmove')):
            v = [s.val(st, t, x) for t, x, _ in a['args']]
            s.memcpy(st, v[0], v[1], v[2])
        elif name.startswith('llvm.memset'):
            v = [s.val(st, t, x) for t, x, _ in a['args']]
            s.memset(st, v[0], v[1], v[2])
        elif name.startswith('llvm.eh.typeid.for'):
            g = a['args'][0][1]; s.set_(st, inst, s.typeid(g[1] if g[0] == 'global' else 'null'))
        elif name.startswith(('llvm.umax', 'llvm.smax', 'llvm.umin', 'llvm.smin')):
            v = [s.val(st, t, x) for t, x, _ in a['args']]
            x, y = toz(v[0]), toz(v[1])
            s.set_(st, inst, simp(z3.If(x > y, x, y) if 'max' in name else z3.If(x < y, x, y)))
        elif name.startswith('llvm.fabs'):
            s.set_(st, inst, z3.fpAbs(s.val(st, a['args'][0][0], a['args'][0][1])))
        elif name.startswith('llvm.abs.'):
            x = toz(s.val(st, a['args'][0][0], a['args'][0][1])); w = a['args'][0][0][1]; s.set_(st, inst, s.wrap(simp(z3.If(x < 0, -x, x)), w))
        elif name.startswith('llvm.expect'): s.set_(st, inst, s.val(st, a['args'][0][0], a['args'][0][1]))
        elif name.startswith('llvm.trap'): raise PathEnd()
        elif '.with.overflow.' in name:
            v = [s.val(st, t, x) for t, x, _ in a['args']]; w = a['args'][0][0][1]
            o = name.split('.')[1]
            if name.split('.')[1] in ('umul', 'uadd', 'usub'):
                x, y = s.uns(v[0], w), s.uns(v[1], w)
                r = {'umul': lambda: mulc(x, y) if isint(y) else toz(x)*toz(y), 'uadd': lambda: add(x, y), 'usub': lambda: sub(x, y)}[o]()
                ov = simp(z3.Or(toz(r) < 0, toz(r) >= (1 << w)))
                s.set_(st, inst, Agg([s.wrap(r, w), ov]))
            else: raise Unsupported(name)
        else: raise Unsupported('intrinsic ' + name)
        s.after(st, f, inst)
    # ---------- running a pure function inside a specification
    def value(s, st, rx, args, default=None):
        """value that the (loop-free, single path) function with this demangled name returns in st"""
        ns = [n for n, d in s.dem.items() if d == rx and n in s.m.funcs]
        if not ns: raise Unsupported('function not found: ' + rx)
        res = []; s2 = st.copy(); s2.frames = []; old = s.on_end; s.mute += 1; s.push()
        def end(s3, out):
            if out[0] != 'ret': raise Unsupported('%s throws' % rx)
            res.append(out[1])
        try: s.verify(ns[0], s2, args, end)
        finally: s.pop(); s.mute -= 1; s.on_end = old
        if len(res) != 1: raise Unsupported('%s has %d paths' % (rx, len(res)))
        return res[0]
    # ---------- entry
    def verify(s, fname, st, args, on_end):
        fn = s.m.func(fname)
        if fn is None: raise Unsupported('function not found: ' + fname)
        fr = Frame(fn)
        if len(fn.params) != len(args): raise Unsupported('parameter count of %s' % s.dem.get(fname, fname))
        for (t, nm, _), v in zip(fn.params, args): fr.loc[nm] = v
        st.frames = [fr]; s.on_end = on_end
        try: s.run(st)
        except PathEnd: pass

class Cont:
    op = 'cont'
    def __init__(s, fn, onexc=None): s.fn = fn; s.onexc = onexc
class InlineInstead: pass
class PeekFail(Exception): pass
class NeedSplit(Exception):
    def __init__(s, off, size, z): s.off = off; s.size = size; s.z = z

STDEXC = {'_ZTISt9exception': None, '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
  '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt8bad_cast': '_ZTISt9exception',
  '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt17bad_function_call': '_ZTISt9exception'}

_qcache = {}
def hasq(e):
    if not isz(e): return False
    k = e.get_id()
    h = _qcache.get(k)
    if h is not None and h[0].eq(e): return h[1]
    seen = set(); w = [e]; r = False
    while w:
        x = w.pop()
        if z3.is_quantifier(x): r = True; break
        i = x.get_id()
        if i in seen: continue
        seen.add(i); w.extend(x.children())
    _qcache[k] = (e, r)
    return r

def cbytes(t):
    out = []; i = 0
    while i < len(t):
        if t[i] == '\\': out.append(int(t[i+1:i+3], 16)); i += 3
        else: out.append(ord(t[i])); i += 1
    return out

def model_text(m, limit=60):
    out = []
    for d in m.decls()[:limit]:
        try: out.append('%s = %s' % (d.name(), str(m[d])[:200]))
        except Exception: pass
    return '; '.join(out)
