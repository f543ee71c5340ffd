"""Cutting loops with inductive invariants.

cut() is called with the state at a loop head.  It finds the locations the
body modifies, guesses strides, filters candidate invariants (Houdini) and
then walks the body and everything after the loop once from an arbitrary
iteration k that satisfies the surviving invariants.
"""
import z3
from engine import *
import engine, ir

def boolish(v):
    if isinstance(v, bool) or (isint(v) and v in (0, 1)): return True
    if isz(v):
        if z3.is_bool(v): return True
        if z3.is_int(v) and v.decl().kind() == z3.Z3_OP_ITE:
            a, b = v.arg(1), v.arg(2)
            return z3.is_int_value(a) and z3.is_int_value(b) and {a.as_long(), b.as_long()} <= {0, 1}
    return False

def getkey(E, st, key):
    k = key[0]
    if k == 'c':
        c = st.mem.get(key[1], {}).get(key[2]); return None if c is None else c[2]
    if k == 'h': return st.heap.get(key[1]) if key[1] in st.heap else z3.Array('H_%s!0' % '_'.join(map(str, key[1])), z3.IntSort(), z3.IntSort())
    if k == 'g': return st.ghost.get(key[1])
    if k == 'p': return st.frames[-1].loc.get(key[1])

def phi_values(E, st):
    f = st.frames[-1]; out = []
    for i in f.fn.blocks[f.blk]:
        if i.op != 'phi': break
        for v, l in i.a['inc']:
            if l == f.prev: out.append((i.res, E.val(st, i.ty, v), i.ty)); break
    return out

def header(E, st0, mod, strides, k):
    """the state at the head in iteration k"""
    st = st0.copy(); f = st.frames[-1]
    ph = phi_values(E, st0)
    n = 0
    for r, v, t in ph:
        key = ('p', r); n += 1
        f.loc[r] = havoc(E, v, mod.get(key, []), t, strides.get(key), k, r) if key in mod else v
    f.ip = n
    for key, samples in mod.items():
        v0 = getkey(E, st0, key)
        if key[0] == 'c':
            d = st.mem.get(key[1], {}); c = d.get(key[2])
            ty = c[1] if c else samples[-1][1]; z = c[0] if c else samples[-1][2]
            v = havoc(E, v0, [x[0] for x in samples], ty, strides.get(key), k, Reg.table[key[1]].name)
            d = dict(d); d[key[2]] = (z, ty, v); st.mem[key[1]] = d
        elif key[0] == 'h':
            st.heap[key[1]] = z3.Array('H!%d' % fresh_id(), z3.IntSort(), z3.IntSort())
        elif key[0] == 'g':
            st.ghost[key[1]] = havoc(E, v0, [x[0] for x in samples], None, strides.get(key), k, key[1])
    return st

def havoc(E, v0, samples, ty, stride, k, name):
    if stride is not None:
        c = stride
        if isinstance(v0, Ptr): return Ptr(v0.base, add(v0.off, mulc(k, c)), v0.key)
        return add(v0, mulc(k, c))
    allv = [v0] + list(samples)
    some = next((v for v in allv if v is not None and v is not UNDEF), None)
    if isinstance(some, Vec):
        vs = [v for v in allv if isinstance(v, Vec)]
        if all(v.ver == v0.ver for v in vs):
            same = {c for c in v0.comps if all(eqv(v.comps[c], v0.comps[c]) for v in vs)}
            return Vec(v0.n, {c: (a if c in same else E.arr(name)) for c, a in v0.comps.items()}, v0.esize, v0.ver)
        n = E.int(name + '.n', lo=0, hi=1 << 30)
        return Vec(n, {c: E.arr(name) for c in some.comps}, some.esize)
    if isinstance(some, SetV):
        return SetV(z3.Array('set!%d' % fresh_id(), z3.IntSort(), z3.BoolSort()), some.cmp)
    if isinstance(some, Str): return Str(E.int('str') if not z3.is_string(some.v) else z3.String('str!%d' % fresh_id()))
    if isinstance(some, (Ptr, PI, FnSlot)):
        ps = [v for v in allv if isinstance(v, Ptr)]
        if len(ps) == len(allv) and ps[0].base is not None and all(p.base is ps[0].base for p in ps):
            b = ps[0].base; es = 1
            if b.kind == 'enum': es = 8
            elif b.kind == 'buf': es = E.bufes.get(b.id, 8)
            return Ptr(b, mulc(E.int(name + '.idx'), es), ps[0].key)
        if len({id(p.base) for p in ps if p.base is not None}) > 0:
            if v0 is None or v0 is UNDEF:
                return UNDEF      # written before it is read, or the path is given up
            # buffers of one vector in different versions
            b = [p.base for p in ps if p.base is not None]
            raise Unsupported('pointer variable %s ranges over several objects' % name)
        return E.fresh(ir.PTR, name)
    if isz(some) and z3.is_fp(some): return z3.FP('%s!%d' % (name, fresh_id()), some.sort())
    if isz(some) and z3.is_array(some): return z3.Const('%s!%d' % (name, fresh_id()), some.sort())
    if all(boolish(v) for v in allv if v is not None and v is not UNDEF):
        b = E.bool(name)
        if ty is not None and ty[0] == 'int' and ty[1] == 1: return b
        if ty is None and isz(some) and z3.is_bool(some): return b
        if any(v is not None and (isinstance(v, bool) or isz(v)) for v in allv) or ty is None or ty[1] == 8:
            if ty is None or ty[1] <= 8: return z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if ty is not None and ty[0] == 'int': return E.int(name, ty[1])
    if ty is not None and ty[0] == 'ptr': return E.fresh(ty, name)
    if isz(some) or isint(some): return E.int(name)
    if isinstance(some, (tuple, list, str)): return ('lost', fresh_id())
    raise Unsupported('havoc of %r' % (some,))

def diff(E, st0, hs, end, maxid, mat=None):
    """keys whose value at the end of an iteration differs from the head"""
    out = {}
    for rid, cells in end.mem.items():
        if rid > maxid or (Reg.table[rid].kind == 'glob' and not Reg.table[rid].sym): continue
        h = hs.mem.get(rid, {})
        if h is cells: continue
        for o, (z, ty, v) in cells.items():
            hc = h.get(o)
            if hc is not None and eqv(hc[2], v): continue
            if hc is None and mat is not None and eqv(E.lazy.get((rid, o)), v):
                mat[(rid, o)] = (z, ty, v); continue
            out[('c', rid, o)] = (v, ty, z)
        for o, (z, ty, v) in h.items():
            if o not in cells: raise Unsupported('cell disappears in loop')
    for key, v in end.heap.items():
        hv = getkey(E, hs, ('h', key))
        if not eqv(hv, v): out[('h', key)] = (v, None, None)
    for key, v in end.ghost.items():
        if key.startswith('_'): continue
        if not eqv(hs.ghost.get(key), v): out[('g', key)] = (v, None, None)
    for r, v, t in phi_values(E, end):
        if not eqv(hs.frames[-1].loc.get(r), v): out[('p', r)] = (v, t, None)
    return out

def body(E, st, L, on_back):
    f = st.frames[-1]
    l = Loop(L.head, L.body, 'inv'); l.on_back = on_back
    def leave(_): raise PathEnd()
    l.on_exit = leave
    f.loops[-1] = l
    E.mute += 1; E.push()
    try: E.run(st)
    except PathEnd: pass
    finally: E.pop(); E.mute -= 1

def samekey_delta(v, h):
    if isinstance(v, Ptr) and isinstance(h, Ptr):
        if v.base is not h.base: return None
        v, h = v.off, h.off
    if (isint(v) or (isz(v) and z3.is_int(v))) and (isint(h) or (isz(h) and z3.is_int(h))):
        c, t = lin(toz(v) - toz(h))
        return c if not t else None
    return None

def cut(E, st0, depth):
    f0 = st0.frames[-1]; L = f0.loops[-1]
    st0.frames[-1].loops[-1] = Loop(L.head, L.body, 'unroll')
    maxid = fresh_id()
    lvl = len(st0.frames)
    # 1. what the body modifies
    mod = {}
    for rnd in range(12):
        E.push()
        try:
            k = E.int('k', lo=0); hs = header(E, st0, mod, {}, k)
            found = {}
            mat = {}
            E.optimistic += 1
            def back(st):
                for key, s in diff(E, st0, hs, st, maxid, mat).items(): found.setdefault(key, []).append(s)
            try: body(E, hs.copy(), L, back)
            finally: E.optimistic -= 1
        finally: E.pop()
        new = False
        for (rid, o), (z, ty, v) in mat.items():
            # a field first read in the loop: it was there before the loop
            if o in st0.mem.get(rid, {}) or ('c', rid, o) in found: continue
            st0.setcell(Reg.table[rid], o, z, ty, v); new = True
            typefacts(E, ty, v)
        for key, ss in found.items():
            if key not in mod: mod[key] = list(ss); new = True
            else:
                # keep one sample per new base so that havoc stays general enough
                for s in ss:
                    if not any(type(s[0]) == type(o[0]) and (not isinstance(s[0], Ptr) or s[0].base is o[0].base) and (not isinstance(s[0], Vec) or s[0].ver == o[0].ver) for o in mod[key]):
                        if isinstance(s[0], Vec) and len({o[0].ver for o in mod[key]}) > 1: continue
                        if isinstance(s[0], Ptr) and s[0].base is not None and s[0].base.kind == 'buf' and len({o[0].base for o in mod[key] if isinstance(o[0], Ptr) and o[0].base is not None and o[0].base.kind == 'buf'}) > 1: continue
                        mod[key].append(s); new = True
                    if not boolish(s[0]) and all(boolish(o[0]) for o in mod[key]): mod[key].append(s); new = True
        if E.opts.get("trace"): import sys; sys.stderr.write("round %d: %s\n" % (rnd, [key_name(x) for x in found]))
        if not new: break
    else: raise Unsupported('modified set of loop does not stabilise')
    # cells created in the loop that hold lazily read fields need no entry
    # 2. strides
    E.push(); E.optimistic += 1
    try:
        k = E.int('k', lo=0); hs = header(E, st0, mod, {}, k); deltas = {}
        def back(st):
            for key in mod:
                h = getkey(E, hs, key)
                v = getkey(E, st, key) if key[0] != 'p' else dict((('p', r), v) for r, v, t in phi_values(E, st)).get(key)
                deltas.setdefault(key, []).append(samekey_delta(v, h))
        body(E, hs.copy(), L, back)
    finally: E.optimistic -= 1; E.pop()
    strides = {}
    for key, ds in deltas.items():
        if key[0] not in ('c', 'p'): continue
        v0 = getkey(E, st0, key) if key[0] == 'c' else dict((('p', r), v) for r, v, t in phi_values(E, st0)).get(key)
        if v0 is None or v0 is UNDEF or (isinstance(v0, Ptr) and v0.base is None and isint(v0.off)): continue
        if ds and all(d is not None and d == ds[0] for d in ds) and ds[0] != 0: strides[key] = ds[0]
    # 3. candidates, Houdini
    while True:
        ok = attempt(E, st0, L, mod, strides, maxid)
        if ok: return

def typefacts(E, ty, v):
    if isinstance(v, Vec) and isz(v.n): E.fact(z3.And(v.n >= 0, v.n <= 1 << 30))
    elif isinstance(v, Ptr) and v.base is None and isz(v.off): E.fact(z3.And(v.off >= 0, v.off < BASE0))
    elif ty[0] == 'int' and isz(v) and z3.is_int(v): E.fact(z3.And(v >= -(1 << (ty[1]-1)), v < (1 << (ty[1]-1))))


def candidates(E, st0, mod, strides):
    C = []
    def getv(key):
        def g(st):
            if key[0] == 'p': return st.frames[-1].loc.get(key[1])
            return getkey(E, st, key)
        return g
    hints = E.hints(E, st0) if E.hints else {}
    vecs = []
    for rid, cells in st0.mem.items():
        for o, (z, ty, v) in cells.items():
            if isinstance(v, Vec) and not (isint(v.n)): vecs.append(('c', rid, o))
    for key in mod:
        if key[0] in ('h',): continue
        g = getv(key); v0 = getkey(E, st0, key)
        if key[0] == 'p': v0 = dict((('p', r), v) for r, v, t in phi_values(E, st0)).get(key)
        nm = key_name(key)
        samples = [s[0] for s in mod[key]]
        if isinstance(v0, Ptr) and v0.base is not None and v0.base.kind in ('buf', 'enum'):
            def inb(st, k, g=g, b=v0.base):
                p = g(st)
                if not isinstance(p, Ptr) or p.base is not b: return z3.BoolVal(False)
                if b.kind == 'enum': n = b.info[0]; es = 8
                else:
                    own, off, ver = b.info; vv = st.cells(own).get(off)
                    if vv is None or not isinstance(vv[2], Vec): return z3.BoolVal(False)
                    n = vv[2].n; es = vv[2].esize
                return z3.And(toz(p.off) >= 0, toz(p.off) <= mulc(toz(n), es))
            C.append(('%s within its vector' % nm, inb))
        elif isinstance(v0, (Vec, SetV, Str)) or isinstance(v0, Ptr): pass
        elif isint(v0) or (isz(v0) and z3.is_int(v0)) or v0 is UNDEF or v0 is None:
            if all(boolish(x) for x in [v0] + samples if x is not None and x is not UNDEF):
                for bn, bf in hints.get('bools', []):
                    def bc(st, k, g=g, bf=bf):
                        v = g(st)
                        if v is UNDEF or v is None: return z3.BoolVal(False)
                        return E.tobool(v) == b2z(bf(st, k)) if not (isinstance(v, bool) or z3.is_bool(v)) else b2z(v) == b2z(bf(st, k))
                    C.append(('%s is %s' % (nm, bn), bc))
            if key in strides or not all(boolish(x) for x in [v0] + samples if x is not None and x is not UNDEF):
                def nn(st, k, g=g):
                    v = g(st); return toz(v) >= 0 if isint(v) or (isz(v) and z3.is_int(v)) else z3.BoolVal(False)
                C.append(('%s >= 0' % nm, nn))
                w = None
                for s in mod[key]:
                    if s[1] and s[1][0] == 'int': w = s[1][1]
                if w and w >= 32:
                    def rg(st, k, g=g, w=w):
                        v = g(st)
                        if not (isint(v) or (isz(v) and z3.is_int(v))): return z3.BoolVal(False)
                        v = toz(v); return z3.And(v >= -(1 << (w-1)), v <= (1 << (w-1)) - 1)
                    C.append(('%s in range' % nm, rg))
                for vk in vecs:
                    def le(st, k, g=g, vk=vk):
                        v = g(st); vv = getkey(E, st, vk)
                        if not isinstance(vv, Vec) or not (isint(v) or (isz(v) and z3.is_int(v))): return z3.BoolVal(False)
                        return toz(v) <= toz(vv.n)
                    C.append(('%s <= size of %s' % (nm, key_name(vk)), le))
                for fn_, ff in hints.get('ints', []):
                    def ic(st, k, g=g, ff=ff):
                        v = g(st)
                        if not (isint(v) or (isz(v) and z3.is_int(v))): return z3.BoolVal(False)
                        return toz(v) == toz(ff(st, k))
                    C.append(('%s is %s' % (nm, fn_), ic))
    for nm, fn_ in hints.get('invs', []): C.append((nm, fn_))
    return C, hints.get('facts', [])

def key_name(key):
    if key[0] == 'c': return '%s+%d' % (Reg.table[key[1]].name, key[2])
    return str(key[1])

def safe(fn, st, k):
    try:
        r = fn(st, k)
        return b2z(r)
    except Unsupported: return z3.BoolVal(False)

def attempt(E, st0, L, mod, strides, maxid):
    C, facts = candidates(E, st0, mod, strides)
    # initiation
    E.push()
    try:
        hs0 = header(E, st0, {}, {}, z3.IntVal(0))
        for ff in facts:
            for x in ff(hs0, z3.IntVal(0)): E.fact(x)
        C = [c for c in C if E.entails(safe(c[1], hs0, z3.IntVal(0)))]
    finally: E.pop()
    # preservation
    while True:
        bad = set(); badstride = set()
        E.push()
        try:
            k = E.int('k', lo=0); hs = header(E, st0, mod, strides, k)
            for n, c in C: E.fact(safe(c, hs, k))
            for ff in facts:
                for x in ff(hs, k): E.fact(x)
            def back(st):
                ph = phi_values(E, st)
                for r, v, t in ph: st.frames[-1].loc[r] = v
                for key, c in strides.items():
                    v0 = getkey(E, st0, key) if key[0] == 'c' else dict((('p', r), v) for r, v, t in phi_values(E, st0)).get(key)
                    v = getkey(E, st, key) if key[0] == 'c' else st.frames[-1].loc[key[1]]
                    want = havoc(E, v0, [], None, c, k + 1, '')
                    if not same(E, v, want): badstride.add(key)
                for ff in facts:
                    for x in ff(st, k + 1): E.fact(x)
                for i, (n, c) in enumerate(C):
                    if i in bad: continue
                    if not E.entails(safe(c, st, k + 1)): bad.add(i)
            body(E, hs.copy(), L, back)
        finally: E.pop()
        if badstride:
            for key in badstride: del strides[key]
            return False
        if not bad: break
        C = [c for i, c in enumerate(C) if i not in bad]
    if E.opts.get('trace'):
        import sys
        sys.stderr.write('loop %s in %s: mod=%s strides=%s inv=%s\n' % (L.head, E.dem.get(st0.frames[-1].fn.name, '?')[:80], [key_name(x) for x in mod], {key_name(x): c for x, c in strides.items()}, [c[0] for c in C]))
    # main pass
    E.push()
    try:
        hs0 = header(E, st0, {}, {}, z3.IntVal(0))
        E.push()
        for ff in facts:
            for x in ff(hs0, z3.IntVal(0)): E.fact(x)
        for n, c in C: E.prove('loop invariant holds initially: ' + n, safe(c, hs0, z3.IntVal(0)), assume=False)
        E.pop()
        E.cutdepth += 1
        k = E.int('k', lo=0); hs = header(E, st0, mod, strides, k)
        for n, c in C: E.fact(safe(c, hs, k))
        for ff in facts:
            for x in ff(hs, k): E.fact(x)
        f = hs.frames[-1]
        l = Loop(L.head, L.body, 'inv')
        def back2(st):
            if E.mute: return
            for r, v, t in phi_values(E, st): st.frames[-1].loc[r] = v
            for ff in facts:
                for x in ff(st, k + 1): E.fact(x)
            for n, c in C: E.prove('loop invariant preserved: ' + n, safe(c, st, k + 1), assume=False)
        l.on_back = back2
        f.loops[-1] = l
        try: E.run(hs)
        except PathEnd: pass
        finally: E.cutdepth -= 1
    finally: E.pop()
    return True

def same(E, v, w):
    if isinstance(v, Ptr) and isinstance(w, Ptr):
        if v.base is not w.base: return False
        return E.entails(toz(v.off) == toz(w.off))
    if isinstance(v, Ptr) or isinstance(w, Ptr): return False
    if v is None or v is UNDEF: return False
    return E.entails(toz(v) == toz(w))
