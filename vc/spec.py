"""Specifications of functions and the loop that verifies them."""
import os, re, sys, time, traceback
import z3, ir
from engine import *
import engine, stdmodels, build
from stdmodels import Contract, VContract, PContract

class Spec:
    """one function under contract

    rx      pattern of the demangled name of the function (exactly one match)
    run     sets up the precondition, walks the function, states the postcondition
    summary how callers use the same contract (optional)
    """
    def __init__(s, id, rx, props, run, doc='', summary=None, hints=None, optional=False, timeout=120):
        s.id = id; s.rx = re.compile(rx); s.props = props; s.run = run; s.doc = doc; s.summary = summary; s.hints = hints; s.optional = optional; s.timeout = timeout

class Group:
    """without: models of the standard library that are not used (their code is walked instead);
    program: the walk starts with the program: globals have their initial values, the static initialisers are
    walked first, and loops are walked, not cut (every loop test is decided by the values)"""
    def __init__(s, name, harness, specs, contracts=(), without=(), program=False):
        s.name = name; s.harness = harness; s.specs = specs; s.contracts = list(contracts); s.without = without; s.program = program

class SpecContract(Contract):
    trusted = False
    def __init__(s, spec): s.spec = spec; s.rx = spec.rx
    def match(s, name, dem): return s.rx.search(dem) is not None and ("'lambda" not in dem or 'lambda' in s.rx.pattern)
    def apply(s, E, st, name, args, inst):
        E.used.add('contract ' + s.spec.id)
        return s.spec.summary(E, st, name, args, inst)

def off(E, name):
    g = E.m.glob('off_' + name)
    if g is None: raise Unsupported('offset ' + name)
    return g[1][1] if g[1][0] == 'int' else 0

def fieldoff(E, struct, idx): return E.m.layout(('struct', struct))[2][idx]

class Result:
    def __init__(s, spec): s.spec = spec; s.obl = []; s.status = None; s.why = ''; s.fn = None; s.secs = 0; s.paths = 0; s.inlined = 0; s.trusted = set(); s.used = set(); s.reach = None

def candidates(dem, rx): return [n for n, d in dem.items() if rx.search(d) and ("'lambda" not in d or 'lambda' in rx.pattern)]

def run_spec(mod, dem, vslots, group, spec, opts):
    r = Result(spec); t0 = time.time()
    names = [n for n in candidates(dem, spec.rx) if n in mod.funcs]
    if not names:
        r.status = 'missing'; r.why = 'no function matches ' + spec.rx.pattern; return r
    contracts = []
    for sp in group.specs:
        if sp.summary and sp is not spec: contracts.append(SpecContract(sp))
    contracts += group.contracts + [c for c in stdmodels.L if c.why not in group.without]
    r.fn = dem[names[0]]
    for n in names:
        engine.restart_ids()
        E = Engine(mod, dem, contracts, vslots, opts)
        E.fname = spec.id; E.deadline = t0 + spec.timeout
        E.hints = spec.hints; E.paths_only = E.program = group.program
        try:
            spec.run(E, n)
            if E.paths == 0: raise Unsupported('no path reaches the end of the function (vacuous)')
        except Refuted: r.status = 'refuted'
        except Unsupported as e:
            r.status = 'unsupported'; r.why = str(e)
            if opts.get('dump'): traceback.print_exc()
        except RecursionError as e:
            r.status = 'unsupported'; r.why = 'recursion'
        except (z3.Z3Exception, AttributeError, KeyError, TypeError, AssertionError, IndexError, ValueError) as e:
            r.status = 'unsupported'; r.why = '%s: %s' % (type(e).__name__, e)
            if opts.get('dump'): traceback.print_exc()
        r.obl += E.obl; r.paths += E.paths; r.inlined += len(E.inlined); r.trusted |= E.trusted; r.used |= E.used
        if r.status: break
    if r.status is None:
        if not r.obl: r.status = 'unsupported'; r.why = 'no obligations'
        elif any(o.status == 'refuted' for o in r.obl): r.status = 'refuted'
        elif any(o.status != 'proved' for o in r.obl): r.status = 'unknown'
        else: r.status = 'proved'
    elif any(o.status == 'refuted' for o in r.obl) and r.status == 'unsupported': pass
    r.secs = time.time() - t0
    return r

if __name__ == '__main__':
    import importlib, tempfile, argparse
    ap = argparse.ArgumentParser(); ap.add_argument('group'); ap.add_argument('specs', nargs='*'); ap.add_argument('-t', action='store_true'); ap.add_argument('-q', action='store_true')
    a = ap.parse_args()
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts'))
    import spec as _me
    g = importlib.import_module(a.group).GROUP
    with tempfile.TemporaryDirectory() as d:
        t = time.time()
        mod, dem, vs, cmd, out = build.load(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', g.harness), d)
        print('loaded %.1fs' % (time.time() - t))
        for sp in g.specs:
            if a.specs and sp.id not in a.specs: continue
            r = run_spec(mod, dem, vs, g, sp, {'dump': not a.q, 'trace': a.t, 'timeout': 10000})
            bad = [o for o in r.obl if o.status != 'proved']
            print('%-28s %-11s obl=%d bad=%d paths=%d inl=%d %.1fs %s' % (sp.id, r.status, len(r.obl), len(bad), r.paths, r.inlined, r.secs, r.why))
            if not a.q:
                for o in bad: print('    ', o.status, o.name, o.detail[:1500])
