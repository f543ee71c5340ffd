#!/usr/bin/env python3-vt
"""Decides one property: python3-vt check.py <id> [--replay VARIANT SCENARIO CASE | --theorem GROUP NAME VALUES]

1. compiles the harnesses of the property against /repo's headers and verifies
   every function under contract that the property depends on;
2. compiles the native driver of the property and searches for a failing case;
3. compiles the whole-program theorems as ordinary programs, runs them with drawn
   values, and replays the counterexamples of refuted ones.

exit 0: nothing is broken (evidence says what was proved and what was only
searched); exit 1: VIOLATION; any other exit: the check itself failed.
"""
import os, sys, json, time, re, shutil, subprocess, tempfile, threading, traceback, resource, signal
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, 'vc'), os.path.join(ROOT, 'contracts')]
REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = time.time()
GROUPS = [f[:-3] for f in sorted(os.listdir(os.path.join(ROOT, 'contracts'))) if f.endswith('.py') and not f.startswith('_')]
CXX = ['g++', '-O1', '-w', '-I%s/include' % REPO, '-I%s/config/standalone' % REPO, '-I%s/drivers' % ROOT]
JOBS = int(os.environ.get('VERIF_JOBS', '6'))

# ---------------------------------------------------------------- driver
class Driver:
    def __init__(s, prop, work):
        s.src = os.path.join(ROOT, 'drivers', prop.lower() + '.cpp'); s.work = work; s.bins = []; s.notes = []
        s.flags = [l[len('// flags:'):].split() for l in open(s.src) if l.startswith('// flags:')] or [[]]
    def build(s):
        ps = []
        for i, fl in enumerate(s.flags):
            out = os.path.join(s.work, 'driver%d' % i)
            std = [] if any(f.startswith('-std=') for f in fl) else ['-std=c++17']
            ps.append((fl, out, subprocess.Popen(CXX + std + fl + [s.src, '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for fl, out, p in ps:
            log = p.communicate(timeout=600)[0]
            if p.returncode: raise RuntimeError('driver %s %s does not compile:\n%s' % (s.src, ' '.join(fl), log[-3000:]))
            s.bins.append((fl, out))
    def cmd(s, out, fl, args):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=1', TSAN_OPTIONS='halt_on_error=1:report_thread_leaks=0')
        san = any('sanitize' in f for f in fl)
        def lim():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if not san: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        return subprocess.Popen([out] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, preexec_fn=lim, cwd=s.work)
    def search(s, seed, budget, procs):
        """returns (failures, stats)"""
        runs = []; n = max(1, procs // len(s.bins))
        for vi, (fl, out) in enumerate(s.bins):
            for i in range(n): runs.append((vi, fl, s.cmd(out, fl, ['--seed', str(seed * 1000003 + i), '--budget', str(budget)])))
        fails = []; st = dict(evaluations=0, distinct=0, samples=[], scenarios=0, exhausted=0); per = {}
        for vi, fl, p in runs:
            try: o, e = p.communicate(timeout=budget * 4 + 240)
            except subprocess.TimeoutExpired:
                p.kill(); o, e = p.communicate(); s.notes.append('a driver process was stopped after its time limit'); continue
            steps = []; f = None
            for l in o.split('\n'):
                if l.startswith('STEP '): steps.append(l[5:])
                elif l.startswith('FAIL '):
                    _, sc, case, msg = l.split(' ', 3); f = dict(variant=vi, flags=' '.join(fl), scenario=sc, case=case, msg=msg, steps=steps, stderr=e[-6000:]); fails.append(f)
                elif l.startswith('STATS '):
                    d = dict(x.split('=') for x in l.split()[1:]); st['evaluations'] += int(d['evaluations']); per.setdefault(vi, []).append(int(d['distinct'])); st['scenarios'] = int(d['scenarios']); st['exhausted'] = max(st['exhausted'], int(d['exhausted']))
                elif l.startswith('SAMPLE '): st['samples'].append(l[7:])
            if f is None and p.returncode != 0:
                if vi > 0 and ('FATAL' in e or 'Sanitizer' in e): s.notes.append('variant %s could not run here' % ' '.join(fl)); continue
                raise RuntimeError('driver ended with status %s: %s' % (p.returncode, (o + e)[-2000:]))
        st['distinct'] = sum(max(v) for v in per.values()); st['samples'] = sorted(set(st['samples']))[:4]
        return fails, st
    def confirm(s, f):
        fl, out = s.bins[f['variant']]
        p = s.cmd(out, fl, ['--scenario', f['scenario'], '--case', f['case']]); o, e = p.communicate(timeout=200)
        return p.returncode == 1, o + e

# ---------------------------------------------------------------- theorems as programs
class Theorems:
    """the whole-program theorems of one group, compiled and run"""
    def __init__(s, group, work): s.group = group; s.work = work; s.bins = {}; s.note = ''
    def build(s, kind='plain'):
        if kind in s.bins: return s.bins[kind]
        import proof
        src = os.path.join(s.work, 'theorems_%s.cpp' % s.group); out = os.path.join(s.work, 'theorems_%s_%s' % (s.group, kind))
        open(src, 'w').write(proof.native_source(s.group + '.cpp'))
        fl = ['-O1', '-ftrivial-auto-var-init=pattern'] if kind == 'plain' else ['-O1', '-g', '-DVERIF_SAN', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,null,alignment']
        r = subprocess.run(['g++', '-std=c++17', '-w', '-I%s/include' % REPO, '-I%s/config/standalone' % REPO, '-I%s/harness' % ROOT] + fl + [src, '-o', out], capture_output=True, text=True, timeout=400)
        if r.returncode: s.note = '%s: the theorems do not compile as a program: %s' % (s.group, r.stderr[-600:]); out = None
        s.bins[kind] = out; return out
    def run(s, out, args, limit):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:hard_rss_limit_mb=3000')
        try: r = subprocess.run([out] + args, capture_output=True, text=True, errors='replace', timeout=limit, env=env, cwd=s.work, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        except subprocess.TimeoutExpired: s.note = '%s: a run of the theorems was stopped after its time limit' % s.group; return None
        return r
    def search(s, prop, seed, secs, kind='plain'):
        """(failures, runs)"""
        out = s.build(kind)
        if not out: return [], 0
        r = s.run(out, [prop, str(seed), str(secs)], secs * 3 + 120); fails = []; runs = 0
        for l in (r.stdout if r else '').split('\n'):
            if l.startswith('FAIL '):
                _, name, values, what = (l + ' ').split(' ', 3); fails.append(dict(group=s.group, name=name, values=values, what=what.strip(), kind=kind, stderr=r.stderr[-4000:]))
            elif l.startswith('STATS '): runs = int(dict(x.split('=') for x in l.split()[1:])['runs'])
        return [f for f in fails if s.fails(f['name'], f['values'])], runs
    def fails(s, name, values, kinds=('plain', 'san')):
        """what happens when the program runs with these values"""
        for k in kinds:
            out = s.build(k)
            if not out: continue
            r = s.run(out, ['--run', name, values], 120)
            if r and r.returncode == 1 and 'FAIL ' in r.stdout: return r.stdout.strip() + ('\n' + r.stderr[-4000:] if r.stderr else '')
        return ''

# ---------------------------------------------------------------- proofs
def record(r):
    return dict(id=r.spec.id, fn=r.fn, status=r.status, why=r.why, secs=round(r.secs, 2), paths=r.paths, inlined=r.inlined, trusted=sorted(r.trusted), used=sorted(r.used), doc=r.spec.doc,
                obl=[dict(name=o.name, status=o.status, backend=o.backend, secs=round(o.secs, 3), detail=o.detail[:3000], cut=o.cut, cross=getattr(o, 'cross', ''), case=getattr(o, 'case', None)) for o in r.obl])

def run_group(gname, prop, tier, work, conn, sem):
    """child process: verifies the functions of one group; sends a list of records"""
    import importlib, multiprocessing as mp, build, spec as S
    try:
        g = importlib.import_module(gname).GROUP
        try: mod, dem, vs, cmd, ll = build.load(os.path.join(ROOT, 'harness', g.harness), work)
        except build.BuildError as e:
            conn.send(dict(group=gname, error='the harness does not compile: ' + str(e)[-1500:], cmd='', recs=[])); return
        opts = {'timeout': 15000 if tier == 'quick' else 40000, 'cvc5': shutil.which('cvc5'), 'cross': tier == 'thorough'}
        todo = [sp for sp in g.specs if prop in sp.props]; done = {}; recs = []
        live = []
        def child(sp, w):
            signal.alarm(int(sp.timeout * (1 if tier == 'quick' else 3)) + 200)
            r = S.run_spec(mod, dem, vs, g, sp, opts)
            rec = record(r)
            if r.status == 'refuted' and all(o.cut for o in r.obl if o.status == 'refuted'):
                # the counterexample starts in the middle of a loop: look for a whole execution
                b = S.run_spec(mod, dem, vs, g, sp, dict(opts, bmc=3, timeout=6000))
                bad = [o for o in b.obl if o.status == 'refuted']
                if bad: rec['bmc'] = [dict(name=o.name, detail=o.detail[:3000]) for o in bad[:3]]
                else: rec['status'] = 'unknown'; rec['why'] = 'refuted only from an arbitrary loop iteration; no whole execution with up to 3 iterations per loop fails'
            w.send(rec); w.close()
        def start(sp):
            a, b = mp.Pipe(False); p = mp.Process(target=child, args=(sp, b), daemon=False); p.start(); b.close(); live.append((sp, a, p))
        queue = list(todo); names = {sp.id for sp in todo}
        while queue or live:
            while queue and sem.acquire(block=not live): start(queue.pop(0))
            for x in list(live):
                sp, a, p = x
                rec = None
                if a.poll(0.05):
                    try: rec = a.recv()
                    except EOFError: rec = dict(id=sp.id, fn=None, status='unknown', why='the verifier process ended early', secs=0, paths=0, inlined=0, trusted=[], used=[], doc=sp.doc, obl=[])
                elif not p.is_alive() and not a.poll(0): rec = dict(id=sp.id, fn=None, status='unknown', why='the verifier process was stopped (time)', secs=0, paths=0, inlined=0, trusted=[], used=[], doc=sp.doc, obl=[])
                if rec is None: continue
                live.remove(x); p.join(5); sem.release(); rec['group'] = gname; rec['program'] = g.program; recs.append(rec)
                for u in rec['used']:
                    if u.startswith('contract '):
                        for sp2 in g.specs:
                            if sp2.id == u[9:] and sp2.id not in names: names.add(sp2.id); queue.append(sp2)
        conn.send(dict(group=gname, error='', cmd=cmd, recs=recs))
    except Exception as e:
        conn.send(dict(group=gname, error='internal: ' + traceback.format_exc()[-1500:], cmd='', recs=[]))

def proofs(prop, tier, work):
    import importlib, multiprocessing as mp
    out = []; ps = []; sem = mp.Semaphore(JOBS)
    for gname in GROUPS:
        g = importlib.import_module(gname).GROUP
        if not any(prop in sp.props for sp in g.specs): continue
        a, b = mp.Pipe(False); p = mp.Process(target=run_group, args=(gname, prop, tier, work, b, sem)); p.start(); b.close(); ps.append((gname, a, p))
    limit = 420 if tier == 'quick' else 6000
    for gname, a, p in ps:
        try:
            if a.poll(max(1, limit - (time.time() - T0))): out.append(a.recv())
            else: out.append(dict(group=gname, error='time limit', cmd='', recs=[])); killtree(p.pid)
        except EOFError: out.append(dict(group=gname, error='the verifier process ended early', cmd='', recs=[]))
        p.join(5)
    return out

def killtree(pid):
    """stops a process of ours and its children"""
    try:
        for c in open('/proc/%d/task/%d/children' % (pid, pid)).read().split(): killtree(int(c))
        os.kill(pid, signal.SIGKILL)
    except OSError: pass

# ---------------------------------------------------------------- main
def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = tempfile.mkdtemp(prefix='vc-%s-' % prop)
    try:
        if len(sys.argv) > 2 and sys.argv[2] == '--replay':
            d = Driver(prop, work); d.flags = [d.flags[int(sys.argv[3])]]; d.build()
            bad, txt = d.confirm(dict(variant=0, scenario=sys.argv[4], case=sys.argv[5])); print(txt); return 1 if bad else 0
        if len(sys.argv) > 2 and sys.argv[2] == '--theorem':
            txt = Theorems(sys.argv[3], work).fails(sys.argv[4], sys.argv[5] if len(sys.argv) > 5 else ''); print(txt or 'holds'); return 1 if txt else 0
        return decide(prop, tier, seed, work)
    finally: shutil.rmtree(work, ignore_errors=True)

def decide(prop, tier, seed, work):
    man = json.load(open(os.path.join(ROOT, 'MANIFEST.json'))); entry = next((c for c in man['checks'] if c['property'] == prop), {'level': 'exploration'})
    ev = os.path.join(ROOT, 'evidence'); os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, 'replay-%s.txt' % prop)
    if os.path.exists(replay): os.unlink(replay)
    import importlib
    groups = [g for g in (importlib.import_module(n).GROUP for n in GROUPS) if any(prop in sp.props for sp in g.specs)]
    d = Driver(prop, work); res = {}; ths = [Theorems(g.name, work) for g in groups if g.program]; tf = []; truns = 0
    def drive():
        try:
            d.build(); res['driver'] = d.search(seed, 15 if tier == 'quick' else 240, 3)
            res['theorems'] = [t.search(prop, seed, 10 if tier == 'quick' else 60) for t in ths]
            if tier == 'thorough': res['theorems'] += [t.search(prop, seed, 60, 'san') for t in ths]
        except Exception as e: res['error'] = str(e)
    gr = None
    th = threading.Thread(target=drive)
    # the verifier forks before the thread starts
    import multiprocessing as mp
    a, b = mp.Pipe(False)
    def pr(w):
        w.send(proofs(prop, tier, work)); w.close()
    p = mp.Process(target=pr, args=(b,)); p.start(); b.close(); th.start()
    try: gr = a.recv()
    except EOFError: gr = [dict(group='?', error='the verifier ended early', cmd='', recs=[])]
    p.join(5); th.join()
    for f, n in res.get('theorems', ()): tf += f; truns += n
    recs = [r for g in gr for r in g['recs']]
    for r in recs:      # replay the counterexamples of whole programs on the program itself
        if r['status'] != 'refuted' or not r.get('program'): continue
        t = next(t for t in ths if t.group == r['group'])
        for o in r['obl']:
            if o['status'] != 'refuted' or o.get('case') is None: continue
            txt = t.fails(r['id'], o['case'])
            if txt: r['replay'] = txt; tf.insert(0, dict(group=r['group'], name=r['id'], values=o['case'], what=o['name'], kind='counterexample', stderr=txt)); break
        if 'replay' not in r and not any(f['name'] == r['id'] for f in tf):
            r['status'] = 'unknown'; r['why'] = 'the counterexample does not fail when the program itself is run with its values, so the failed obligation is not counted: ' + '; '.join(o['name'] for o in r['obl'] if o['status'] == 'refuted')[:200]
    obls = [(r, o) for r in recs for o in r['obl']]
    refuted = [r for r in recs if r['status'] == 'refuted']
    undecided = ['%s: %s' % (g['group'], g['error']) for g in gr if g['error']] + ['%s: %s %s' % (r['id'], r['status'], r['why']) for r in recs if r['status'] not in ('proved', 'refuted')]
    if 'error' in res:
        print('ERROR', res['error']); return 2
    fails, st = res['driver']
    if refuted and not fails and not tf:
        f2, st2 = d.search(seed + 77, 60, 4); fails += f2; st['evaluations'] += st2['evaluations']
    con = [r for r in recs if not r.get('program')]; thm = [r for r in recs if r.get('program')]; obls = [(r, o) for r in con for o in r['obl']]; tobls = [o for r in thm for o in r['obl']]
    n = len(obls); ok = sum(o['status'] == 'proved' for _, o in obls); tn = len(tobls); tok = sum(o['status'] == 'proved' for o in tobls)
    lost = sum(r['status'] not in ('proved', 'refuted') and not r['obl'] for r in con)
    cov = {}
    if recs or gr:
        def backs(os):
            b = {}
            for o in os: b.setdefault(o['backend'], [0, 0.0]); b[o['backend']][0] += 1; b[o['backend']][1] += o['secs']
            return {k: dict(obligations=v[0], seconds=round(v[1], 2)) for k, v in b.items()}
        def about(r): return dict(function=r['fn'], contract=r['id'], group=r['group'], says=r['doc'], status=r['status'], obligations=len(r['obl']), discharged=sum(o['status'] == 'proved' for o in r['obl']), paths=r['paths'], functions_walked_in_place=r['inlined'], seconds=r['secs'], note=r['why'], uses=[u for u in r['used'] if u.startswith('contract ')])
        cov.update(obligations=n + lost + sum(bool(g['error']) for g in gr), discharged=ok, checker_cmd='python3-vt vc/spec.py <group>  (groups: %s); IR: %s' % (', '.join(g['group'] for g in gr), '; '.join(g['cmd'] for g in gr)[:1500]),
                   trusted_base=sorted({t for r in recs for t in r['trusted']}) + TRUST, functions_under_contract=[about(r) for r in con], back_ends=backs([o for _, o in obls]), undecided=undecided)
        if thm: cov.update(bounded_theorems=dict(bound='the client program fixes the number and the kinds of stubbings, calls and verifications; its PROVE lines hold for every value of its parameters (arguments, criteria, results, choices); one layout of addresses', programs=len(thm), proved=sum(r['status'] == 'proved' for r in thm), obligations=tn, discharged=tok, back_ends=backs(tobls), list=[about(r) for r in thm]))
        if tier == 'thorough': cov['confirmed_by_cvc5'] = sum(o['cross'] == 'unsat' for _, o in obls)
    cov.update(evaluations=st['evaluations'], distinct_nontrivial=st['distinct'], rule='bounded part: scenarios of drivers/%s.cpp draw all decisions from a choice sequence; sequences are enumerated in order up to a limit per scenario and then drawn at random; a case counts once per distinct, non-empty choice sequence (per build variant, of the process that saw most)' % prop.lower(), samples=st['samples'], bounded_scenarios=st['scenarios'], bounded_scenarios_exhausted=st['exhausted'], driver_notes=d.notes + [t.note for t in ths if t.note], theorem_programs_runs=truns)
    viol = 0; code = 0
    if fails:
        f = min(fails, key=lambda f: len(f['case'])); viol = len(fails); again, txt = d.confirm(f)
        with open(replay, 'w') as o:
            o.write('property %s\nscenario %s (driver flags: %s)\ncase %s\nresult %s\nreplayed: %s\nreplay with: cd %s && python3-vt check.py %s --replay %d %s %s\n\nsteps:\n' % (prop, f['scenario'], f['flags'] or '-', f['case'], f['msg'], 'fails again' if again else 'fails only after earlier cases of the search', ROOT, prop, f['variant'], f['scenario'], f['case']))
            o.write('\n'.join('  ' + x for x in f['steps'])); o.write('\n\n' + f['stderr'])
            dump_refuted(o, refuted)
        print('%s: %s %s: %s' % (prop, f['scenario'], f['case'], f['msg'])); 
        for r in refuted: print('%s: contract of %s is refuted' % (prop, r['id']))
        print('VIOLATION property=%s replay=%s' % (prop, replay)); code = 1
    elif tf:
        f = tf[0]; viol = len({x['name'] for x in tf})
        with open(replay, 'w') as o:
            o.write('property %s\ntheorem %s of harness/%s.cpp\nvalues %s\nresult %s\nfound by: %s\nreplay with: cd %s && python3-vt check.py %s --theorem %s %s "%s"\n\n%s\n' % (prop, f['name'], f['group'], f['values'] or '(none)', f['what'], 'the verifier\'s counterexample, replayed on the compiled program' if f['kind'] == 'counterexample' else 'running the compiled theorem', ROOT, prop, f['group'], f['name'], f['values'], f['stderr']))
            for x in tf[1:20]: o.write('also fails: %s %s %s\n' % (x['name'], x['values'], x['what']))
            dump_refuted(o, refuted)
        for x in {x['name']: x for x in tf[::-1]}.values(): print('%s: %s(%s): %s' % (prop, x['name'], x['values'], x['what']))
        for r in refuted: print('%s: contract of %s is refuted' % (prop, r['id']))
        print('VIOLATION property=%s replay=%s' % (prop, replay)); code = 1
    elif refuted:
        viol = len(refuted)
        with open(replay, 'w') as o:
            o.write('property %s\nno failing input was found by the native search (%d cases)\n' % (prop, st['evaluations'])); dump_refuted(o, refuted)
        for r in refuted: print('%s: %s: %s' % (prop, r['id'], '; '.join(sorted({o['name'] for o in r['obl'] if o['status'] == 'refuted'}))))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay)); code = 1
    for u in undecided: print('UNDECIDED', u.split('\n')[0][:300])
    if os.path.exists(os.path.join(ROOT, 'known-findings.txt')):
        for l in open(os.path.join(ROOT, 'known-findings.txt')):
            if l.startswith('KNOWN-FINDING: property=%s ' % prop): print(l.rstrip())
    out = dict(property=prop, tier=tier, seed=seed, level=entry['level'], coverage=cov, assumptions=TRUST + ['bounded: everything the driver shows holds for the cases it ran only'], wall_s=round(time.time() - T0, 2), violations=viol)
    tmp = os.path.join(ev, prop + '.json.tmp'); json.dump(out, open(tmp, 'w'), indent=1); os.replace(tmp, os.path.join(ev, prop + '.json'))
    print('%s %s: %d/%d obligations in %d functions, %d/%d in %d bounded theorems, %d undecided; driver %d cases (%d distinct); theorems run %d times; %.0f s' % (prop, tier, ok, cov.get('obligations', 0), len(con), tok, tn, len(thm), len(undecided), st['evaluations'], st['distinct'], truns, time.time() - T0))
    return code

def dump_refuted(o, refuted):
    for r in refuted:
        o.write('\nfailed contract %s of %s (%s)\n' % (r['id'], r['fn'], r['doc']))
        for x in r['obl']:
            if x['status'] == 'refuted': o.write('  failed obligation: %s\n    verifier: sat%s; model: %s\n' % (x['name'], ' (from an arbitrary loop iteration)' if x['cut'] else '', x['detail']))
        for x in r.get('bmc', []): o.write('  whole execution that fails: %s\n    model: %s\n' % (x['name'], x['detail']))

TRUST = ['vc/ (this verifier: IR parser, symbolic execution, invariant inference) and z3/cvc5', 'clang 18 translates the headers to IR faithfully (-O0); the library is header-only, so the compiled text is the text users compile',
         'templates are verified at the instantiations made by the harness', 'partial correctness: termination is not proved', 'containers hold fewer than 2^28 elements; addresses of distinct objects do not overlap',
         'contracts of std:: and run-time functions in vc/stdmodels.py (listed individually as used)']
if __name__ == '__main__': sys.exit(main())
