"""Compile a harness against /repo's current headers and load its IR."""
import os, re, subprocess, sys, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
CLANG = '/usr/bin/clang++-18'
REPO = os.environ.get('VERIF_REPO', '/repo')
FLAGS = ['-std=c++17', '-O0', '-S', '-emit-llvm', '-fno-discard-value-names', '-Xclang', '-disable-O0-optnone', '-fno-access-control', '-w',
         '-flto', '-fwhole-program-vtables', '-Xclang', '-fdump-vtable-layouts']
INC = ['-I%s/include' % REPO, '-I%s/config/standalone' % REPO]

class BuildError(Exception): pass

def compile_ir(src, out):
    cmd = [CLANG] + FLAGS + INC + [src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if r.returncode: raise BuildError(r.stderr[-4000:])
    return ' '.join(cmd), parse_slots(r.stdout)

def strip_targs(x):
    """class name without template arguments"""
    out = []; d = 0
    for c in x:
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out.append(c)
    return ''.join(out)

def parse_slots(txt):
    """(class without template arguments, slot) -> method text"""
    slots = {}; full = {}; cls = None; mode = None; base = None
    for l in txt.split('\n'):
        m = re.match(r"VTable indices for '(.*)' \(\d+ entries\)", l)
        if m: cls = strip_targs(m.group(1)); mode = 'i'; continue
        m = re.match(r"Vtable for '(.*)' \(\d+ entries\)", l)
        if m: cls = strip_targs(m.group(1)); mode = 'v'; base = None; continue
        if l.strip() == '': mode = None; continue
        m = re.match(r'\s+(\d+) \| (.*)', l)
        if not m or not mode: continue
        n, t = int(m.group(1)), m.group(2)
        if mode == 'i': slots.setdefault((cls, n), t)
        elif t.endswith(' RTTI'):
            if base is None: base = n + 1
            else: mode = None
        elif base is not None and 'vcall_offset' not in t and 'vbase_offset' not in t and 'offset_to_top' not in t: full.setdefault((cls, n - base), t)
    for k, v in full.items(): slots.setdefault(k, v)
    return slots

def demangle(names):
    r = subprocess.run(['/usr/bin/llvm-cxxfilt-18'] if os.path.exists('/usr/bin/llvm-cxxfilt-18') else ['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))

def load(src, workdir):
    out = os.path.join(workdir, os.path.basename(src) + '.ll')
    cmd, slots = compile_ir(src, out)
    m = ir.Module(out)
    names = list(m.funcs) + list(m.decls)
    dem = demangle(names)
    # classes named by their typeinfo-name symbols
    zts = set(re.findall(r'metadata !"(_ZTS[^"]*)"', open(out).read()))
    zd = demangle(sorted(zts))
    vs = {}
    byc = {}
    for (c, k), meth in slots.items(): byc.setdefault(c, []).append((k, meth))
    for z, t in zd.items():
        for k, meth in byc.get(strip_targs(t.replace('typeinfo name for ', '')), []): vs[(z, k)] = meth
    return m, dem, vs, cmd, out
