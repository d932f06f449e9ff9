#!/usr/bin/env python3
"""Driver: builds the executor and the bitcode from /repo's working tree, runs the harnesses of one
property, replays counterexamples natively, writes evidence, prints VIOLATION / KNOWN-FINDING lines."""
import sys, os, subprocess, hashlib, json, time, glob, shutil, re, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
B = os.path.join(V, 'build')
LLVMBIN = '/usr/lib/llvm-18/bin'
CLANG = 'clang'
BCFLAGS = ('-O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fwrapv -fno-strict-aliasing '
           '-fno-delete-null-pointer-checks -gline-tables-only -w -fno-pic -fno-pie -DVERIF_SMALL_TABLES').split()
os.makedirs(B, exist_ok=True)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def fhash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

class Lock:
    def __init__(self, name): self.p = os.path.join(B, name + '.lock')
    def __enter__(self): self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def build_engine():
    src = sorted(glob.glob(V + '/engine/*'))
    h = fhash(src); exe = f'{B}/symx-{h}'
    with Lock('engine'):
        if not os.path.exists(exe):
            objs = []; procs = []
            for c in ('engine', 'expr', 'solver'):
                o = f'{B}/{c}-{h}.o'; objs.append(o)
                procs.append(subprocess.Popen(['g++', '-std=c++17', '-O2', '-w', '-I/usr/lib/llvm-18/include', '-c', f'{V}/engine/{c}.cpp', '-o', o]))
            if any(p.wait() for p in procs): die('engine does not compile')
            r = sh(['g++'] + objs + ['-o', exe + '.tmp', '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3', '-lpthread'])
            if r.returncode: die('engine does not link\n' + r.stdout)
            os.rename(exe + '.tmp', exe)
            for o in objs: os.unlink(o)
    return exe

def die(msg, code=3):
    print('CHECK-ERROR: ' + msg); sys.stdout.flush(); os._exit(code)

def repo_sources():
    txt = open(REPO + '/compile.sh').read()
    srcs = sorted(set(re.findall(r'[A-Za-z0-9_]+/[A-Za-z0-9_.]+\.c', '\n'.join(l for l in txt.split('\n') if not l.startswith('#')))))
    if not srcs: die('no sources in compile.sh')
    return srcs

def repo_inputs():
    fs = []
    for d, _, names in os.walk(REPO):
        if '/.git' in d or '/_build' in d or '/Examples' in d: continue
        fs += [os.path.join(d, n) for n in names if n.endswith(('.c', '.h')) or n == 'compile.sh']
    return fs

def incs(): return ['-I' + REPO, '-I' + V + '/lib', '-I' + V + '/harness']

def par(cmds, what):
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda c: sh(c), cmds):
            if r.returncode: die(f'{what} failed: {r.args}\n{r.stdout[-3000:]}')

def build_bc(variant='plain'):
    """bitcode of all of the repository's sources, from the current working tree"""
    flags = BCFLAGS + (['-fsanitize=signed-integer-overflow,shift', '-fsanitize-trap=all'] if variant == 'ovf' else [])
    if variant == 'ovf': flags = [f for f in flags if f != '-fwrapv']
    h = fhash(repo_inputs() + [V + '/lib/minilibc.c'], ' '.join(flags)); d = f'{B}/bc-{variant}-{h}'
    with Lock('bc-' + variant):
        if not os.path.exists(d + '/repo.bc'):
            for old in glob.glob(f'{B}/bc-{variant}-*'): shutil.rmtree(old, ignore_errors=True)
            os.makedirs(d); cmds = []; outs = []
            for s in repo_sources():
                o = d + '/' + s.replace('/', '_') + '.bc'; outs.append(o)
                cmds.append([CLANG] + flags + ['-Dmain=gkc_realmain', '-emit-llvm', '-c', REPO + '/' + s, '-o', o])
            o = d + '/minilibc.bc'
            cmds.append([CLANG] + BCFLAGS + ['-fno-builtin', '-emit-llvm', '-c', V + '/lib/minilibc.c', '-o', o])
            par(cmds, 'compiling /repo to bitcode')
            par([[LLVMBIN + '/llvm-link'] + outs + ['-o', d + '/repo.tmp']], 'linking bitcode')
            os.rename(d + '/repo.tmp', d + '/repo.bc')
    return d

NATFLAGS = {'plain': ['-O3', '-w', '-fwrapv', '-DVERIF_SMALL_TABLES'], 'asan': ['-O1', '-g', '-w', '-DVERIF_SMALL_TABLES', '-fsanitize=address', '-fno-omit-frame-pointer', '-fwrapv']}
def build_native(kind):
    fl = NATFLAGS[kind]; h = fhash(repo_inputs() + [V + '/lib/replay.c', V + '/lib/sym.h'], ' '.join(fl)); d = f'{B}/nat-{kind}-{h}'
    with Lock('nat-' + kind):
        if not os.path.exists(d + '/lib.a'):
            for old in glob.glob(f'{B}/nat-{kind}-*'): shutil.rmtree(old, ignore_errors=True)
            os.makedirs(d); cmds = []; outs = []
            for s in repo_sources() + ['@replay']:
                o = d + '/' + s.replace('/', '_') + '.o'; outs.append(o)
                src = V + '/lib/replay.c' if s == '@replay' else REPO + '/' + s
                cmds.append(['gcc'] + fl + ['-Dmain=gkc_realmain' if s != '@replay' else '-DX', '-I' + V + '/lib', '-c', src, '-o', o])
            par(cmds, 'native build'); par([['ar', 'rcs', d + '/lib.tmp'] + outs[:-1]], 'ar'); os.rename(d + '/lib.tmp', d + '/lib.a')
    return d

class H:
    """one harness run: file, parameters, budgets, expectations"""
    def __init__(self, name, file=None, params=(), covers=(0,), tier='quick', variant='plain', maxinstr=200_000_000, time=600, jobs=4,
                 bounds='', funcs=(), defs=(), rlimit=0, only=None, samples=10):
        self.name = name; self.file = file or name; self.params = list(params); self.covers = covers; self.tier = tier; self.variant = variant
        self.maxinstr = maxinstr; self.time = time; self.jobs = jobs; self.bounds = bounds; self.funcs = funcs; self.defs = list(defs); self.rlimit = rlimit
        self.samples = samples; self.bcvar = 'plain' if variant == 'conc' else variant

def harness_bc(h, bcd, work):
    o = f'{work}/{h.name}.h.bc'; out = f'{work}/{h.name}.bc'
    cmd = [CLANG] + BCFLAGS + incs() + h.defs + ['-DSYMX', '-emit-llvm', '-c', f'{V}/harness/{h.file}.c', '-o', o]
    r = sh(cmd)
    if r.returncode: die(f'harness {h.name} does not compile against the current tree\n{r.stdout[-3000:]}')
    r = sh([LLVMBIN + '/llvm-link', o, bcd + '/repo.bc', bcd + '/minilibc.bc', '-o', out])
    if r.returncode: die(f'linking {h.name}\n{r.stdout[-3000:]}')
    return out

def native_conc(h, work):
    """the same bitcode, with a scheduling call before every memory access, as a native program that follows a recorded schedule"""
    exe = f'{work}/{h.name}.conc'
    if os.path.exists(exe): return exe
    ll = f'{work}/{h.name}.conc.ll'; bc = build_bc('plain') + '/repo.bc'
    for c in ([LLVMBIN + '/llvm-link', '--only-needed', '-S', f'{work}/{h.name}.h.bc', bc, '-o', ll],):
        r = sh(c)
        if r.returncode: die(f'native build of {h.name}\n{r.stdout[-3000:]}')
    t = open(ll).read(); t = re.sub(r'call void asm sideeffect "pause[^\n]*', 'call void @sym_spin()', t); t = re.sub(r'^(attributes #\d+ = \{ )', r'\1sanitize_thread ', t, flags=re.M)
    t = re.sub(r'^(define [^\n]*\)(?: unnamed_addr| local_unnamed_addr)?)( (?:!dbg [^\n]*)?\{)$', r'\1 sanitize_thread\2', t, flags=re.M)
    if '@sym_spin(' in t and not re.search(r'^(declare|define) [^\n]*@sym_spin\(', t, re.M): t += '\ndeclare void @sym_spin()\n'
    open(ll, 'w').write(t)
    for c in ([LLVMBIN + '/opt', '-passes=module(tsan-module),function(tsan)', '-tsan-distinguish-volatile=1', '-tsan-instrument-read-before-write=1', ll, '-o', ll + '.bc'],
              [CLANG, '-O1', '-w', '-fno-pie', '-c', ll + '.bc', '-o', ll + '.o'],
              ['gcc', '-no-pie', '-O1', '-w', '-DSYM_THREADS', '-I' + V + '/lib', V + '/lib/replay.c', ll + '.o', '-o', exe, '-lm']):
        r = sh(c)
        if r.returncode: die(f'native build of {h.name}\n{r.stdout[-3000:]}')
    return exe

def native_bin(h, kind, work):
    if h.variant == 'conc': return native_conc(h, work)
    d = build_native(kind); exe = f'{work}/{h.name}.{kind}'
    if not os.path.exists(exe):
        r = sh(['gcc'] + NATFLAGS[kind] + incs() + h.defs + [f'{V}/harness/{h.file}.c', d + '/@replay.o', d + '/lib.a', '-o', exe, '-lm'])
        if r.returncode: die(f'native build of {h.name}\n{r.stdout[-3000:]}')
    return exe

def run_native(exe, h, inp, obs=None, timeout=60):
    env = dict(os.environ, SYM_INPUT=inp, SYM_PARAMS=','.join(str(p) for p in h.params), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0')
    if obs: env['SYM_OBS'] = obs
    cwd = tempfile.mkdtemp(prefix='nat-', dir=os.path.dirname(os.path.abspath(exe)))
    try: r = subprocess.run(['bash', '-c', 'ulimit -s 1000000 2>/dev/null; exec "$0"', os.path.abspath(exe)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired: return ('timeout', '')
    finally: shutil.rmtree(cwd, ignore_errors=True)
    return (r.returncode, r.stdout.decode('latin1'))

def confirms(rc, out):
    if rc == 'timeout': return True
    if rc in (0, 43, 44, 45, 46): return False
    return rc == 42 or rc == 99 or rc < 0 or rc >= 128 or 'AddressSanitizer' in out

def run_harness(h, exe, bcds, work, res):
    t0 = time.time(); bc = harness_bc(h, bcds[h.bcvar], work); out = f'{work}/{h.name}.out'; os.makedirs(out)
    cmd = [exe, '-out', out, '-maxinstr', str(h.maxinstr), '-j', str(h.jobs), '-time', str(h.time), '-samples', str(h.samples)]
    if h.rlimit: cmd += ['-rlimit', str(h.rlimit)]
    for p in h.params: cmd += ['-p', str(p)]
    r = sh(cmd + [bc])
    if os.environ.get('SYMX_PRINT'): print(r.stdout[-20000:])
    info = {'harness': h.name, 'bounds': h.bounds, 'errors': [], 'viol': []}
    if r.returncode or not os.path.exists(out + '/summary.json'):
        info['errors'].append(f'executor exit {r.returncode}: {r.stdout[-2000:]}'); info['sum'] = {}; res.append(info); return
    s = json.load(open(out + '/summary.json')); info['sum'] = s
    for f in sorted(glob.glob(out + '/err_*.txt')): info['errors'].append(open(f, errors='replace').read()[:1500])
    if s['errors'] and not info['errors']: info['errors'].append('executor recorded errors')
    viols = sorted(glob.glob(out + '/viol_*.in'))
    for c in h.covers:
        if not (s['covers'] >> c) & 1 and not viols and not info['errors']: info['errors'].append(f'vacuity guard: witness {c} of {h.name} not reached')
    for v in viols:
        key, msg, loc = (open(v[:-3] + '.txt', errors='replace').read() + '\n\n\n').split('\n')[:3]
        conf = None
        for kind in (('conc',) if h.variant == 'conc' else ('plain', 'asan')):
            rc, o = run_native(native_bin(h, kind, work), h, v)
            if confirms(rc, o): conf = (kind, rc, o[-1500:]); break
        info['viol'].append({'key': key, 'msg': msg, 'loc': loc, 'input': v, 'confirmed': conf})
    # engine-vs-native agreement on sampled paths
    ok = 0
    smp = sorted(glob.glob(out + '/sample_*.in')); info['samples'] = []
    if smp:
        ne = native_bin(h, 'plain', work)
        for f in smp:
            ob = f[:-3] + '.nat'; rc, o = run_native(ne, h, f, ob)
            want = open(f[:-3] + '.obs').read(); got = open(ob).read() if os.path.exists(ob) else ''
            if rc == 0 and want == got: ok += 1
            elif not viols: info['errors'].append(f'engine and native run disagree on {os.path.basename(f)} of {h.name}: native rc={rc} {o[-400:]} want={want[:300]!r} got={got[:300]!r} inputs={open(f).read()[:600]!r}')
            if len(info['samples']) < 3: info['samples'].append(' '.join(open(f).read().split('\n'))[:400])
    info['validated'] = ok; info['wall'] = time.time() - t0
    res.append(info)

def check(prop, tier):
    sys.path.insert(0, V); import checks
    P = checks.PROPS[prop]; hs = [h for h in P['harnesses'] if tier == 'thorough' or h.tier == 'quick']
    if tier == 'thorough': hs = [h for h in hs if not (h.tier == 'quick' and any(k.name == h.name + '_deep' for k in hs))]
    if len(sys.argv) > 3: hs = [h for h in hs if re.search(sys.argv[3], h.name)]
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1'))
    work = tempfile.mkdtemp(prefix=f'run-{prop}-', dir=B)
    ev = f'{V}/evidence/{prop}.json'; os.makedirs(V + '/evidence', exist_ok=True)
    with ThreadPoolExecutor(3) as ex:
        fe = ex.submit(build_engine); vs = sorted({h.bcvar for h in hs}); fb = {v: ex.submit(build_bc, v) for v in vs}; fn = ex.submit(build_native, 'plain')
        exe = fe.result(); bcds = {v: f.result() for v, f in fb.items()}; fn.result()
    for v in bcds: pass
    res = []
    par_h = max(1, P.get('parallel', 2))
    with ThreadPoolExecutor(par_h) as ex:
        for f in [ex.submit(run_harness, h, exe, bcds, work, res) for h in hs]: f.result()
    res.sort(key=lambda i: i['harness'])
    known = json.load(open(V + '/known_findings.json')) if os.path.exists(V + '/known_findings.json') else []
    nviol = 0; errs = []; kf = []
    for i in res:
        for v in i['viol']:
            k = [x for x in known if x['property'] == prop and x.get('status') != 'fixed' and x['harness'] == i['harness'] and x['key'] == v['key']]
            if not v['confirmed']: errs.append(f"counterexample not reproduced natively: {i['harness']}: {v['key']} at {v['loc']} inputs={open(v['input']).read()!r}"); continue
            if k: kf.append(k[0]); continue
            nviol += 1; rp = f'{V}/evidence/replay'; os.makedirs(rp, exist_ok=True)
            dst = f"{rp}/{prop}_{i['harness']}_{nviol}"; shutil.copy(v['input'], dst + '.in')
            hh = [h for h in hs if h.name == i['harness']][0]
            open(dst + '.txt', 'w').write(f"{v['key']}\n{v['msg']}\n{v['loc']}\nnative: {v['confirmed']}\n\nreplay: {V}/vf.py replay {prop} {i['harness']} {dst}.in\n")
            print(f"VIOLATION property={prop} replay={dst}.in"); print(f"  {i['harness']}: {v['key']}\n  at {v['loc']}")
        for e in i['errors']: errs.append(f"{i['harness']}: {e}")
    for x in {json.dumps(x, sort_keys=True): x for x in kf}.values(): print(f"KNOWN-FINDING: property={prop} {x['what']}")
    S = lambda k: sum(i['sum'].get(k, 0) for i in res)
    fs = sorted({f for i in res for f in i['sum'].get('functions_symbolic', []) if not f.startswith(('sym_', 'h_'))})
    cov = {'states': S('paths'), 'transitions': S('forks'), 'traces_validated_against_impl': sum(i.get('validated', 0) for i in res),
           'samples': [s for i in res for s in i.get('samples', [])][:12],
           'solver_queries': S('queries'), 'queries_sat': S('sat'), 'queries_unsat': S('unsat'), 'decided_by_cached_model': S('model_hits'), 'solver_time_s': round(S('solver_s'), 3),
           'assertions_checked': S('asserts'), 'assertions_symbolic': S('asserts_symbolic'), 'instructions': S('instrs'), 'pruned_by_assumption': S('pruned'), 'paths_dropped_over_budget': S('over_budget'),
           'functions_encoded': fs, 'functions_encoded_count': len(fs),
           'harnesses': [{'name': i['harness'], 'bounds': i['bounds'], 'paths': i['sum'].get('paths'), 'queries': i['sum'].get('queries'), 'wall_s': round(i.get('wall', 0), 1), 'max_fork_depth': i['sum'].get('maxdepth')} for i in res],
           'inconclusive': errs[:10], 'explanation': 'states = completed symbolic paths (each stands for every input satisfying its path condition), transitions = symbolic forks, traces_validated = sampled paths whose observations the native build reproduced exactly'}
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': nviol}, open(ev, 'w'), indent=1)
    if not os.environ.get('VF_KEEP'): shutil.rmtree(work, ignore_errors=True)
    else: print('work:', work)
    for i in res: print(f"  {i['harness']}: paths={i['sum'].get('paths')} queries={i['sum'].get('queries')} solver={i['sum'].get('solver_s')}s validated={i.get('validated')} wall={i.get('wall',0):.1f}s covers={i['sum'].get('covers')}")
    print(f'{prop}: {cov["states"]} paths, {cov["solver_queries"]} queries, {time.time()-t0:.1f}s')
    if nviol: return 1
    if errs:
        for e in errs[:10]: print('INCONCLUSIVE: ' + e)
        return 2
    return 0

if __name__ == '__main__':
    if sys.argv[1] == 'setup':
        build_engine(); build_bc('plain'); build_native('plain'); print('ok'); sys.exit(0)
    if sys.argv[1] == 'replay':
        sys.path.insert(0, V); import checks
        h = [h for h in checks.PROPS[sys.argv[2]]['harnesses'] if h.name == sys.argv[3]][0]; w = tempfile.mkdtemp(dir=B); bad = 0
        if h.variant == 'conc': harness_bc(h, build_bc('plain'), w)
        for k in (('conc',) if h.variant == 'conc' else ('plain', 'asan')):
            rc, o = run_native(native_bin(h, k, w), h, sys.argv[4]); print(k, rc, o[-20000:]); bad |= confirms(rc, o)
        shutil.rmtree(w); sys.exit(1 if bad else 0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'): tier = sys.argv[2]
    elif len(sys.argv) <= 2: sys.argv.append(tier)
    sys.exit(check(sys.argv[1], tier))
