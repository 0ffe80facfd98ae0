#!/usr/bin/env python3
"""Check driver.   vp.py check <property> [quick|thorough]   |   vp.py setup   |   vp.py run <harness.cpp> [variant] [quick|thorough]

For every harness of the property: compile it together with /repo's current sources to LLVM bitcode, close and instrument the
module, explore it with the symbolic executor, replay every counterexample against the natively compiled code, and write evidence.
"""
import threading, sys, os, re, json, subprocess, hashlib, time, shutil, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(V, 'evidence'))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
ENG = os.path.join(BUILD, 'engine')
SYMX = os.path.join(ENG, 'symx')
PREP = os.path.join(ENG, 'symx-prep')
NCPU = os.cpu_count() or 8

CXX = ['clang++', '-std=c++17', '-O1', '-g1', '-fPIC', '-fno-vectorize', '-fno-slp-vectorize', '-fno-strict-aliasing', '-fno-access-control', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DFAIRMQ_HAS_STD_FILESYSTEM=1',
       '-D_GLIBCXX_ASSERTIONS', '-DBOOST_ERROR_CODE_HEADER_ONLY', '-Wno-everything', '-include', 'fstream', '-I' + os.path.join(V, 'shim'), '-I' + REPO, '-I' + V]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)

def build_engine():
    r = sh(['make', '-j8', '-s', '-C', os.path.join(V, 'engine'), 'B=' + ENG])
    if r.returncode or not os.path.exists(SYMX):
        print(r.stdout[-3000:]); print('ERROR engine build failed'); sys.exit(2)

class Harness:
    def __init__(s, path):
        s.path = path
        s.name = os.path.basename(path)[:-4]
        s.prop = None; s.sources = []; s.flags = []; s.quick = 60; s.thorough = 300; s.require = []; s.bounds = []; s.assume = []; s.variants = []; s.insts = None; s.libs = []; s.stubs = []; s.jobs = NCPU; s.okmax = 0
        for l in open(path):
            m = re.match(r'//@\s*(\w+)\s*(.*)', l)
            if not m: continue
            k, v = m.group(1), m.group(2).strip()
            if k == 'property': s.prop = v
            elif k == 'sources': s.sources += v.split()
            elif k == 'flags': s.flags += v.split()
            elif k == 'quick': s.quick = float(v)
            elif k == 'thorough': s.thorough = float(v)
            elif k == 'require': s.require += v.split()
            elif k == 'bounds': s.bounds.append(v)
            elif k == 'assume': s.assume.append(v)
            elif k == 'libs': s.libs += v.split()
            elif k == 'insts': s.insts = v
            elif k == 'variant':
                p = v.split(); s.variants.append((p[0], [x for x in p[1:] if x.startswith('-')], [x for x in p[1:] if x.startswith('+')], 'thorough' in p[1:]))
        if not s.variants: s.variants = [('', [], [], False)]

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def common_hash():
    fs = []
    for base in (os.path.join(REPO, 'fairmq'), os.path.join(V, 'shim'), os.path.join(V, 'rt')):
        for d, _, names in os.walk(base):
            fs += [os.path.join(d, n) for n in names]
    fs += glob.glob(os.path.join(V, 'harness', '*.h'))
    fs += glob.glob(os.path.join(V, 'engine', '*.h')) + [os.path.join(V, 'engine', 'prep.cpp')]
    return tree_hash(fs)

_common = None
_locks = {}; _lockslock = threading.Lock()
def key_lock(k):
    with _lockslock: return _locks.setdefault(k, threading.Lock())
def compile_bc(src, flags):
    """compile one source to bitcode; cached on the content of everything it can include"""
    global _common
    with _lockslock:
        if _common is None: _common = common_hash()
    h = hashlib.sha256((_common + src + ' '.join(CXX + flags)).encode() + open(src, 'rb').read()).hexdigest()[:24]
    out = os.path.join(BUILD, 'bc', h + '.bc')
    with key_lock(h):
        if os.path.exists(out): return out, None
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        r = sh(CXX + flags + ['-emit-llvm', '-c', src, '-o', tmp])
        if r.returncode: return None, src + '\n' + r.stdout[-4000:]
        os.rename(tmp, out)
        return out, None

def build_variant(h, var, tier, pool):
    vname, vflags, _, _ = var
    flags = h.flags + vflags + (['-DTHOROUGH=1'] if tier == 'thorough' else [])
    srcs = [h.path, os.path.join(V, 'rt', 'rt.cpp')] + [os.path.join(REPO, x) if not x.startswith('@') else os.path.join(V, x[1:]) for x in h.sources]
    for s in srcs:
        if not os.path.exists(s): return None, 'missing source ' + s
    res = list(pool.map(lambda s: compile_bc(s, flags if s == h.path else h.flags + [f for f in vflags if f.startswith("-DFAIRMQ_")]), srcs))
    for o, e in res:
        if e: return None, e
    bcs = [o for o, _ in res]
    key = hashlib.sha256(' '.join(bcs).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, 'mod', key)
    bc, so = os.path.join(d, 'm.bc'), os.path.join(d, 'm.so')
    if os.path.exists(so): return (bc, so), None
    tmp = d + '.%d.tmp' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    r = sh(['llvm-link-18'] + bcs + ['-o', os.path.join(tmp, 'l.bc')])
    if r.returncode: return None, 'llvm-link: ' + r.stdout[-3000:]
    r = sh([PREP, os.path.join(tmp, 'l.bc'), os.path.join(tmp, 'm.bc')])
    if r.returncode: return None, 'prep: ' + r.stdout[-3000:]
    r = sh(['clang++', '-O0', '-fPIC', '-c', os.path.join(tmp, 'm.bc'), '-o', os.path.join(tmp, 'm.o'), '-Wno-everything'])
    if r.returncode: return None, 'codegen: ' + r.stdout[-3000:]
    r = sh(['clang++', '-shared', '-Wl,-Bsymbolic', '-Wl,-z,undefs', os.path.join(tmp, 'm.o'), '-o', os.path.join(tmp, 'm.so')] + ['-l' + x for x in h.libs])
    if r.returncode: return None, 'link: ' + r.stdout[-3000:]
    os.unlink(os.path.join(tmp, 'l.bc')); os.unlink(os.path.join(tmp, 'm.o'))
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return (bc, so), None

def replay(bc, so, f, key):
    """native replay first, then concrete interpretation (memory errors need not crash natively)"""
    try:
        r = sh([SYMX, "--replay", bc, so, f], timeout=30 if key.startswith("no progress") else 90)
        nat = r.stdout; rc = r.returncode
    except subprocess.TimeoutExpired as e:
        nat, rc = 'timeout', -14
    if 'REPLAY-VIOLATION' in nat: return 'native', nat
    if rc < 0 and key.startswith('no progress'): return 'native', 'no termination within the limit\n' + nat
    try:
        r = sh([SYMX, '--replay', bc, so, f, '--interp'], timeout=150)
    except subprocess.TimeoutExpired: return None, nat + '\n--interp: timeout'
    if r.returncode == 10: return 'interpreted', r.stdout + '\n(native run: ' + nat[-300:] + ')'
    return None, nat + '\n--interp:\n' + r.stdout

def validate_sample(bc, so, f):
    exp = [l[2:].rstrip('\n') for l in open(f) if l.startswith('n ')]
    try: r = sh([SYMX, '--replay', bc, so, f], timeout=60)
    except subprocess.TimeoutExpired: return False, 'timeout'
    if 'REPLAY-OK' not in r.stdout: return False, r.stdout[-400:]
    got = []
    for l in r.stdout.splitlines():
        if l.startswith('NOTE '):
            k, v = l[5:].rsplit(' ', 1); got.append(v + ' ' + k)
    return (got == exp), '%s vs %s' % (got[:6], exp[:6])

def load_known():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def harnesses(prop=None):
    hs = [Harness(p) for p in sorted(glob.glob(os.path.join(V, 'harness', '*.cpp')))]
    return [h for h in hs if prop is None or h.prop == prop]

def run_variant(h, var, tier, mod, out):
    bc, so = mod
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    dl = h.quick if tier == 'quick' else h.thorough
    for x in var[2]:
        m = re.match(r'\+(quick|thorough)=(\d+)', x)
        if m and m.group(1) == tier: dl = float(m.group(2))
    cmd = [SYMX, '--run', bc, so, out, '--jobs', str(NCPU), '--deadline', str(dl), '--samples', '24' if tier == 'quick' else '60']
    if h.insts: cmd += ['--path-insts', h.insts]
    try: r = sh(cmd, timeout=dl + 120, env=dict(os.environ, GLIBC_TUNABLES='glibc.malloc.hugetlb=1'))
    except subprocess.TimeoutExpired: return None, 'timeout'
    rj = os.path.join(out, 'result.json')
    if not os.path.exists(rj): return None, r.stdout[-3000:]
    return json.load(open(rj)), r.stdout

def check(prop, tier):
    t0 = time.time()
    build_engine()
    hs = harnesses(prop)
    if not hs: print('ERROR no harness for', prop); return 2
    known = [k for k in load_known() if k['property'] == prop and k['status'] == 'known']
    pool = ThreadPoolExecutor(NCPU)
    todo = [(h, v) for h in hs for v in h.variants if tier == 'thorough' or not v[3]]
    # compile everything first, in parallel
    bpool = ThreadPoolExecutor(4)
    mods = list(bpool.map(lambda hv: build_variant(hv[0], hv[1], tier, pool), todo))
    err = [e for _, e in mods if e]
    if err: print(err[0]); print('ERROR build failed for', prop); return 2
    tot = dict(paths=0, paths_ended=0, forks=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, assertions=0, assertions_symbolic=0, switches=0, assume_pruned=0)
    funcs = {}; detail = []; viols = []; knownhit = {}; incomplete = []; validated = 0; mismatched = 0; samples = []; missing = []; natives = {}; bounds = []; assumptions = []; reach_all = {}
    rc = 0
    for (h, v), (mod, _) in zip(todo, mods):
        nm = h.name + (('.' + v[0]) if v[0] else '')
        out = os.path.join(BUILD, 'out', prop, nm)
        res, log = run_variant(h, v, tier, mod, out)
        if res is None: print(log); print('ERROR exploring', nm); return 2
        for k in tot: tot[k] += res[k]
        for f, x in res['functions'].items():
            o = funcs.get(f)
            if not o or x[1] > o[1]: funcs[f] = x
        for k, n in res['native'].items(): natives[k] = natives.get(k, 0) + n
        inc = ['%s: %s (x%d)' % (nm, k, n) for k, n in res['incomplete'].items()]
        if res['deadline_paths']: inc.append('%s: %d paths cut by the time limit' % (nm, res['deadline_paths']))
        incomplete += inc
        for tag in h.require:
            # "tag@variant" only applies to that variant; "tag!thorough" only to the thorough tier
            t = tag
            if '!' in t:
                t, tt = t.split('!')
                if tt != tier: continue
            if '@' in t:
                t, vv = t.split('@')
                if v[0] not in vv.split(','): continue
            if t not in res['reach']: missing.append(nm + ':' + t)
        for t, n in res['reach'].items(): reach_all[nm + ':' + t] = n
        if res['checks']: pass
        if not res['assertions'] : missing.append(nm + ':(no assertion reached)')
        bounds += [x for x in h.bounds if x not in bounds]
        assumptions += [x for x in h.assume if x not in assumptions]
        # differential validation of the executor: native runs of explored paths must agree
        fs = sorted(glob.glob(os.path.join(out, 'sample-*.txt')))
        for f, (ok, why) in zip(fs, pool.map(lambda f: validate_sample(mod[0], mod[1], f), fs)):
            if ok: validated += 1
            else:
                mismatched += 1
                incomplete.append('%s: native run of an explored path differs: %s' % (nm, why))
        for f in fs[:2]:
            samples.append({'harness': nm, 'path_inputs': [l[2:].strip() for l in open(f) if l.startswith('v ')][:24], 'observations': [l[2:].strip() for l in open(f) if l.startswith('n ')][:12]})
        for f in sorted(glob.glob(os.path.join(out, 'viol-*.txt'))):
            key = open(f).readline()[2:].strip()
            kf = next((k for k in known if re.fullmatch(k['key'], key) and re.fullmatch(k.get('harness', '.*'), nm)), None)
            if kf:
                if kf['what'] not in knownhit: knownhit[kf['what']] = f
                continue
            if key.startswith('no progress') and any(k.startswith('no progress') for k, _, _, _ in viols): continue
            how, txt = replay(mod[0], mod[1], f, key)
            if how is None:
                incomplete.append('%s: counterexample for "%s" did not replay' % (nm, key))
                print('NOTE counterexample did not replay (not reported):', nm, key); print(txt[-1500:])
                continue
            rp = os.path.join(EVID, 'replay', prop); os.makedirs(rp, exist_ok=True)
            dst = os.path.join(rp, nm + '-' + os.path.basename(f))
            with open(f) as a, open(dst, 'w') as b:
                b.write(a.read()); b.write('# replayed: %s\n' % how); b.write('\n'.join('# ' + l for l in txt.splitlines()[-40:]) + '\n')
            viols.append((key, dst, how, nm))
        detail.append({'harness': nm, 'paths': res['paths'], 'ended': res['paths_ended'], 'queries': res['queries'], 'solver_s': round(res['solver_s'], 2), 'wall_s': round(res['wall_s'], 2), 'assertions': {k: n for k, n in res['checks'].items()}, 'exhausted': not inc, 'incomplete': inc, 'reach': res['reach']})
    for kf in known:
        if kf['what'] in knownhit: print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
        elif tier == 'thorough' or kf.get('tier', 'quick') == 'quick': print('NOTE known finding not observed in this run: ' + kf['what'])
    for key, dst, how, nm in viols:
        print('  %s [%s, %s]' % (key, nm, how))
        print('VIOLATION property=%s replay=%s' % (prop, dst))
    if missing: print('NOTE reachability tags not hit:', ', '.join(missing))
    for i in incomplete: print('NOTE not exhaustive:', i)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
          'coverage': {
              'states': tot['paths_ended'], 'transitions': tot['forks'], 'traces_validated_against_impl': validated, 'samples': samples or [{'harness': d['harness'], 'path_inputs': []} for d in detail][:1],
              'exhaustive': not incomplete and not missing,
              'states_meaning': 'feasible symbolic paths explored to their end; each stands for every input satisfying its path condition',
              'transitions_meaning': 'branch points at which the solver found both outcomes satisfiable and both were followed',
              'symbolic_instructions': tot['instructions'], 'solver_queries': tot['queries'], 'solver_sat': tot['sat'], 'solver_unsat': tot['unsat'], 'solver_unknown': tot['unknown'], 'solver_s': round(tot['solver_s'], 2),
              'assertions_evaluated': tot['assertions'], 'assertions_decided_by_query': tot['assertions_symbolic'], 'thread_switches': tot['switches'],
              'bounds': bounds, 'functions_encoded': {f: {'file': x[0], 'lines_executed': x[1], 'lines': x[2]} for f, x in sorted(funcs.items())},
              'functions_run_natively': natives, 'harnesses': detail, 'reachability': reach_all, 'reachability_missing': missing, 'native_mismatches': mismatched, 'not_exhaustive_because': incomplete,
              'known_findings_seen': sorted(knownhit)},
          'assumptions': assumptions + ['LLVM 18 IR at -O1 of clang 18 is the code judged; FairLogger and PicoSHA2 are stand-ins; operating system services used by the harness are the models in rt/'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print('%s %s: %d paths, %d queries, %.1fs solver, %d assertions, %d functions of /repo, %d native validations, %.1fs' % (prop, tier, tot['paths'], tot['queries'], tot['solver_s'], tot['assertions'], len(funcs), validated, time.time() - t0))
    return 1 if viols else 0

def main():
    a = sys.argv[1:]
    if a and a[0] == 'setup':
        build_engine()
        _prebuild = [(h, v) for h in harnesses() for v in h.variants if not v[3]]
        pool = ThreadPoolExecutor(NCPU)
        for r, e in ThreadPoolExecutor(4).map(lambda hv: build_variant(hv[0], hv[1], 'quick', pool), _prebuild):
            if e: print(e)
        return 0
    if a and a[0] == 'check':
        return check(a[1], a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    if a and a[0] == 'run':
        build_engine()
        h = Harness(a[1]); tier = 'thorough' if 'thorough' in a else 'quick'
        pool = ThreadPoolExecutor(NCPU)
        for v in h.variants:
            if len(a) > 2 and a[2] not in ('quick', 'thorough', '', v[0]): continue
            t = time.time()
            mod, e = build_variant(h, v, tier, pool)
            if e: print(e); return 2
            print('built', mod, '%.1fs' % (time.time() - t))
            out = os.path.join(BUILD, 'out', 'dev', h.name + v[0])
            res, log = run_variant(h, v, tier, mod, out)
            print(log)
            if res is None: return 2
            for k in ('reach', 'checks', 'incomplete', 'violations', 'native'): print(k, json.dumps(res[k], indent=1))
            print(len(res['functions']), 'functions')
            for f in sorted(glob.glob(os.path.join(out, 'sample-*.txt')))[:8]:
                ok, why = validate_sample(mod[0], mod[1], f)
                if not ok: print('MISMATCH', f, why)
            for f in sorted(glob.glob(os.path.join(out, 'viol-*.txt'))):
                how, txt = replay(mod[0], mod[1], f, open(f).readline()[2:].strip())
                print('==', open(f).read()[:3000]); print('-> replay', how, txt[-1200:])
        return 0
    print(__doc__); return 2

sys.exit(main())
