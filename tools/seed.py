#!/usr/bin/env python3
"""development helper: make and confirm a planted bug.   seed.py make SPEC.py | confirm ID.. | check ID..
SPEC.py defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=C++ text, sources=[..], libs=[..])]"""
import sys, os, subprocess, shutil, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + '/seeded'; W = '/tmp/seedwt/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
def fresh():
    if not os.path.exists(W): sh('mkdir -p /tmp/seedwt; cp -a /repo ' + W)
    sh('git checkout -q -- . ; git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD', cwd=W)
def make(x):
    fresh()
    for f, a, b in x['edits']:
        p = W + '/' + f; t = open(p).read()
        assert t.count(a) == 1, (x['id'], f, a, t.count(a))
        open(p, 'w').write(t.replace(a, b))
    d = S + '/' + x['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=W).stdout)
    json.dump({'property': x['prop'], 'needs': x['needs'], 'what_it_breaks': x['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.cpp', 'w').write(x['demo'].strip() + '\n')
    shutil.copytree(V + '/shim', d + '/shim')
    for f in x.get('files', []): shutil.copy(V + '/' + f, d)
    srcs = ' '.join('$R/fairmq/' + s for s in x.get('sources', [])); libs = ' '.join('-l' + l for l in x.get('libs', []))
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: the repository. Exit 0: the property held, nonzero: it did not.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -include fstream -DFAIRMQ_HAS_STD_FILESYSTEM=1 %s -I"$D/shim" -I"$R" -I"$D" "$D/demo.cpp" %s -o "$T/demo" %s -lpthread || exit 3
cd "$T" && timeout %d ./demo
''' % (x.get('flags', ''), srcs, libs, x.get('timeout', 60)))
    os.chmod(d + '/demo.sh', 0o755)
def confirm(i):
    d = S + '/' + i; fresh()
    a = sh('bash %s/demo.sh' % d, cwd=W)
    r = sh('git apply %s/patch.diff' % d, cwd=W)
    if r.returncode: return 'patch does not apply ' + r.stdout
    b = sh('bash %s/demo.sh' % d, cwd=W)
    # build and test on a patched /repo are left to vcheck; compile the touched files here
    msg = '%s: unchanged rc=%d patched rc=%d' % (i, a.returncode, b.returncode)
    if a.returncode: msg += '\nUNCHANGED FAILS ' + a.stdout[-1500:]
    if b.returncode in (0, 3): msg += '\nPATCHED: ' + b.stdout[-1500:]
    fresh(); return msg
def check(i):
    d = S + '/' + i; m = json.load(open(d + '/meta.json')); fresh(); r = sh('git apply %s/patch.diff' % d, cwd=W)
    if r.returncode: return i + ': patch does not apply'
    r = sh('VERIF_REPO=%s VERIF_EVIDENCE=/tmp/seedev python3 %s/vp.py check %s quick' % (W, V, m['property']))
    l = [x for x in r.stdout.splitlines() if x.startswith(('VIOLATION', 'ERROR', 'NOTE', 'INCONCLUSIVE', '  '))]
    fresh(); return '%s: %s rc=%d %s' % (i, m['property'], r.returncode, ' | '.join(l[:4])[:400])
if __name__ == '__main__':
    if sys.argv[1] == 'make':
        g = {}; exec(open(sys.argv[2]).read(), g)
        for x in g['SEEDS']:
            if len(sys.argv) > 3 and x['id'] not in sys.argv[3:]: continue
            make(x); print(confirm(x['id']), flush=True); print(check(x['id']), flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(S))
        for i in ids: print({'confirm': confirm, 'check': check}[sys.argv[1]](i), flush=True)
