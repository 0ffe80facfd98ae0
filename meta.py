#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
P = []
NA = []
TECH = 'symbolic execution of the LLVM IR of the real code with an SMT solver (Z3), every path to its end within the stated bounds'
def prop(id, title, statement, over, quant, why, files, mech, note, tech=TECH):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, tech=tech))
def na(id, title, statement, over, quant, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=None, tech=None)); NA.append(dict(property=id, reason=reason))
exec(open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), 'properties.inc.py')).read())
out = []
for p in P:
    assert len(p['title']) <= 80, p['id']
    out.append(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}))
import os
V = os.path.dirname(os.path.abspath(__file__))
open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(out) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 vp.py setup', 'checks': [
    {'property': p['id'], 'quick_cmd': 'python3 vp.py check %s quick' % p['id'], 'thorough_cmd': 'python3 vp.py check %s thorough' % p['id'], 'technique': p['tech'], 'level': 'model_checking', 'level_note': p['note']}
    for p in P if p['note']], 'not_applicable': NA}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

# ---- generated part of DESIGN.md
import re, glob
exec(open(os.path.join(V, 'design.inc.py')).read())
def harness(f):
    d = {'sources': [], 'bounds': [], 'assume': [], 'variant': []}
    for l in open(f):
        x = re.match(r'//@ (\w+) (.*)', l)
        if x: d.setdefault(x[1], []).append(x[2].strip())
    return d
H = {}
for f in sorted(glob.glob(os.path.join(V, 'harness', '*.cpp'))):
    d = harness(f); H.setdefault(d['property'][0], []).append((os.path.basename(f), d))
g = []
for p in sorted(P, key=lambda p: p['id']):
    g += ['### %s %s' % (p['id'], p['title']), '']
    if not p['note']:
        g += ['Not applicable: ' + [n['reason'] for n in NA if n['property'] == p['id']][0], '']; continue
    g += ['Oracle: ' + ORACLE[p['id']], '', 'Why not tests: ' + p['why'] + '.', '']
    for n, d in H[p['id']]:
        vs = [v.split()[0] + (' (thorough tier only)' if v.endswith('thorough') else '') for v in d['variant']] or ['one variant']
        g += ['* `harness/%s` (%s)' % (n, ', '.join(vs))] + ['  bounds: ' + b for b in d['bounds']] + ['  assumptions: ' + b for b in d['assume']]
    g += ['  code: ' + ', '.join('`%s`' % x for x in p['files']), '']
F = ['* %s' % e['what'] for e in json.load(open(os.path.join(V, 'known_findings.json'))) if e['status'] == 'fixed']
K = ['* property=%s: %s' % (e['property'], e['what']) for e in json.load(open(os.path.join(V, 'known_findings.json'))) if e['status'] == 'known']
S = ['| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    j = json.load(open(d)); S.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), j['property'], j['needs'].replace('|', '/'), j.get('caught', 'P-check of its property')))
t = open(os.path.join(V, 'DESIGN.md')).read()
for name, body in (('properties', g), ('fixed', F), ('known', K), ('seeded', S)):
    t = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % name, lambda m: m[1] + '\n'.join(body) + '\n' + m[2], t, flags=re.S)
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
