#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design.tmpl, plans.py, known_findings.json and tools/seeded_results.json."""
import json, os, sys, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import plans
t = open(os.path.join(ROOT, 'tools', 'design.tmpl')).read()
man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
na = dict((x['property'], x['reason']) for x in man['not_applicable'])
out = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in na:
        out.append('Not claimed: %s\n' % na[i])
        continue
    pl = plans.PLANS[i]
    if pl.get('how'):
        out.append(pl['how'] + '\n')
    out.append('Bounds: %s.\n' % pl['bounds'])
    if pl.get('outside'):
        out.append('Outside: %s.\n' % pl['outside'])
    for a in pl.get('assumptions', ()):
        out.append('Assumes: %s\n' % a)
t = t.replace('@@PROPS@@', '\n'.join(out))
kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
fx = ['* ' + x[len('fixed: '):] for x in kf['fixed']]
if kf['findings']:
    fx.append('\nRecorded, not repaired:\n')
    fx += ['* %s (%s): %s' % (e['id'], e['property'], e['text']) for e in kf['findings']]
t = t.replace('@@FIXED@@', '\n'.join(fx))
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
rp = os.path.join(ROOT, 'tools', 'seeded_results.json')
res = json.load(open(rp)) if os.path.exists(rp) else {}
for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    s = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    r = res.get(s, {})
    rows.append('| %s | %s | %s | %s |' % (s, d['property'], d['needs'].replace('|', '/'),
                                           ', '.join(sorted(k for k, v in r.items() if v == 1)) or
                                           ('missed' if r else 'not run')))
t = t.replace('@@SEEDED@@', '\n'.join(rows))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(t)
