#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plans.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import plans
NA = {}
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if i in plans.PLANS and not plans.PLANS[i].get('unclaimed'):
        pl = plans.PLANS[i]
        checks.append(dict(property=i, quick_cmd='python3-vt run.py %s --tier quick' % i,
                           thorough_cmd='python3-vt run.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='symbolic execution of the translated Python source, decided by z3; '
                                     'counterexamples replayed on the real interpreter',
                           level='model_checking',
                           level_note=('bounds: %s.%s' % (pl['bounds'], ' Outside: %s.' % pl['outside']
                                                          if pl.get('outside') else ''))[:1500]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && test -x /opt/jy/jy', checks=checks, not_applicable=na,
         notes='Each run re-encodes /repo; see DESIGN.md. Genuine defects: known_findings.json and the fix: commits.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
