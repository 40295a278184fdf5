#!/usr/bin/env python3-vt
"""python3-vt run.py PROPERTY [--tier quick|thorough] [--only NAME]

Encodes the real code of /repo, explores the property's obligations, replays
counterexamples on the real interpreter and writes evidence/PROPERTY.json.
exit 0: every obligation discharged; 1: VIOLATION; 2: no verdict."""
import os
import sys
import json
import time
import argparse
import fnmatch
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)


def load_known(prop):
    """[(id, obligation, values, text)] of recorded findings"""
    out = []
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p))['findings']:
            if e['property'] == prop and not e.get('fixed'):
                out.append(e)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--only', default=None)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from engine import driver
    import plans
    plan = plans.PLANS[a.property]
    obs = []
    known = load_known(a.property)
    for o in plan['obligations'](tier):
        o = dict(o)
        o.setdefault('params', {})
        o['params'] = dict(o['params'])
        if known:
            o['params']['known'] = [e['id'] for e in known]
        for k in ('width', 'logic', 'max_ticks', 'query_ms', 'summarize', 'sum_limit'):
            if k in plan:
                o.setdefault(k, plan[k])
        # asked again: the same after the harness ran once for other inputs in the same process
        two = any(fnmatch.fnmatchcase(o['name'], x) for x in os.environ.get('VERIF_AGAIN', '').split() or plan.get('again', ()))
        before = plan.get('before') and plan['before'](o['name'], o['params']) or {}
        for o in (o, dict(o, name=o['name'] + '-again', params=dict(o['params'], again=1, before=before)))[:2 if two else 1]:
            if not a.only or a.only in o['name']:
                obs.append(o)
    budget = a.budget or plan.get('budget', {}).get(tier, 500 if tier == 'quick' else 3000)
    alias = plan.get('alias', {})
    alias = dict((k, v.replace('/repo', driver.REPO)) for k, v in alias.items())

    def log(s):
        print(s)
        sys.stdout.flush()

    log('%s (%s): encoding the current source of %s' % (a.property, tier, driver.REPO))
    src = driver.build_sources(alias)
    log('  %d modules translated, %.1fs' % (len(src), time.time() - t0))
    res = driver.explore(src, obs, budget, seed=seed, log=lambda s: log('  ' + s))
    per = res['per']

    violations, errors, optional = [], [], []
    for n, P in per.items():
        for v in P['violations']:
            violations.append((P['ob'], v))
        if P['errors'] and not P['violations']:
            (optional if P['ob'].get('optional') else errors).append((n, P['errors'][0]))
        elif not P['done'] and not P['violations'] and not res['stopped']:
            (optional if P['ob'].get('optional') else errors).append((n, 'not finished'))
        elif P['stats']['limited'] and not P['violations']:
            errors.append((n, 'limit: %d paths left undecided: %s' % (P['stats']['limited'], P['limits'][:3])))

    # ---- counterexamples are replayed on the real code
    rdir = os.path.join(ROOT, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    confirmed, spurious = [], []
    for ob, v in violations:
        job = dict(fn=ob['fn'], params=ob.get('params', {}), values=v['values'])
        r = driver.jy_run([job], alias, timeout=90)[0]
        name = '%s-%s.json' % (a.property, ''.join(c if c.isalnum() else '_' for c in ob['name']))
        path = os.path.join(rdir, name)
        rec = dict(property=a.property, obligation=ob['name'], fn=ob['fn'], params=ob.get('params', {}),
                   values=v['values'], label=v['label'], alias=alias, real=r, detail=v['detail'],
                   how='python3-vt /verif/replay.py %s' % path)
        json.dump(rec, open(path, 'w'), indent=1)
        if r['violated']:
            confirmed.append((ob, v, path, r))
        else:
            spurious.append((ob, v, path, r))

    # ---- path samples: the encoding against the real interpreter
    jobs, meta = [], []
    per_ob = max(2, 240 // max(1, len(per)))
    for n, P in per.items():
        seen = []
        for s in P['samples']:
            if s not in seen:
                seen.append(s)
        for s in seen[:per_ob]:
            jobs.append(dict(fn=P['ob']['fn'], params=P['ob'].get('params', {}), values=s))
            meta.append(P['ob'])
    validated, disagreements, samples = 0, [], []
    if not confirmed and jobs and not plan.get('no_validation'):
        real = driver.jy_run(jobs, alias, timeout=200)
        while len(real) < len(jobs):
            real.append({'violated': None, 'end': 'lost', 'trace': []})
        alone = 0
        for job, ob, r in zip(jobs, meta, real):
            e = driver.concrete_trace(ob, job['values'])
            if (alone < 20 or r['violated'] and alone < 60) and (r['violated'] or e['end'] != r['end'] or not plans_equal(e['trace'], r['trace'])):
                # a sample run may have left something behind for the next: once more, in a process of its own
                alone += 1
                r = driver.jy_run([job], alias, timeout=90)[0]
            elif r['violated']:
                continue
            if r['violated']:
                # the encoding found nothing here, the real run does
                name = '%s-%s-sample.json' % (a.property, ''.join(c if c.isalnum() else '_' for c in ob['name']))
                path = os.path.join(rdir, name)
                json.dump(dict(property=a.property, obligation=ob['name'], fn=job['fn'], params=job['params'],
                               values=job['values'], label=r['violated'], alias=alias, real=r,
                               how='python3-vt /verif/replay.py %s' % path), open(path, 'w'), indent=1)
                confirmed.append((ob, dict(label=r['violated'], values=job['values'], detail=''), path, r))
                break
            if e['end'] == r['end'] and plans_equal(e['trace'], r['trace']):
                validated += 1
                if len(samples) < 12:
                    samples.append(dict(obligation=ob['name'], inputs=job['values'], trace=short(r['trace'])))
            else:
                disagreements.append((ob['name'], job, e, r))

    # ---- vacuity: every obligation's reach labels were reached
    vac = []
    for n, P in per.items():
        if P['done'] and not P['ob'].get('optional') and not P['stats']['limited']:
            if P['stats']['paths'] == 0:
                vac.append('%s: no complete path' % n)
            for l in P['ob'].get('reach', plan.get('reach', ())):
                if not P['reach'].get(l):
                    vac.append('%s: %s never reached' % (n, l))

    # ---- recorded findings still present?
    for e in known:
        job = dict(fn=e['fn'], params=e.get('params', {}), values=e['values'])
        r = driver.jy_run([job], alias, timeout=90)[0]
        if r['violated']:
            print('KNOWN-FINDING: property=%s %s' % (a.property, e['text']))

    tot = lambda k: sum(P['stats'][k] for P in per.values())
    funcs = set()
    for P in per.values():
        funcs |= P['functions']
    funcs = sorted(f for f in funcs if not f.startswith('verif/') and ':' in f)
    wall = time.time() - t0
    ev = dict(property=a.property, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2),
              violations=len(confirmed),
              assumptions=list(plan.get('assumptions', [])) + plans.COMMON_ASSUMPTIONS,
              coverage=dict(states=tot('paths') + tot('dead_paths') + tot('summary_paths'),
                            transitions=tot('branches') + tot('asserts'),
                            traces_validated_against_impl=validated, samples=samples,
                            technique='symbolic execution of the translated real code, z3 deciding every branch and '
                                      'assertion',
                            functions_encoded=funcs, bounds=plan['bounds'],
                            outside_the_claim=plan.get('outside', ''),
                            obligations=len(per), obligations_discharged=sum(1 for P in per.values() if P['done'] and not P['stats']['limited']),
                            paths=tot('paths'), merged_call_paths=tot('summary_paths'),
                            solver_queries=tot('queries'), unsat=tot('unsat'), sat=tot('sat'), unknown=tot('unknown'),
                            assertions_checked=tot('asserts'), assertion_queries=tot('assert_queries'),
                            solver_seconds=round(sum(P['solver_s'] for P in per.values()), 2),
                            reach=dict((n, P['reach']) for n, P in per.items()) if len(per) < 60 else
                            dict((l, sum(P['reach'].get(l, 0) for P in per.values()))
                                 for l in set(l for P in per.values() for l in P['reach'])),
                            not_completed=[dict(obligation=n, why=e[:300]) for n, e in optional + errors],
                            undecided_paths=tot('limited'),
                            exhaustive=False))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', a.property + '.json'), 'w'), indent=1)

    for n, e in optional:
        log('  not completed within the budget (deeper bound): %s: %s' % (n, e.splitlines()[0]))
    log('  %d obligations, %d paths (+%d merged), %d queries, %d unsat, solver %.1fs, %d traces validated, wall %.1fs'
        % (len(per), tot('paths'), tot('summary_paths'), tot('queries'), tot('unsat'),
           ev['coverage']['solver_seconds'], validated, wall))
    if confirmed:
        for ob, v, path, r in confirmed:
            log('  obligation %s: %s' % (ob['name'], r['violated']))
            log('    inputs: %s' % json.dumps(v['values'])[:1500])
            if r.get('detail'):
                log('    ' + r['detail'][-600:].replace('\n', '\n    '))
            print('VIOLATION property=%s replay=%s' % (a.property, path))
        return 1
    bad = False
    for ob, v, path, r in spurious:
        bad = True
        log('  INCONCLUSIVE %s: %s found in the encoding does not happen on the real code (%s)\n    %s\n%s' %
            (ob['name'], v['label'], r['end'], json.dumps(v['values'])[:1500], v['detail'][-1500:]))
    undecided = False
    for n, e in errors:
        soft = e.startswith(('limit', 'budget', 'not finished'))
        P = per[n]
        if soft and P['stats']['paths'] + P['stats']['summary_paths'] > 0:
            # part of the obligation was explored and held there
            undecided = True
            log('  UNDECIDED %s: %s' % (n, e))
        else:
            bad = True
            log('  INCONCLUSIVE %s: %s' % (n, e))
    for n, job, e, r in disagreements[:3]:
        bad = True
        log('  INCONCLUSIVE %s: encoding and real code differ on %s\n    enc  %s %s\n    real %s %s' % (
            n, json.dumps(job['values'])[:800], e['end'], json.dumps(e['trace'])[:1500], r['end'],
            json.dumps(r['trace'])[:1500]))
        if e.get('detail'):
            log(e['detail'])
        if r.get('detail'):
            log(r['detail'])
    for s in vac:
        bad = True
        log('  INCONCLUSIVE vacuous: ' + s)
    if bad:
        return 2
    log('%s holds %s' % (a.property, 'on the part explored; see UNDECIDED above' if undecided else
                         'within the stated bounds'))
    return 0


def plans_equal(a, b):
    if a == b:
        return True
    return json.dumps(a) == json.dumps(b)


def short(t):
    s = json.dumps(t)
    return t if len(s) < 600 else s[:600]


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
