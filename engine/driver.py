"""Runs the obligations of one property: encode, explore in parallel, replay."""
import os
import sys
import time
import json
import glob
import random
import signal
import subprocess
import tempfile
import traceback
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JY = '/opt/jy/jy'


def jyenv():
    e = dict(os.environ)
    e.pop('PYTHONPATH', None)
    e.pop('CLASSPATH', None)
    e['JYTHONPATH'] = '/opt/bgsite:' + REPO
    return e


def jy_dump(files):
    p = subprocess.run([JY, '-B', os.path.join(ROOT, 'engine', 'dump_ast.py')], input='\n'.join(files) + '\n',
                       capture_output=True, text=True, env=jyenv(), timeout=300)
    out = {}
    for line in p.stdout.splitlines():
        if line.startswith('{'):
            d = json.loads(line)
            out[d['file']] = d
    if p.returncode != 0 or len(out) != len(files):
        raise RuntimeError('AST dump failed: %s' % p.stderr[-2000:])
    return out


def jy_run(jobs, alias=None, timeout=120):
    """run harness jobs on the real code; one result per job"""
    d = tempfile.mkdtemp(prefix='vrun')
    try:
        fn = os.path.join(d, 'jobs.json')
        json.dump({'jobs': jobs, 'alias': alias or {}}, open(fn, 'w'))
        try:
            p = subprocess.run([JY, '-B', os.path.join(ROOT, 'engine', 'jyrun.py'), fn], capture_output=True,
                               text=True, env=jyenv(), timeout=timeout, cwd=d, stdin=subprocess.DEVNULL)
            so, se, to = p.stdout, p.stderr, False
        except subprocess.TimeoutExpired as e:
            so = (e.stdout or b'').decode('latin1')
            se, to = '', True
        res = [json.loads(l[9:]) for l in so.splitlines() if l.startswith('@@RESULT ')]
        if to and len(jobs) > 1:
            # slow machine or a run that never ends: the run in question decides alone
            n = len(res)
            if n < len(jobs):
                res += jy_run(jobs[n:n + 1], alias, 120)
                if not res[-1]['violated'] and n + 1 < len(jobs):
                    res += jy_run(jobs[n + 1:], alias, timeout)
        elif to:
            res.append({'violated': 'nontermination', 'end': 'timeout', 'trace': []})
        elif len(res) != len(jobs):
            raise RuntimeError('replay run failed: %s %s' % (so[-500:], se[-3000:]))
        return res
    finally:
        subprocess.run(['rm', '-rf', d])


def module_name(path, root):
    rel = os.path.relpath(path, root)[:-3]
    parts = rel.split(os.sep)
    pkg = parts[-1] == '__init__'
    if pkg:
        parts = parts[:-1]
    return '.'.join(parts), pkg


def gather(extra_alias):
    files = {}
    for base, dirs, fs in os.walk(os.path.join(REPO, 'bglib')):
        for f in sorted(fs):
            if f.endswith('.py') and not f.endswith('_test.py'):
                p = os.path.join(base, f)
                n, pkg = module_name(p, REPO)
                if f == '__init__.py' or n not in files:
                    files[n] = (p, pkg)
    for d in ('pylib', 'checks', 'stubs'):
        for base, dirs, fs in os.walk(os.path.join(ROOT, d)):
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(base, f)
                    n, pkg = module_name(p, os.path.join(ROOT, d))
                    files[n] = (p, pkg)
    for k, v in (extra_alias or {}).items():
        files[k] = (v, False)
    return files


SKIP = ('bglib.image.wx', 'bglib.encoding.bearoff.test', 'bglib.stat.3knockout', 'bglib.image.resource.convert')


def build_sources(alias=None):
    from . import translate
    files = gather(alias)
    files = dict((n, v) for n, v in files.items() if not n.startswith(SKIP))
    trees = jy_dump(sorted(set(p for p, _ in files.values())))
    src = {}
    for n, (p, pkg) in files.items():
        t = trees[p]
        if 'error' in t:
            src[n] = (p, pkg, compile('raise SyntaxError(%r)' % t['error'], p, 'exec'))
            continue
        label = p
        if p.startswith(REPO + '/'):
            label = '/repo/' + p[len(REPO) + 1:]
        try:
            code = translate.translate(t['tree'], label)
        except translate.Unsupported as e:
            code = compile('raise _R_limit(%r)' % ('cannot translate %s: %s' % (p, e)), p, 'exec')
        src[n] = (p, pkg, code)
    return src


# ------------------------------------------------------------------ worker
WORLD = None


def new_world(src, alias=None):
    from . import rt, shims, sym
    w = rt.World(src, shims.make())
    rt.NoFile.root = REPO + '/bglib'
    w.builtins['_R_limit'] = lambda s: sym.EngineLimit(s)
    return w


class Restart(Exception):
    """a path loaded modules: begin again with these loaded"""


def ready():
    """note the state every path starts from; one that loads modules in a path begins anew"""
    from . import rt
    rt.UNDO.clear()
    rt.remember(WORLD)
    WORLD.noted = len(WORLD.modules)


def renew():
    global WORLD
    from . import rt
    old = WORLD
    rt.BEFORE.clear()
    rt.UNDO.clear()
    WORLD = new_world(old.sources)
    for m in list(old.modules):
        WORLD.load(m)
    ready()


def harness(world, fn):
    m, _, f = fn.rpartition('.')
    mod = world.load(m)
    if mod is None:
        raise RuntimeError('no harness module ' + m)
    return getattr(mod, f)


def run_task(task, deadline):
    while True:
        try:
            return run_slice(task, deadline)
        except Restart:
            renew()


def run_slice(task, deadline):
    from . import sym, rt, ctx as cx
    ob = task['ob']
    ex = sym.Explorer(width=ob.get('width', 16), logic=ob.get('logic', 'QF_BV'),
                      max_ticks=ob.get('max_ticks', 200000), query_ms=ob.get('query_ms', 120000), deadline=deadline,
                      summarize=ob.get('summarize', True))
    ex.no_summary = set(tuple(x) for x in task.get('nosum', ()))
    ex.slice_end = time.time() + task['slice']
    ex.sum_limit = ob.get('sum_limit', ex.sum_limit)
    fn = harness(WORLD, ob['fn'])
    rnd = random.Random(task['seed'])
    samples = []

    def one(ex):
        c = cx.Ctx(ob.get('params', {}), None, ex)
        try:
            try:
                c.run(fn)
            finally:
                rt.undo()
                if len(WORLD.modules) != WORLD.noted:
                    raise Restart()
        except (sym.Steer, Restart):
            raise
        except sym.NonTermination:
            ex.ensure_model()
            raise sym.Violation('nontermination', ex.values(ex.model), 'loop bound exceeded')
        except Exception as e:
            if isinstance(e, (MemoryError,)):
                raise
            ex.ensure_model()
            raise sym.Violation('exception:' + type(e).__name__, ex.values(ex.model),
                                ''.join(traceback.format_exception(e))[-3000:])
        # a sample of the path for validation against the real interpreter
        if len(samples) < 4 or rnd.random() < 0.05:
            try:
                ex.ensure_model()
                v = ex.values(ex.random_model(rnd))
            except sym.Budget:
                raise
            except sym.Steer:
                return
            if len(samples) < 6:
                samples.append(v)
            else:
                samples[rnd.randrange(6)] = v

    res = {'ob': ob['name'], 'violation': None, 'frontier': [], 'error': None}
    try:
        v, fr = ex.run(one, prefix=[tuple(x) for x in task.get('prefix', ())], max_paths=task.get('max_paths'))
        if v is not None:
            res['violation'] = {'label': v.label, 'values': v.values, 'detail': v.detail}
        res['frontier'] = fr
    except sym.NeedReals as e:
        # once more, with a solver for every theory
        return run_task(dict(task, ob=dict(ob, logic='ALL')), deadline)
    except sym.Budget as e:
        res['error'] = 'budget: %s' % e
    except sym.EngineLimit as e:
        res['error'] = 'limit: %s' % e + ''.join(traceback.format_tb(e.__traceback__)[-8:])
    except sym.Steer as e:
        res['error'] = 'steer %s: %s' % (type(e).__name__, e) + ''.join(traceback.format_tb(e.__traceback__)[-8:])
    except RecursionError as e:
        res['error'] = 'recursion'
    res['stats'] = ex.stats.as_dict()
    res['samples'] = samples
    res['nosum'] = list(ex.no_summary)
    res['notes'] = ex.notes
    return res


def worker(inq, outq, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(30000)
    import threading
    threading.stack_size(512 * 1024 * 1024)

    def loop():
        while True:
            t = inq.get()
            if t is None:
                return
            try:
                r = run_task(t, deadline)
            except BaseException as e:
                r = {'ob': t['ob']['name'], 'violation': None, 'frontier': [], 'stats': None, 'samples': [],
                     'error': 'crash: ' + ''.join(traceback.format_exception(e))[-3000:], 'nosum': []}
            r['id'] = t['id']
            outq.put(r)
    th = threading.Thread(target=loop)
    th.start()
    th.join()


STATS = ('paths', 'dead_paths', 'queries', 'sat', 'unsat', 'unknown', 'branches', 'asserts', 'assert_queries',
         'summaries', 'summary_paths', 'limited')


def explore(src, obs, budget, jobs=None, seed=1, log=None, stop_on_violation=True):
    """run all obligations; returns dict"""
    global WORLD
    t0 = time.time()
    deadline = t0 + budget
    WORLD = new_world(src)
    # load the harness modules once, before forking
    for m in sorted(set(o['fn'].rpartition('.')[0] for o in obs)):
        WORLD.load(m)
    ready()
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
    jobs = max(1, min(jobs, os.cpu_count() or 8))
    mpx = mp.get_context('fork')
    inqs, outq = [], mpx.Queue()
    procs = []
    for i in range(jobs):
        q = mpx.SimpleQueue()
        p = mpx.Process(target=worker, args=(q, outq, deadline), daemon=True)
        p.start()
        inqs.append(q)
        procs.append(p)
    per = {}
    for o in obs:
        per[o['name']] = dict(ob=o, open=1, stats=dict((k, 0) for k in STATS), solver_s=0.0, reach={}, functions=set(),
                              samples=[], violations=[], errors=[], limits=[], done=False, nosum=set(), cpu=0.0)
    pending = [dict(ob=o, prefix=[], slice=3.0) for o in reversed(obs)]
    idle = list(range(jobs))
    running = {}
    nid = 0
    stop = False
    failed_obs = set()
    try:
        while (pending and not stop) or running:
            while pending and idle and not stop:
                t = pending.pop()
                if t['ob']['name'] in failed_obs:
                    per[t['ob']['name']]['open'] -= 1
                    continue
                w = idle.pop()
                nid += 1
                t['id'] = (nid, w)
                t['seed'] = seed * 7919 + nid
                t['nosum'] = list(per[t['ob']['name']]['nosum'])
                # small slices while there is little to share
                t['slice'] = 1.5 if len(pending) < jobs else 6.0
                running[t['id']] = (t, time.time())
                inqs[w].put(t)
            if not running:
                continue
            try:
                r = outq.get(timeout=5)
            except Exception:
                if any(not p.is_alive() for p in procs):
                    for tid, (t, _) in list(running.items()):
                        if not procs[tid[1]].is_alive():
                            per[t['ob']['name']]['errors'].append('worker died (memory?)')
                            failed_obs.add(t['ob']['name'])
                            per[t['ob']['name']]['open'] -= 1
                            del running[tid]
                if time.time() > deadline + 30:
                    for tid, (t, _) in list(running.items()):
                        per[t['ob']['name']]['errors'].append('budget: solver did not return')
                        del running[tid]
                    break
                continue
            t, ts = running.pop(tuple(r['id']))
            idle.append(t['id'][1])
            P = per[r['ob']]
            P['open'] -= 1
            P['cpu'] += time.time() - ts
            P['nosum'].update(tuple(x) for x in r['nosum'])
            if r['stats']:
                for k in STATS:
                    P['stats'][k] += r['stats'][k]
                P['solver_s'] += r['stats']['solver_s']
                P['functions'].update(r['stats']['functions'])
                for k, v in r['stats']['reach'].items():
                    P['reach'][k] = P['reach'].get(k, 0) + v
            P['samples'].extend(r['samples'])
            P['limits'].extend(r.get('notes', ()))
            if r['violation']:
                P['violations'].append(r['violation'])
                failed_obs.add(r['ob'])
                if stop_on_violation:
                    stop = True
            if r['error']:
                P['errors'].append(r['error'])
                failed_obs.add(r['ob'])
            for pre in r['frontier']:
                pending.append(dict(ob=t['ob'], prefix=pre))
                P['open'] += 1
            if P['open'] == 0 and not P['errors'] and not P['violations']:
                P['done'] = True
                if log:
                    log('%-50s %6d paths %6d queries %6.1fs' % (r['ob'], P['stats']['paths'], P['stats']['queries'],
                                                               P['cpu']))
            if time.time() > deadline:
                for t in pending:
                    P2 = per[t['ob']['name']]
                    if 'budget' not in P2['errors']:
                        P2['errors'].append('budget')
                pending = []
    finally:
        for q in inqs:
            try:
                q.put(None)
            except Exception:
                pass
        for p in procs:
            p.join(0.2)
            if p.is_alive():
                p.terminate()
    return dict(per=per, wall=time.time() - t0, stopped=stop)


def concrete_trace(ob, values):
    """run the harness on the translated code with concrete values"""
    from . import sym, rt, ctx as cx
    ex = sym.Explorer(width=ob.get('width', 16), logic=ob.get('logic', 'QF_BV'), max_ticks=2000000, summarize=False)
    old, sym.CUR = sym.CUR, ex
    c = cx.Ctx(ob.get('params', {}), dict(values), None)
    ex.pos, ex.known = 0, {}
    out = {'violated': None}
    try:
        c.run(harness(WORLD, ob['fn']))
        out['end'] = 'done'
    except sym.PathEnd:
        out['end'] = 'assume'
    except sym.Violation as e:
        out['end'], out['violated'] = 'violation', e.label
    except sym.Steer as e:
        out['end'] = 'engine:%s:%s' % (type(e).__name__, e)
    except Exception as e:
        out['end'], out['violated'] = 'exception', 'exception:' + type(e).__name__
        out['detail'] = ''.join(traceback.format_exception(e))[-2000:]
    finally:
        sym.CUR = old
        rt.undo()
    out['trace'] = c.trace
    if len(WORLD.modules) != WORLD.noted:
        renew()
        return concrete_trace(ob, values)
    return out
