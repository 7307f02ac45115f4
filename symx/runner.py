"""Runs one property's cases: symbolic exploration in parallel workers, then
concrete replay / validation on the real build in fresh processes."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Case(object):
    def __init__(self, name, fn, bounds='', max_paths=20000, replay=True,
                 scale=1.0, known=None, tol=1e-6, weight=1, tries=40,
                 expect_nochecks=False):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.max_paths = max_paths
        self.replay = replay
        self.scale = scale
        self.tol = tol
        self.known = known
        self.weight = weight
        self.tries = tries
        self.expect_nochecks = expect_nochecks


def load_check(pid):
    return importlib.import_module('checks.' + pid.lower())


def known_findings(pid):
    path = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d['property'] == pid and d.get('status') == 'open':
                    out.append(d)
    return out


def match_known(known, case, label):
    for k in known:
        if k['case'] == case and k['label'] in label:
            return k
    return None


# ------------------------------------------------------------ symbolic ------
def explore(case, deadline):
    from symx import core
    from symx.ctx import SymCtx, Violation, Inconclusive
    import z3
    e = core.set_engine(core.Engine())
    res = {'case': case.name, 'bounds': case.bounds, 'violation': None,
           'inconclusive': None, 'witness': None, 'functions': [],
           'checks': 0, 'dead': 0, 'fallback': []}
    funcs = set()
    t0 = time.time()

    def prof(frame, event, arg):
        if event == 'call':
            c = frame.f_code
            f = c.co_filename
            if f.startswith(REPO + '/brainstorm') and '/tests/' not in f:
                funcs.add('%s:%s' % (f[len(REPO) + 1:], c.co_qualname))
            elif f.startswith('<translated'):
                funcs.add('brainstorm/handlers/_cpuop.pyx:' + c.co_name)
    while True:
        e.reset_path()
        ctx = SymCtx(e)
        first = e.stats.paths < 3
        try:
            if first:
                sys.setprofile(prof)
            try:
                case.fn(ctx)
            finally:
                if first:
                    sys.setprofile(None)
            e.stats.paths += 1
            if ctx.nchecks == 0 and not case.expect_nochecks:
                res['noassert'] = res.get('noassert', 0) + 1
            res['checks'] += ctx.nchecks
            if res['witness'] is None or e.stats.paths in (2, 5, 11):
                # vacuity guard: the path must be reachable
                pins = ctx.pins()
                for p in pins + [[]]:
                    r, m = e.query(*p)
                    if r == z3.sat:
                        break
                if r == z3.sat:
                    v = ctx.values_from(m)
                    res['witness'] = res['witness'] or v
                    res['witness_last'] = v
        except core.Infeasible:
            res['dead'] += 1
        except Violation as v:
            res['violation'] = {'label': v.label, 'values': v.values,
                                'shape': shape_of(v.values)}
            break
        except Inconclusive as v:
            res['inconclusive'] = str(v)
            break
        except core.PathLimit as v:
            res['inconclusive'] = 'path limit: %s' % v
            break
        except Exception as ex:
            # the code under test (or the harness) raised: candidate
            r, m = e.query()
            tb = traceback.format_exc()
            if harness_error(ex):
                res['inconclusive'] = 'harness: ' + tb[-1500:]
            elif r == z3.sat:
                res['violation'] = {
                    'label': 'raises %s: %s' % (type(ex).__name__, ex),
                    'values': ctx.values_from(m), 'tb': tb[-3000:]}
            elif r == z3.unsat:
                res['dead'] += 1
                if not e.backtrack():
                    break
                continue
            else:
                res['inconclusive'] = 'exception on a path of unknown ' \
                    'feasibility: ' + tb[-1500:]
            break
        if not e.backtrack():
            break
        if e.stats.paths >= case.max_paths or time.time() > deadline:
            res['inconclusive'] = 'exploration budget exceeded after %d ' \
                'paths' % e.stats.paths
            break
    res.update(paths=e.stats.paths, queries=e.stats.queries,
               forks=e.stats.forks, asserts=e.stats.asserts,
               solver_s=e.stats.solver_s, unknown=e.stats.unknown,
               wall_s=time.time() - t0, functions=sorted(funcs))
    if not res['violation'] and not res['inconclusive']:
        if e.stats.paths == 0:
            res['inconclusive'] = 'vacuous: no feasible path'
        elif res['witness'] is None:
            res['inconclusive'] = 'no reachability witness'
        elif res['checks'] == 0 and not case.expect_nochecks:
            res['inconclusive'] = 'vacuous: no assertion reached'
    return res


def shape_of(values):
    return None


def _worker(args):
    pid, tier, name, deadline = args
    mod = load_check(pid)
    case = [c for c in mod.cases(tier) if c.name == name][0]
    try:
        return explore(case, deadline)
    except BaseException:
        return {'case': name, 'bounds': case.bounds, 'violation': None,
                'inconclusive': 'worker error: ' + traceback.format_exc(),
                'witness': None, 'functions': [], 'paths': 0, 'queries': 0,
                'forks': 0, 'asserts': 0, 'solver_s': 0, 'unknown': 0,
                'checks': 0, 'dead': 0, 'wall_s': 0}


# ------------------------------------------------------------ concrete ------
def run_concrete(case, values, seed, keep_reals=True):
    """-> (status, label, used) status in ok / fail / skip"""
    from symx.ctx import ConcCtx, Failure, Skip
    v = dict(values)
    if not keep_reals:
        v = {k: x for k, x in v.items() if not isinstance(x, float)}
    ctx = ConcCtx(v, seed=seed, tol=case.tol, scale=case.scale)
    import numpy as np
    try:
        with np.errstate(all='ignore'):
            case.fn(ctx)
        return 'ok', '', ctx.used, ctx.nchecks
    except Skip as s:
        return 'skip', str(s), ctx.used, ctx.nchecks
    except Failure as f:
        return 'fail', str(f), ctx.used, ctx.nchecks
    except Exception as ex:
        label = 'raises %s: %s' % (type(ex).__name__, ex)
        if harness_error(ex):
            return 'error', 'harness ' + label, ctx.used, ctx.nchecks
        return 'fail', label, ctx.used, ctx.nchecks


def harness_error(ex):
    """The harness, not the code under test, raised: the harness does not fit
    this tree (renamed internals and the like) - that decides nothing."""
    from symx.ctx import Inconclusive
    if isinstance(ex, (ImportError, Inconclusive, MemoryError)):
        return True
    tb = ex.__traceback__
    last = None
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(HERE) or f.startswith(REPO):
            last = f
        tb = tb.tb_next
    return last is None or last.startswith(HERE)


def concrete_main(spec_path, out_path):
    """subprocess: spec = {so, pid, tier, jobs:[{case, mode, values}]}"""
    spec = json.load(open(spec_path))
    sys.path.insert(0, HERE)
    from symx import loader
    loader.load_conc(spec['so'])
    mod = load_check(spec['pid'])
    cases = {c.name: c for c in mod.cases(spec['tier'])}
    out = []
    for job in spec['jobs']:
        case = cases[job['case']]
        vals = job['values']
        # JSON keeps ints and floats apart; reals are always floats
        r = {'case': job['case'], 'mode': job['mode']}
        st, label, used, n = run_concrete(case, vals, 0)
        r.update(status=st, label=label, values=used, checks=n)
        if job['mode'] in ('replay', 'probe') and st != 'fail':
            for k in range(case.tries):
                st, label, used, n = run_concrete(case, vals, k + 1,
                                                  keep_reals=False)
                if st == 'fail':
                    r.update(status=st, label=label, values=used, checks=n)
                    break
            else:
                for k in range(case.tries):
                    st, label, used, n = run_concrete(case, {}, k + 1)
                    if st == 'fail':
                        r.update(status=st, label=label, values=used,
                                 checks=n)
                        break
        out.append(r)
    json.dump(out, open(out_path, 'w'))


def concrete(pid, tier, jobs, tmp, so, timeout):
    spec = os.path.join(tmp, 'spec-%d.json' % random.getrandbits(40))
    out = spec + '.out'
    json.dump({'so': so, 'pid': pid, 'tier': tier, 'jobs': jobs},
              open(spec, 'w'))
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               MPLBACKEND='Agg', OMP_NUM_THREADS='1')
    try:
        p = subprocess.run([sys.executable, os.path.join(HERE, 'check'),
                            '--concrete', spec, out], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        log = p.stdout.decode(errors='replace')[-3000:]
        if not os.path.exists(out):
            return None, 'exit %d: %s' % (p.returncode, log)
        return json.load(open(out)), log
    except subprocess.TimeoutExpired:
        return None, 'timeout'


# --------------------------------------------------------------- main -------
def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--concrete', nargs=2)
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--strict', action='store_true',
                    help='exit 2 when any case is undecided')
    a = ap.parse_args(argv)
    if a.concrete:
        concrete_main(*a.concrete)
        return 0
    pid = a.property
    tier = a.tier
    if a.replay:
        return replay_file(pid, a.replay)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    budget = a.budget or (420 if tier == 'quick' else 10800)
    t0 = time.time()
    from symx import loader
    tmp = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    try:
        return run(pid, tier, seed, budget, t0, tmp, a, loader)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, tier, seed, budget, t0, tmp, a, loader):
    # the concrete build runs in the background while the solver works
    bdir = os.path.join(tmp, 'ext')
    os.mkdir(bdir)
    builder = subprocess.Popen(
        [sys.executable, '-c',
         'import sys; sys.path.insert(0, %r)\n'
         'from symx import loader\nprint(loader.build_ext(%r))'
         % (HERE, bdir)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        loader.load_sym()
    except Exception:
        traceback.print_exc()
        print('ERROR: the code does not load')
        return 2
    mod = load_check(pid)
    cases = mod.cases(tier)
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), names
    deadline = t0 + budget
    order = sorted(cases, key=lambda c: -c.weight)
    with mp.get_context('fork').Pool(min(a.jobs, len(cases)),
                                     maxtasksperchild=1) as pool:
        results = []
        pend = [(c.name, pool.apply_async(_worker, ((pid, tier, c.name, deadline),)))
                for c in order]
        fast = os.environ.get('VERIF_FAST') and known_findings(pid)
        while isinstance(fast, list) and pend:
            # development only: stop at the first violation
            ready = [x for x in pend if x[1].ready()]
            for nm, r in ready:
                results.append(r.get())
                pend.remove((nm, r))
            if any(r['violation'] and not match_known(
                    fast, r['case'], r['violation']['label'])
                    for r in results) or time.time() > deadline:
                pend = []
            time.sleep(0.05)
        for nm, r in pend:
            try:
                results.append(r.get(timeout=max(5, deadline + 30 - time.time())))
            except mp.TimeoutError:
                results.append({
                    'case': nm, 'bounds': '', 'violation': None,
                    'inconclusive': 'timeout', 'witness': None,
                    'functions': [], 'paths': 0, 'queries': 0, 'forks': 0,
                    'asserts': 0, 'solver_s': 0, 'unknown': 0, 'checks': 0,
                    'dead': 0, 'wall_s': 0})
        pool.terminate()
    byname = {c.name: c for c in cases}
    if a.v:
        for r in sorted(results, key=lambda r: -r['wall_s']):
            print('  %-40s paths %5d asserts %6d queries %6d solver %7.1fs '
                  'wall %7.1fs %s' % (
                      r['case'], r['paths'], r['asserts'], r['queries'],
                      r['solver_s'], r['wall_s'],
                      'VIOL ' + r['violation']['label'][:200]
                      if r['violation'] else
                      ('INC ' + r['inconclusive'][-1500:]
                       if r['inconclusive'] else '')))
            if a.v and r['violation'] and r['violation'].get('tb'):
                print(r['violation']['tb'])
    bout = builder.communicate()[0].decode(errors='replace').strip()
    if builder.returncode:
        print(bout)
        print('ERROR: the extension does not build')
        return 2
    so = bout.splitlines()[-1]

    jobs = []
    for r in results:
        c = byname[r['case']]
        if r['violation']:
            jobs.append({'case': r['case'], 'mode': 'replay',
                         'values': r['violation']['values']})
        elif r['inconclusive'] and c.replay:
            jobs.append({'case': r['case'], 'mode': 'probe',
                         'values': r['witness'] or {}})
        elif r['witness'] is not None and c.replay:
            jobs.append({'case': r['case'], 'mode': 'witness',
                         'values': r['witness']})
            if r.get('witness_last') not in (None, r['witness']):
                jobs.append({'case': r['case'], 'mode': 'witness',
                             'values': r['witness_last']})
    # split the concrete work over processes
    nproc = max(1, min(a.jobs, len(jobs)))
    chunks = [jobs[i::nproc] for i in range(nproc)]
    from concurrent.futures import ThreadPoolExecutor
    conc, errs = [], []
    with ThreadPoolExecutor(nproc) as ex:
        for out, log in ex.map(lambda ch: concrete(pid, tier, ch, tmp, so, 200),
                               [c for c in chunks if c]):
            if out is None:
                errs.append(log)
            else:
                conc.extend(out)
    known = known_findings(pid)
    vdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(vdir, exist_ok=True)
    violations, found_known, unrepro = [], [], []
    validated = 0
    for r in conc:
        if r['status'] == 'ok' and r['mode'] == 'witness':
            validated += 1
        if r['status'] == 'fail':
            k = match_known(known, r['case'], r['label'])
            if k:
                found_known.append((k, r))
            else:
                violations.append(r)
        elif r['mode'] == 'replay':
            unrepro.append(r)
    inconc = [r for r in results if r['inconclusive']]
    rc = 0
    for k, r in found_known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for r in violations:
        path = os.path.join(vdir, '%s-%s.json' % (
            pid, ''.join(ch if ch.isalnum() else '_' for ch in r['case'])))
        json.dump({'property': pid, 'tier': tier, 'case': r['case'],
                   'label': r['label'], 'values': r['values'],
                   'how': '/verif/check %s --replay %s' % (pid, path)},
                  open(path, 'w'), indent=1)
        print('  case %s: %s' % (r['case'], r['label'][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    undecided = {}
    for r in unrepro:
        sv = [x for x in results if x['case'] == r['case']][0]
        undecided[r['case']] = (
            'counterexample not confirmed on the real build (%s; concrete: '
            '%s %s)' % (sv['violation']['label'][:500], r['status'],
                        r['label'][:200]))
        if a.v and sv['violation'].get('tb'):
            print(sv['violation']['tb'])
    for r in inconc:
        undecided[r['case']] = r['inconclusive']
    if errs:
        for r in jobs:
            if not any(c['case'] == r['case'] for c in conc):
                undecided[r['case']] = 'concrete run failed: %s' % errs[0]
    for v in violations:
        undecided.pop(v['case'], None)
    for k, r in found_known:
        undecided.pop(r['case'], None)
    for c, why in sorted(undecided.items()):
        print('PARTIAL: case %s undecided: %s' % (c, why))
    if rc == 0 and undecided and (a.strict or
                                  2 * len(undecided) >= len(results)):
        print('ERROR: %d of %d cases undecided' % (len(undecided),
                                                   len(results)))
        rc = 2
    wall = time.time() - t0
    tot = lambda k: sum(r[k] for r in results)
    funcs = sorted(set(f for r in results for f in r['functions']))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': tot('paths'),
            'transitions': tot('forks'),
            'traces_validated_against_impl': validated,
            'samples': [{'case': r['case'], 'bounds': r['bounds'],
                         'paths': r['paths'], 'asserts': r['asserts'],
                         'witness': trunc(r['witness'])}
                        for r in results[:6]],
            'exhaustive': rc == 0 and not undecided,
            'undecided_cases': undecided,
            'functions_encoded': funcs,
            'queries': tot('queries'),
            'assertions_discharged': tot('asserts'),
            'solver_seconds': round(tot('solver_s'), 2),
            'solver_unknown': tot('unknown'),
            'cases': [{'case': r['case'], 'bounds': r['bounds'],
                       'paths': r['paths'], 'asserts': r['asserts'],
                       'queries': r['queries'],
                       'infeasible_paths': r['dead'],
                       'solver_s': round(r['solver_s'], 2),
                       'result': 'undecided' if r['case'] in undecided else
                       'violated' if r['violation'] else 'holds'}
                      for r in sorted(results, key=lambda r: r['case'])],
            'explanation': 'states = symbolic paths completed, transitions ='
            ' solver-decided forks; every path of every case is explored; '
            'assertions are discharged by z3 over all values of the symbolic'
            ' inputs within the stated bounds.',
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            c for c in COMMON if not (getattr(mod, 'FLOATS', False) and
                                      c.startswith('float arith'))],
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d cases, %d paths, %d assertions, %d queries, solver '
          '%.1fs, %d traces validated, wall %.1fs -> %s' % (
              pid, tier, len(results), tot('paths'), tot('asserts'),
              tot('queries'), tot('solver_s'), validated, wall,
              {0: 'holds', 1: 'VIOLATED', 2: 'ERROR'}[rc]))
    return rc


COMMON = [
    'float arithmetic is encoded as exact real arithmetic; rounding is '
    'outside the claim',
    'exp/log/sqrt/tanh are uninterpreted up to sign, range, monotonicity, '
    's*s=x and their derivative rules',
    'z3 and CPython/numpy object-array dispatch are trusted',
]


def selftest():
    """setup_cmd: the tools the checks need are there and the engine decides"""
    import z3
    x = z3.Real('x')
    s = z3.Solver()
    s.add(x * x < 0)
    assert s.check() == z3.unsat
    import numpy
    import Cython
    assert shutil.which('gcc'), 'gcc missing'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    from symx import xfloat
    bad = xfloat.selftest()
    assert not bad, bad[:10]
    print('selftest ok: z3 %s numpy %s cython %s' % (
        z3.get_version_string(), numpy.__version__, Cython.__version__))
    return 0


def trunc(w):
    if not w:
        return w
    return dict(list(w.items())[:12])


def replay_file(pid, path):
    d = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix='vp-replay-')
    try:
        from symx import loader
        so = loader.build_ext(tmp)
        out, log = concrete(pid, d.get('tier', 'quick'),
                            [{'case': d['case'], 'mode': 'witness',
                              'values': d['values']}], tmp, so, 200)
        print(json.dumps(out, indent=1)[:4000], log)
        if out and out[0]['status'] == 'fail':
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
