#!/usr/bin/env python3
"""Decide one property: discharge every obligation of its units against /repo's current source,
run the bounded replay harness on the untransformed code, write evidence, print the verdict."""
import argparse
import importlib
import json
import multiprocessing
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('PYVC_EVIDENCE', os.path.join(HERE, 'evidence'))
sys.path.insert(0, HERE)
VENV_PY = '/opt/venv/bin/python'
WALL = {'quick': 420, 'thorough': 840}


def where(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    return ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-8:]))


def run_unit(args):
    """In a forked worker: one unit, all paths, all obligations."""
    prop, index = args
    from pyvc import api, core
    u = [x for x in api.UNITS if x.prop == prop][index]
    t = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    ex = core.Explorer(u.name, budget_s=u.budget * (1 if tier == 'quick' else 3))
    res = dict(unit=u.name, targets=u.targets, assumes=u.assumes, status='decided', why='')
    try:
        ex.explore(u.fn)
        if ex.unsupported:
            exc = ex.unsupported[0][0]
            res.update(status='partial', why='%d of %d paths: %s: %s [%s]' % (
                len(ex.unsupported), ex.paths, type(exc).__name__, exc, where(exc)))
        elif not ex.obligations:
            res.update(status='undecided', why='no obligation generated')
        elif not ex.completed and not ex.obligations:
            res.update(status='undecided', why='no path completed')
    except core.EngineExc as exc:
        res.update(status='undecided', why='%s: %s [%s]' % (type(exc).__name__, exc, where(exc)))
    except BaseException as exc:
        res.update(status='undecided', why='harness: %r\n%s' % (exc, traceback.format_exc()[-1500:]))
    obs = {}
    for o in ex.obligations:
        d = obs.setdefault(o.name, dict(name=o.name, instances=0, proved=0, refuted=0, unknown=0,
                                        solvers={}, models=[], details=[]))
        d['instances'] += 1
        d[o.status] += 1
        d['solvers'][o.solver] = d['solvers'].get(o.solver, 0) + 1
        if o.status == 'refuted' and len(d['models']) < 2:
            d['models'].append(o.model)
            d['details'].append(o.detail)
    res.update(obligations=list(obs.values()), paths=ex.paths, completed=ex.completed, passes=ex.passes,
               queries=ex.queries, solver_s=round(ex.solver_time, 3), wall_s=round(time.time() - t, 3),
               loops_cut=sorted(ex.loops_cut), cvc5=ex.cvc5)
    return res


def run_units(prop, only=None):
    from pyvc import loader
    loader.install()
    err = None
    try:
        importlib.import_module('contracts.' + prop.lower())
    except BaseException:
        err = traceback.format_exc()[-3000:]
        return [], err, loader.STATS
    from pyvc import api
    mine = [x for x in api.UNITS if x.prop == prop]
    out = []
    jobs = [(prop, i) for i in range(len(mine)) if not only or only in mine[i].name]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(8, max(1, len(jobs))), maxtasksperchild=1) as pool:
        rs = [(j, pool.apply_async(run_unit, (j,))) for j in jobs]
        end = time.time() + WALL[os.environ.get('VERIF_TIER', 'quick')]
        for j, r in rs:
            try:
                out.append(r.get(timeout=max(1, end - time.time())))
            except multiprocessing.TimeoutError:
                u = mine[j[1]]
                out.append(dict(unit=u.name, targets=u.targets, assumes=u.assumes, status='undecided',
                                why='wall clock', obligations=[], paths=0, completed=0, passes=0,
                                queries=0, solver_s=0, wall_s=0, loops_cut=[], cvc5=0))
            except Exception as exc:
                u = mine[j[1]]
                out.append(dict(unit=u.name, targets=u.targets, assumes=u.assumes, status='undecided',
                                why='worker: %r' % exc, obligations=[], paths=0, completed=0, passes=0,
                                queries=0, solver_s=0, wall_s=0, loops_cut=[], cvc5=0))
        pool.terminate()
    return out, None, loader.STATS


def list_targets(prop):
    from pyvc import loader
    loader.install()
    importlib.import_module('contracts.' + prop.lower())
    from pyvc import api
    print(json.dumps(sorted({t for x in api.UNITS if x.prop == prop for t in x.targets})))


def run_bounded(prop, seed, tier):
    path = os.path.join(HERE, 'bounded', prop.lower() + '.py')
    if not os.path.exists(path):
        return None
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1')
    py = VENV_PY if os.path.exists(VENV_PY) else sys.executable
    try:
        r = subprocess.run([py, os.path.join(HERE, 'bounded', 'main.py'), prop.lower()], env=env,
                           capture_output=True, text=True, timeout=WALL[tier], cwd='/')
    except subprocess.TimeoutExpired as exc:
        return dict(error='bounded harness exceeded its wall clock', failures=[], evaluations=0,
                    tail=str(exc.stdout)[-500:])
    for line in reversed(r.stdout.splitlines()):
        if line.startswith('RESULT '):
            return json.loads(line[7:])
    return dict(error='bounded harness ended without a result (rc %s): %s' % (r.returncode, r.stderr[-1500:]),
                failures=[], evaluations=0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--unit')
    ap.add_argument('--no-bounded', action='store_true')
    ap.add_argument('--no-vc', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--list-targets', action='store_true')
    a = ap.parse_args()
    prop = a.prop.upper()
    if a.list_targets:
        list_targets(prop)
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in WALL:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    proc = None
    # the bounded harness runs beside the proofs
    import threading
    box = {}

    def bg():
        box['r'] = run_bounded(prop, seed, tier)
    if not a.no_bounded:
        proc = threading.Thread(target=bg)
        proc.start()
    units, import_err, stats = ([], None, {}) if a.no_vc else run_units(prop, a.unit)
    if proc:
        proc.join()
    b = box.get('r')

    kf = []
    kfp = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kfp):
        with open(kfp) as f:
            kf = [k for k in json.load(f)['findings'] if k['property'] == prop and k.get('status') == 'open']
    known = {k['key']: k for k in kf}
    seen_known = {}

    refuted, undecided = [], []
    total = disch = 0
    if import_err:
        undecided.append(dict(unit='<import>', why=import_err))
    for u in units:
        if u['status'] != 'decided':
            undecided.append(dict(unit=u['unit'], why=u['why']))
        for o in u['obligations']:
            total += o['instances']
            disch += o['proved']
            key = '%s/%s' % (u['unit'], o['name'])
            if o['refuted']:
                if key in known:
                    seen_known[key] = known[key]
                elif u['status'] in ('decided', 'partial'):
                    refuted.append(dict(unit=u['unit'], obligation=o['name'], targets=u['targets'],
                                        models=o['models'], details=o['details'],
                                        instances=o['refuted']))
            if o['unknown']:
                undecided.append(dict(unit=u['unit'], why='solver answered unknown: ' + o['name']))
    failures = []
    if b:
        for fl in b.get('failures', []):
            if fl['key'] in known:
                seen_known[fl['key']] = known[fl['key']]
            else:
                failures.append(fl)
        if b.get('error'):
            undecided.append(dict(unit='<bounded>', why=b['error']))

    violation = None
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + '.json')
    if failures or refuted:
        with open(rpath, 'w') as f:
            json.dump(dict(
                property=prop, seed=seed, tier=tier,
                failing_inputs=failures[:20], failed_obligations=refuted[:50],
                how_to_replay='cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check %s' % (seed, tier, prop)),
                f, indent=1, default=str)
        violation = 'VIOLATION property=%s replay=%s' % (prop, rpath)
        if not failures:
            violation += ' no-failing-input-found'
    elif os.path.exists(rpath):
        os.remove(rpath)

    level_file = os.path.join(HERE, 'levels.json')
    level = 'proof'
    if os.path.exists(level_file):
        with open(level_file) as f:
            level = json.load(f).get(prop, 'proof')
    funcs = sorted({t for u in units for t in u['targets']})
    decided_funcs = sorted({t for u in units if u['status'] == 'decided' for t in u['targets']})
    backends = {}
    for u in units:
        for o in u['obligations']:
            for s, n in o['solvers'].items():
                backends[s] = backends.get(s, 0) + n
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            obligations=total, discharged=disch,
            checker_cmd='./check %s  (pyvc over /repo sources; z3 %s, cvc5 for what z3 leaves open)' % (
                prop, _z3v()),
            trusted_base=TRUSTED + sorted({x for u in units for x in u['assumes']}),
            functions_under_contract=funcs,
            functions_with_all_obligations_decided=decided_funcs,
            units=[dict(unit=u['unit'], status=u['status'], obligations=sum(o['instances'] for o in u['obligations']),
                        distinct=len(u['obligations']), paths=u['paths'], passes=u['passes'],
                        loops_cut=u['loops_cut'], solver_queries=u['queries'], solver_s=u['solver_s'],
                        wall_s=u['wall_s'], why=u['why'][:300]) for u in units],
            discharged_by=backends,
            solver_s=round(sum(u['solver_s'] for u in units), 2),
            modules_extracted=stats.get('modules', 0),
            undecided=undecided,
            bounded_stand_in=dict(
                label='bounded: concrete executions of the untransformed code, never counted as proved',
                evaluations=b.get('evaluations', 0), distinct_nontrivial=b.get('distinct', 0),
                rule=b.get('rule', ''), samples=b.get('samples', [])[:5]) if b else None,
        ),
        assumptions=ASSUMPTIONS + sorted({x for u in units for x in u['assumes']}),
        wall_s=round(time.time() - t0, 2),
        violations=len(failures) + len(refuted))
    if b:
        evidence['coverage']['evaluations'] = b.get('evaluations', 0)
        evidence['coverage']['distinct_nontrivial'] = b.get('distinct', 0)
        evidence['coverage']['rule'] = b.get('rule', '')
        evidence['coverage']['samples'] = b.get('samples', [])[:5]
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)

    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s: %d obligations, %d discharged, %d units (%d undecided), bounded cases %s, %.1fs' % (
        prop, total, disch, len(units), len({x['unit'] for x in undecided}),
        b.get('evaluations') if b else 'none', time.time() - t0))
    for x in undecided:
        print('  undecided %s: %s' % (x['unit'], x['why'] if a.v else x['why'][:400]))
    for x in refuted:
        print('  failed obligation %s / %s %s' % (x['unit'], x['obligation'], x['details'] if a.v else ''))
        if a.v:
            for m in x['models']:
                print('     ', '\n      '.join(x[:150] for x in (m or [])[:12]))
    for x in failures[:3 if not a.v else 50]:
        print('  failing input [%s] %s: %s' % (x['key'], x['input'][:300 if not a.v else 3000], x['error'][:300 if not a.v else 3000]))
        if a.v:
            print(x.get('trace'))
    if violation:
        print(violation)
        return 1
    if not total and not (b and b.get('evaluations')):
        print('nothing was checked')
        return 3
    return 0


TRUSTED = [
    'pyvc transformer and models of builtins (/verif/pyvc), z3, cvc5, CPython 3.12',
]
ASSUMPTIONS = [
    'logging calls, warnings and repr/format texts of messages have no effect on the property',
    'machine integers are Python integers (unbounded); floats are treated as reals',
    'str.strip/lower and friends are uninterpreted functions in the proofs; the bounded run uses the real ones',
]


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


if __name__ == '__main__':
    sys.exit(main())
