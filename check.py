#!/usr/bin/env python
"""check.py <PROPERTY> [quick|thorough]   - decide one property by symbolic execution + SMT.
   check.py --replay <file>                - re-run one recorded counterexample on the real code."""
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
if os.environ.get('PYTHONHASHSEED') != '0' or not os.environ.get('PYTHONDONTWRITEBYTECODE'):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    env.pop('PYTHONPATH', None)
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path[:0] = [REPO, HERE]
sys.setrecursionlimit(5000)
import warnings                                    # noqa
warnings.simplefilter('ignore')


def load_known():
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def import_repo():
    import logging
    logging.disable(logging.CRITICAL)
    import meshiphi
    assert os.path.abspath(meshiphi.__file__).startswith(REPO + '/'), meshiphi.__file__


def cvc5_cross(stats, limit_s=60):
    """second solver on a sample of the dumped property queries (thorough tier): expect unsat"""
    n = agree = other = 0
    t0 = time.time()
    for st in stats.values():
        for q in st['smt'][:12]:
            if time.time() - t0 > limit_s:
                break
            q = '(set-logic ALL)\n' + q if 'set-logic' not in q else q
            try:
                r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=10000', '-'], input=q, capture_output=True, text=True, timeout=15)
                ans = r.stdout.strip().splitlines()[0] if r.stdout.strip() else 'none'
            except Exception:
                ans = 'timeout'
            n += 1
            if ans == 'unsat':
                agree += 1
            elif ans == 'sat':
                other += 1
    return dict(queries=n, unsat=agree, sat=other)


def verbose_only():
    """experiments only: names of jobs"""
    return [x for x in os.environ.get('VERIF_ONLY', '').split(',') if x]


def main():
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            v = json.load(f)
        import_repo()
        from symx import runner
        importlib.import_module(v['mod'])
        r = runner.replay_one(v['mod'], v['fn'], v['cfg'], v['inputs'], v.get('tier', 'quick'))
        print(json.dumps(r, indent=1, default=str))
        sys.exit(1 if r['failures'] else 0)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import_repo()
    from symx import runner
    H = importlib.import_module('harness.' + pid.lower())
    spec = H.PROPERTY
    jobs = H.jobs(tier)
    if verbose_only():
        jobs = [j for j in jobs if j['name'] in verbose_only()]
    budget = spec.get('budget', {}).get(tier, 240 if tier == 'quick' else 1500)
    ncores = int(os.environ.get('VERIF_CORES', '0')) or min(8, os.cpu_count() or 4)
    known = load_known()
    verbose = bool(os.environ.get('VERIF_DEBUG'))
    res = runner.run_property(pid, jobs, tier, budget, ncores, known, log=(print if verbose else (lambda *a: None)))
    tot = dict(paths=0, decisions=0, forks=0, queries=0, solver_s=0.0, nchecks=0, discharged=0, unexplored=0, replays_ok=0, replays=0,
               unknown=0, infeasible=0)
    per, inconclusive, samples, funcs, missing = [], [], [], set(), []
    for i, st in sorted(res.stats.items()):
        for k in tot:
            tot[k] += st[k]
        funcs |= st['functions']
        want = set(jobs[i].get('reach', ()))
        miss = sorted(want - st['reached'])
        if miss:
            missing.append(f"{st['name']}: not reached: {miss}")
        for k in ('tainted', 'limits'):
            for a, b in st[k].items():
                inconclusive.append(f"{st['name']}: {b} path(s): {a}")
        if st['unexplored']:
            inconclusive.append(f"{st['name']}: {st['unexplored']} prefix(es) left unexplored")
        if st['unreproduced']:
            inconclusive.append(f"{st['name']}: {len(st['unreproduced'])} solver counterexample(s) did not reproduce on the real code, e.g. "
                                + json.dumps(st['unreproduced'][0], default=str)[:400])
        if st['mismatches']:
            inconclusive.append(f"{st['name']}: {len(st['mismatches'])} observation mismatch(es), e.g. " + json.dumps(st['mismatches'][0], default=str)[:400])
        per.append({k: (round(v, 2) if isinstance(v, float) else v) for k, v in st.items()
                    if k in ('name', 'paths', 'decisions', 'forks', 'queries', 'solver_s', 'nchecks', 'discharged', 'replays', 'replays_ok', 'replay_skips', 'inexact', 'unexplored', 'crashes')}
                   | {'reached': sorted(st['reached']), 'inexact_counterexamples': st['inexact']})
        for s in st['samples'][:1]:
            samples.append({'harness': st['name'], 'inputs': s})
    inconclusive += missing
    cov = dict(
        states=tot['paths'], transitions=tot['decisions'], traces_validated_against_impl=tot['replays_ok'],
        samples=samples[:6],
        exhaustive=not inconclusive,
        functions_encoded=sorted(funcs), bounds=spec['bounds'], outside_bounds=spec.get('outside', ''),
        stubs=spec.get('stubs', []), assertions_checked=tot['nchecks'], assertions_discharged=tot['discharged'],
        solver_queries=tot['queries'], solver_time_s=round(tot['solver_s'], 2), solver_unknown=tot['unknown'], forks=tot['forks'],
        solver='z3 ' + runner.z3.get_version_string(), harnesses=per, inconclusive=inconclusive,
    )
    if tier == 'thorough':
        cov['cvc5_cross_check'] = cvc5_cross(res.stats)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=spec.get('assumptions', []) + COMMON, wall_s=round(time.time() - t0, 2), violations=len(res.violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in res.known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid} {tier}: {tot['paths']} paths, {tot['decisions']} decisions, {tot['discharged']}/{tot['nchecks']} assertions discharged, "
          f"{tot['queries']} queries, {tot['solver_s']:.1f}s solver, {tot['replays_ok']} traces replayed, {time.time()-t0:.1f}s wall")
    for s in inconclusive:
        print('INCONCLUSIVE:', s)
    if res.violations:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        v = res.violations[0]
        path = os.path.join(HERE, 'replays', f'{pid}.json')
        with open(path, 'w') as f:
            json.dump(v, f, indent=1, default=str)
        print('harness', v['harness'], 'inputs', json.dumps(v['inputs']))
        for m in v['failures'][:5]:
            print('  failed:', m)
        print(f'VIOLATION property={pid} replay={path}')
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


COMMON = [
    'numbers are exact rationals; for inputs on the dyadic grid used by the replays every intermediate double is exact, other doubles may round differently',
    'logging and progress bars are no-ops',
]

if __name__ == '__main__':
    main()
