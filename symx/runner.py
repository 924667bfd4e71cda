"""Explores harnesses symbolically in worker processes, replays models on the unpatched code."""
import copy
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import sys
import time
import traceback
from fractions import Fraction

from . import core, api
from .core import Engine, SymNum, SymBool, And, Not, AssumeFailed, PathAbort, PathLimit, Unsupported, z3, _z3frac

REPO = os.environ.get('VERIF_REPO', '/repo')
CTX = mp.get_context('fork')


def exact(fr):
    """is this rational on the dyadic grid on which double arithmetic in the code is exact?"""
    d = fr.denominator
    return d & (d - 1) == 0 and d <= 2 ** 24 and abs(fr.numerator) < 2 ** 44


GRIDS = (1, 4, 1024, 2 ** 20)


def nice_model(e, extra=None):
    """model of the path condition with input values on a coarse dyadic grid when possible"""
    s = z3.Solver()
    s.set('timeout', e.timeout_ms)
    for c in e.pc:
        s.add(c)
    if extra is not None:
        s.add(extra)
    e.stats['queries'] += 1
    t0 = time.perf_counter()
    try:
        if s.check() != z3.sat:
            return None
        m = s.model()
        reals = [(n, v) for n, (k, v) in e.inputs.items() if k == 'real' and not v.is_const()]
        for n, v in reals:
            t = v.z3()
            val = _z3frac(m.eval(t, model_completion=True))
            if val is None:
                continue
            if val.denominator == 1 and abs(val.numerator) < 1024:
                s.push()
                s.add(t == core.frac_z3(val))
                continue
            done = False
            for g in GRIDS:
                for r in {round(val * g), (val * g).__floor__(), (val * g).__ceil__()}:
                    f = Fraction(r, g)
                    s.push()
                    s.add(t == core.frac_z3(f))
                    e.stats['queries'] += 1
                    if s.check() == z3.sat:
                        m = s.model()
                        done = True
                        break
                    s.pop()
                if done:
                    break
        if s.check() == z3.sat:
            m = s.model()
        return m
    finally:
        e.stats['solver_s'] += time.perf_counter() - t0


STEPS = (0, 1, -1, Fraction(1, 2), 2, -2, 4, Fraction(-1, 4), 7, -6, 16, -16, Fraction(3, 4), 40, -50, 120, -130)


def diverse_models(e, n, seconds=1.5):
    """further models of the path condition, with the inputs pushed away from the first one;
    used where the code could not be followed to its end, so that the replays spread out"""
    t0 = time.perf_counter()
    rnd = random.Random(len(e.pc) * 31 + len(e.inputs))
    s = z3.Solver()
    s.set('timeout', e.timeout_ms)
    for c in e.pc:
        s.add(c)
    try:
        if s.check() != z3.sat:
            return
        m = s.model()
        names = [n_ for n_, (k, v) in e.inputs.items() if k == 'bool' or not v.is_const()]
        base = {}
        for n_ in names:
            k, v = e.inputs[n_]
            base[n_] = None if k == 'bool' else _z3frac(m.eval(v.z3(), model_completion=True))
        for _ in range(n):
            if not names or time.perf_counter() - t0 > seconds:
                return
            s.push()
            order = list(names)
            rnd.shuffle(order)
            for n_ in order:
                k, v = e.inputs[n_]
                t = v.z3()
                if k == 'bool':
                    tries = [t if rnd.random() < 0.5 else z3.Not(t)]
                elif base[n_] is None:
                    continue
                else:
                    b = Fraction(round(base[n_]))
                    steps = rnd.sample(STEPS, 4)
                    tries = [t == core.frac_z3(b + d) for d in steps if k == 'real' or Fraction(d).denominator == 1]
                for c in tries:
                    e.stats['queries'] += 1
                    if s.check(c) == z3.sat:
                        s.add(c)
                        break
            keep = e.pc
            if s.check() == z3.sat:
                e.pc = keep + list(s.assertions())[len(keep):]
                try:
                    m2 = nice_model(e)
                finally:
                    e.pc = keep
                if m2 is not None:
                    yield m2
            s.pop()
    finally:
        e.stats['solver_s'] += time.perf_counter() - t0


def model_inputs(e, m):
    out, ok = {}, True
    for n, (k, v) in e.inputs.items():
        if k == 'bool':
            out[n] = bool(z3.is_true(m.eval(v.z3(), model_completion=True)))
            continue
        f = v.c if v.is_const() else _z3frac(m.eval(v.z3(), model_completion=True))
        if f is None:
            return None, False
        if k == 'int':
            out[n] = int(f)
        else:
            if not exact(f):
                ok = False
            out[n] = f'{f.numerator}/{f.denominator}'
    return out, ok


def eval_obs(e, m, obs):
    out = []
    for name, v in obs:
        leaves = []
        for kind, x in api.flatten(v):
            if kind == 'num' and isinstance(x, SymNum):
                f = x.c if x.is_const() else _z3frac(m.eval(x.z3(), model_completion=True))
                leaves.append(('num', None if f is None else float(f)))
            elif kind == 'bool' and isinstance(x, SymBool):
                leaves.append(('bool', bool(z3.is_true(m.eval(x.z3(), model_completion=True)))))
            elif kind == 'num' and x != x:
                leaves.append(('num', 'nan'))
            else:
                leaves.append((kind, x))
        out.append((name, leaves))
    return out


def conc_inputs(inputs):
    r = {}
    for k, v in inputs.items():
        if isinstance(v, str):
            a, b = v.split('/')
            r[k] = float(Fraction(int(a), int(b)))
        else:
            r[k] = v
    return r


# ------------------------------------------------------------------ state of the code under test
_STATE = None


def fresh_state():
    """every path and every replay starts from the state after import: caches and other
    module- or class-level containers of the code under test do not leak between runs"""
    global _STATE
    if _STATE is None:
        _STATE = {}
    for mname, m in list(sys.modules.items()):
        if not (mname == 'meshiphi' or mname.startswith('meshiphi.')) or m is None:
            continue
        owners = [m] + [c for c in vars(m).values() if isinstance(c, type) and c.__module__ == mname]
        for o in owners:
            for k, v in list(vars(o).items()):
                f = v.__func__ if isinstance(v, (staticmethod, classmethod)) else v
                if callable(getattr(f, 'cache_clear', None)):
                    f.cache_clear()
                if k.startswith('__') or type(v) not in (dict, list, set):
                    continue
                key = (mname, getattr(o, '__qualname__', ''), k)
                if key not in _STATE:
                    try:
                        _STATE[key] = (v, copy.deepcopy(v))
                    except Exception:
                        _STATE[key] = None
                    continue
                if _STATE[key] is None:
                    continue
                ref, val = _STATE[key]
                val = copy.deepcopy(val)
                if isinstance(ref, list):
                    ref[:] = val
                else:
                    ref.clear()
                    ref.update(val)
                if v is not ref:
                    setattr(o, k, ref)


# ------------------------------------------------------------------ symbolic worker
def run_path(fn, prefix, tier, profile=None, smt=None):
    fresh_state()
    e = Engine(prefix)
    core.ENGINE = e
    S = api.SymS(e, tier)
    status, err = 'ok', None
    try:
        if profile is not None:
            def prof(frame, ev, arg):
                if ev == 'call':
                    c = frame.f_code
                    if c.co_filename.startswith(REPO + '/meshiphi'):
                        profile.add(os.path.relpath(c.co_filename, REPO) + ':' + c.co_qualname)
            sys.setprofile(prof)
        try:
            fn(S)
        finally:
            if profile is not None:
                sys.setprofile(None)
    except AssumeFailed:
        status = 'infeasible'
    except PathLimit as x:
        status, err = 'limit', str(x)
    except Unsupported as x:
        e.taint(str(x))
        status = 'tainted'
    except RecursionError as x:
        status, err = 'limit', 'recursion'
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__)
        where = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb][-3:]
        status, err = 'exception', f'{type(x).__name__}: {x} @ {" < ".join(reversed(where))}'
    if e.tainted and status in ('ok', 'exception'):
        err = err or ''
        status = 'tainted'
    rec = dict(status=status, err=err, nchecks=len(S.checks), reached=sorted(S.reached), taint=e.tainted,
               discharged=0, cands=[], witness=None, notes=e.notes)
    try:
        if status in ('ok',):
            conds = [(m, c) for m, c in S.checks if c is not True]
            rec['discharged'] = len(S.checks) - len(conds)
            if conds:
                allc = And([c for _, c in conds])
                if allc is True:
                    rec['discharged'] += len(conds)
                else:
                    z = z3.BoolVal(True) if allc is False else z3.Not(allc.z3())
                    r = e.check(z) if not e.nonlinear else fresh_check(e, z)
                    if smt is not None and len(smt) < 40:
                        smt.append(to_smt2(e, z))
                    if r == z3.unsat:
                        rec['discharged'] += len(conds)
                    elif r == z3.unknown:
                        rec['status'] = 'unknown'
                        rec['err'] = 'solver returned unknown on the property query'
                    else:
                        for msg, c in conds:
                            zc = z3.BoolVal(True) if c is False else z3.Not(c.z3())
                            r1 = e.check(zc) if not e.nonlinear else fresh_check(e, zc)
                            if r1 == z3.unsat:
                                rec['discharged'] += 1
                                continue
                            if len(rec['cands']) >= 3:
                                continue
                            m = nice_model(e, zc)
                            if m is not None:
                                inp, ok = model_inputs(e, m)
                                if inp is not None:
                                    rec['cands'].append(dict(msg=msg, inputs=inp, exact=ok))
        if status == 'exception':
            m = nice_model(e)
            if m is not None:
                inp, ok = model_inputs(e, m)
                if inp is not None:
                    rec['cands'].append(dict(msg='unexpected exception: ' + (err or ''), inputs=inp, exact=ok))
    except z3.Z3Exception as x:
        rec['status'], rec['err'] = 'unknown', f'z3: {x}'
    if e.approx and rec['status'] == 'ok':
        rec['status'], rec['taint'], rec['discharged'] = 'tainted', e.approx, 0
    return e, S, rec


def fresh_check(e, z):
    s = z3.Solver()
    s.set('timeout', e.timeout_ms)
    for c in e.pc:
        s.add(c)
    s.add(z)
    t0 = time.perf_counter()
    r = s.check()
    e.stats['solver_s'] += time.perf_counter() - t0
    e.stats['queries'] += 1
    if r == z3.unknown:
        e.stats['unknown'] += 1
    return r


def to_smt2(e, z):
    s = z3.Solver()
    for c in e.pc:
        s.add(c)
    s.add(z)
    return s.to_smt2()


def explore(task):
    """explore a subtree for a while; returns results and the remaining prefixes"""
    mod, fname, cfg, prefix, max_paths, max_s, tier, wit_every, smt_on = task
    H = importlib.import_module(mod)
    base = getattr(H, fname)
    fn = (lambda S: base(S, **cfg)) if cfg else base
    t0 = time.time()
    stack = [list(prefix)]
    prof = set() if not prefix else None
    out = dict(paths=0, infeasible=0, decisions=0, forks=0, queries=0, solver_s=0.0, unknown=0, nchecks=0, discharged=0,
               tainted={}, limits={}, cands=[], witnesses=[], reached=[], notes=[], functions=[], smt=[])
    reached, notes = set(), set()
    n = blurred = 0
    while stack and n < max_paths and time.time() - t0 < max_s:
        p = stack.pop()
        n += 1
        e, S, rec = run_path(fn, p, tier, prof if n <= 3 else None, out['smt'] if smt_on else None)
        st = e.stats
        out['decisions'] += st['decisions']
        out['forks'] += st['forks']
        stack.extend(e.alts)
        if rec['status'] == 'infeasible':
            out['infeasible'] += 1
        else:
            out['paths'] += 1
            out['nchecks'] += rec['nchecks']
            out['discharged'] += rec['discharged']
            reached |= set(rec['reached'])
            notes |= set(rec['notes'])
            if rec['status'] == 'tainted':
                out['tainted'][rec['taint']] = out['tainted'].get(rec['taint'], 0) + 1
            elif rec['status'] in ('limit', 'unknown'):
                out['limits'][rec['err']] = out['limits'].get(rec['err'], 0) + 1
            out['cands'] += rec['cands']
            want = rec['status'] in ('tainted', 'limit', 'unknown', 'exception') or rec['cands'] or out['paths'] % wit_every == 1 or wit_every == 1
            if want and len(out['witnesses']) < 400:
                try:
                    m = nice_model(e)
                    if m is not None:
                        inp, ok = model_inputs(e, m)
                        if inp is not None:
                            ob = eval_obs(e, m, S.obs) if rec['status'] == 'ok' else None
                            out['witnesses'].append(dict(inputs=inp, exact=ok, obs=ob, status=rec['status']))
                    if (rec['status'] in ('tainted', 'exception') or rec['cands']) and blurred < 6:
                        blurred += 1
                        for m in diverse_models(e, 6):
                            inp, ok = model_inputs(e, m)
                            if inp is not None and ok:
                                out['witnesses'].append(dict(inputs=inp, exact=ok, obs=None, status=rec['status']))
                except (z3.Z3Exception, Unsupported):
                    pass
        for k in ('queries', 'solver_s', 'unknown'):
            out[k] += e.stats[k]
        core.ENGINE = None
    out['reached'] = sorted(reached)
    out['notes'] = sorted(notes)
    if prof is not None:
        out['functions'] = sorted(prof)
    out['remaining'] = stack
    return out


# ------------------------------------------------------------------ clean worker
def replay_one(mod, fname, cfg, inputs, tier):
    H = importlib.import_module(mod)
    base = getattr(H, fname)
    fresh_state()
    S = api.ConcS(conc_inputs(inputs), tier)
    try:
        base(S, **cfg) if cfg else base(S)
    except api.ReplaySkip as x:
        return dict(skip=str(x), failures=S.failures, obs=None)
    except api.StubMissing as x:
        return dict(skip=str(x), failures=[], obs=None)
    except Exception as x:
        gone = api.interface(x)
        if gone and not S.failures:
            return dict(skip=gone, failures=[], obs=None)
        tb = traceback.extract_tb(x.__traceback__)
        where = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb][-3:]
        S.failures.append(f'unexpected exception: {type(x).__name__}: {x} @ {" < ".join(reversed(where))}')
    obs = []
    for name, v in S.obs:
        obs.append((name, [(k, ('nan' if k == 'num' and x != x else x)) for k, x in api.flatten(v)]))
    return dict(failures=S.failures, obs=obs, nchecks=S.nchecks)


def obs_equal(a, b):
    if len(a) != len(b):
        return False, 'number of observations'
    for (n1, l1), (n2, l2) in zip(a, b):
        if n1 != n2 or len(l1) != len(l2):
            return False, n1
        for (k1, x1), (k2, x2) in zip(l1, l2):
            if x1 is None or x2 is None and k1 == 'num':
                continue
            if k1 in ('num', 'bool') and k2 in ('num', 'bool'):
                if x1 == 'nan' or x2 == 'nan':
                    if x1 != x2:
                        return False, n1
                elif abs(float(x1) - float(x2)) > 1e-6 * max(1, abs(float(x1))):
                    return False, n1
            elif k1 != k2 or x1 != x2:
                return False, n1
    return True, None


def _silence():
    import logging
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
        os.dup2(devnull, 1)


def worker(conn, symbolic, extra_patch):
    _silence()
    if symbolic:
        from . import patch
        ex = None
        if extra_patch:
            m, f = extra_patch
            ex = getattr(importlib.import_module(m), f)
            ex = ex()
        patch.install(ex)
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            os._exit(0)
        if msg is None:
            os._exit(0)
        kind, task = msg
        try:
            if kind == 'explore':
                r = explore(task)
            else:
                r = [replay_one(*t) for t in task]
            conn.send(('ok', r))
        except BaseException as x:       # noqa
            conn.send(('err', f'{type(x).__name__}: {x}\n{traceback.format_exc()}'))


class Pool:
    def __init__(self, n, symbolic, extra_patch=None):
        self.n, self.symbolic, self.extra = n, symbolic, extra_patch
        self.procs = []
        for _ in range(n):
            self.procs.append(self.spawn())
        self.busy = {}

    def spawn(self):
        a, b = CTX.Pipe()
        p = CTX.Process(target=worker, args=(b, self.symbolic, self.extra), daemon=True)
        p.start()
        b.close()
        return [p, a]

    def idle(self):
        for pr in self.procs:
            if id(pr) not in self.busy:
                return pr
        return None

    def submit(self, msg, tag):
        pr = self.idle()
        pr[1].send(msg)
        self.busy[id(pr)] = (pr, tag)

    def conns(self):
        return {pr[1]: (pr, tag) for pr, tag in self.busy.values()}

    def done(self, pr):
        self.busy.pop(id(pr), None)

    def restart(self, pr):
        self.busy.pop(id(pr), None)
        try:
            pr[0].kill()
        except Exception:
            pass
        i = self.procs.index(pr)
        self.procs[i] = self.spawn()

    def close(self):
        for p, c in self.procs:
            try:
                p.kill()
            except Exception:
                pass
        for p, c in self.procs:
            p.join(1)


class Result:
    def __init__(self):
        self.h = {}
        self.violations = []
        self.known = []


def run_property(pid, jobs, tier, budget_s, ncores=8, known=(), log=print):
    """jobs: list of dict(mod, fn, cfg, name, [patch], [wit_every], [reach])"""
    t_start = time.time()
    res = Result()
    nclean = 2
    clean = Pool(nclean, False)
    patches = sorted({j.get('patch') for j in jobs}, key=str)
    sym = {}
    per = max(1, (ncores) // len(patches))
    for p in patches:
        sym[p] = Pool(per, True, p)
    stats = {}
    queue = []                # (job index, prefix)
    for i, j in enumerate(jobs):
        stats[i] = dict(name=j['name'], paths=0, infeasible=0, decisions=0, forks=0, queries=0, solver_s=0.0, unknown=0, nchecks=0,
                        discharged=0, tainted={}, limits={}, reached=set(), notes=set(), functions=set(), unexplored=0,
                        replays=0, replays_ok=0, replay_skips=0, mismatches=[], inexact=0, unreproduced=[], crashes=0, samples=[], smt=[])
        queue.append((i, []))
    rq = []                   # replay queue: (job index, kind, item)
    seen_rep = set()
    deadline = t_start + budget_s
    smt_on = (tier == 'thorough')
    stop = False
    first_viol_t = None
    while True:
        now = time.time()
        timed_out = now > deadline
        if timed_out or stop:
            for i, p in queue:
                stats[i]['unexplored'] += 1
            queue = []
            if timed_out and now > deadline + 30:
                break
        # dispatch symbolic work
        if not stop and not timed_out:
            rest = []
            while queue:
                i, p = queue.pop()
                pool = sym[jobs[i].get('patch')]
                if pool.idle() is None:
                    rest.append((i, p))
                    if all(pl.idle() is None for pl in sym.values()):
                        break
                    continue
                j = jobs[i]
                st = stats[i]
                waiting = len(queue) + len(rest)
                mp_, ms_ = (6, 1.0) if waiting < 2 * ncores else (60, 6.0)
                if st['paths'] == 0 and not p:
                    mp_, ms_ = 3, 2.0
                pool.submit(('explore', (j['mod'], j['fn'], j.get('cfg') or {}, p, mp_, ms_, tier, j.get('wit_every', 1), smt_on)), (i, p))
            queue += rest[::-1]
        # dispatch replays
        while rq and clean.idle() is not None:
            batch, rq = rq[:25], rq[25:]
            clean.submit(('replay', [(jobs[i]['mod'], jobs[i]['fn'], jobs[i].get('cfg') or {}, it['inputs'], tier) for i, k, it in batch]), batch)
        conns = {}
        for pl in list(sym.values()) + [clean]:
            for c, (pr, tag) in pl.conns().items():
                conns[c] = (pl, pr, tag)
        if not conns:
            if not queue and not rq:
                break
            if timed_out:
                break
            continue
        if stop and not any(pl is clean for pl, _, _ in conns.values()) and not rq:
            break
        ready = mpc.wait(list(conns), timeout=1.0)
        for c in ready:
            pl, pr, tag = conns[c]
            try:
                kind, r = c.recv()
            except (EOFError, OSError):
                # worker died (memory?): drop the task, count it
                pl.restart(pr)
                if pl is not clean:
                    stats[tag[0]]['crashes'] += 1
                    stats[tag[0]]['unexplored'] += 1
                continue
            pl.done(pr)
            if pl is clean:
                if kind == 'err':
                    for i, k, it in tag:
                        stats[i]['replay_skips'] += 1
                    continue
                for (i, k, it), rr in zip(tag, r):
                    st = stats[i]
                    if rr.get('skip') is not None:
                        st['replay_skips'] += 1
                        if rr['skip'].startswith('interface changed'):
                            st['limits'][rr['skip']] = st['limits'].get(rr['skip'], 0) + 1
                        continue
                    st['replays'] += 1
                    if rr['failures'] and it.get('exact'):
                        v = dict(property=pid, harness=jobs[i]['name'], mod=jobs[i]['mod'], fn=jobs[i]['fn'], cfg=jobs[i].get('cfg') or {},
                                 inputs=it['inputs'], failures=rr['failures'], kind=k, tier=tier)
                        kf = match_known(v, known)
                        if kf is not None:
                            if kf not in res.known:
                                res.known.append(kf)
                        else:
                            res.violations.append(v)
                            if first_viol_t is None:
                                first_viol_t = time.time() - t_start
                    elif rr['failures']:
                        st['inexact'] += 1
                    elif k == 'cand':
                        if it.get('exact'):
                            st['unreproduced'].append(dict(msg=it['msg'], inputs=it['inputs']))
                        else:
                            st['inexact'] += 1
                    else:
                        st['replays_ok'] += 1
                        if it.get('obs') is not None and it.get('exact'):
                            same, w = obs_equal(it['obs'], rr['obs'])
                            if not same:
                                st['mismatches'].append(dict(obs=w, inputs=it['inputs']))
                        if len(st['samples']) < 2:
                            st['samples'].append(it['inputs'])
                if res.violations:
                    stop = True
                continue
            i, p = tag
            st = stats[i]
            if kind == 'err':
                st['crashes'] += 1
                st['unexplored'] += 1
                log(f'worker error in {jobs[i]["name"]}: {r}')
                continue
            for k in ('paths', 'infeasible', 'decisions', 'forks', 'queries', 'solver_s', 'unknown', 'nchecks', 'discharged'):
                st[k] += r[k]
            for k in ('tainted', 'limits'):
                for a, b in r[k].items():
                    st[k][a] = st[k].get(a, 0) + b
            for k in ('reached', 'notes', 'functions'):
                st[k] |= set(r[k])
            st['smt'] += r['smt'][: max(0, 40 - len(st['smt']))]
            for it in r['cands']:
                rq.insert(0, (i, 'cand', it))
            for it in r['witnesses']:
                rq.append((i, 'wit', it))
            for q in r['remaining']:
                queue.append((i, q))
    for pl in list(sym.values()) + [clean]:
        pl.close()
    res.stats = stats
    res.wall = time.time() - t_start
    return res


def match_known(v, known):
    for k in known:
        if k.get('status') == 'fixed':
            continue
        if k['property'] == v['property'] and k['harness'] == v['harness'] and all(any(m in f for m in k['messages']) for f in v['failures']):
            ok = True
            for n, want in k.get('inputs', {}).items():
                if v['inputs'].get(n) != want:
                    ok = False
            if ok:
                return k
    return None
