"""Task runner, counterexample replay, evidence and exit codes."""
import json
import os
import random
import subprocess
import sys
import time
import traceback
import multiprocessing as mp
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = sys.executable


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, complex):
        return {'re': x.real, 'im': x.imag}
    return x


class Task:
    """Recorder of one worker task."""

    def __init__(self, name):
        self.name = name
        self.ob = 0
        self.ok = 0
        self.twins = 0
        self.cex = []       # dict(name, case)
        self.unknown = []
        self.errors = []
        self.samples = []
        self.validate = []
        self.functions = set()
        self.max_cex = 3

    def full(self):
        return len(self.cex) >= self.max_cex

    # -- obligations
    def eq(self, name, a, b, pc=(), case=None, timeout=None, tol=None):
        from . import core, solve
        if self.full():
            return False
        self.ob += 1
        for z in (a, b):
            if core.is_inf(z) or core.is_nan(z):
                if not (core._isnum(a) and core._isnum(b) and a == b):
                    self._cex(name, {}, case, 'non-finite value')
                    return False
                self.ok += 1
                return True
        ca, cb = core.CSym.of(a), core.CSym.of(b)
        for q in ('re', 'im'):
            x, y = getattr(ca, q), getattr(cb, q)
            if tol and solve.prove_close(x, y, tol, name):
                continue
            good, status, env = solve.prove_eq(x, y, pc, name, timeout)
            if good:
                continue
            if status == 'sat':
                self._cex(name, env, case, f'{q}: {x!r} != {y!r}'[:300])
            elif status == 'nonfinite':
                self._cex(name, {}, case, 'non-finite')
            else:
                self.unknown.append(f'{self.name}: {name}: {status}')
            return False
        self.ok += 1
        if len(self.samples) < 2:
            self.samples.append({'task': self.name, 'obligation': name,
                                 'lhs': repr(ca)[:160], 'rhs': repr(cb)[:160],
                                 'verdict': 'unsat (negation)'})
        return True

    def claim(self, name, c, pc=(), case=None, timeout=None):
        """c: SBool/bool must be valid under pc."""
        from . import core, solve
        if self.full():
            return False
        self.ob += 1
        if isinstance(c, bool) or type(c).__name__ == 'bool_':
            c = core.TRUE if c else core.FALSE
        if c.op == 'k' and not c.args[0]:
            # false outright: need a model of the path condition
            env = solve.pc_model(pc)
            if env is None:
                self.ok += 1
                return True
            self._cex(name, env, case, 'claim is false on this path')
            return False
        for e in solve._pc_samples(pc):
            if not core.beval(c, e):
                r, m = solve.prove(c, pc, name, timeout)
                if r == 'sat':
                    self._cex(name, solve.merge_env(m, e), case, repr(c)[:300])
                    return False
                break
        r, env = solve.prove(c, pc, name, timeout)
        if r == 'unsat':
            self.ok += 1
            if len(self.samples) < 2:
                self.samples.append({'task': self.name, 'obligation': name,
                                     'claim': repr(c)[:200],
                                     'verdict': 'unsat (negation)'})
            return True
        if r == 'sat':
            self._cex(name, env, case, repr(c)[:300])
        else:
            self.unknown.append(f'{self.name}: {name}: {r}')
        return False

    def twin(self, name, a, b, pc=()):
        """Vacuity twin: a == b must be refutable (sat)."""
        from . import solve, core
        self.twins += 1
        a, b = core.CSym.of(a), core.CSym.of(b)
        good, status, env = solve.prove_eq(a.re, b.re, pc, name)
        if good or status != 'sat':
            self.errors.append(f'vacuity twin {self.name}/{name}: {status}')

    def twin_claim(self, name, c, pc=()):
        from . import solve
        self.twins += 1
        r, env = solve.prove(c, pc, name)
        if r != 'sat':
            self.errors.append(f'vacuity twin {self.name}/{name}: {r}')

    def fail(self, name, case, note='', env=None):
        """A concrete (path-independent) failure found symbolically."""
        self.ob += 1
        self._cex(name, env or {}, case, note)

    def passed(self, name):
        self.ob += 1
        self.ok += 1

    def _cex(self, name, env, case, note):
        from . import core
        try:
            c = case(dict(env or {})) if callable(case) else (case or {})
        except Exception as e:
            self.errors.append(f'case builder: {name}: {e!r}')
            return
        if c is None:
            self.errors.append(f'no replay case for {name}: {note}')
            return
        self.cex.append({'name': name, 'task': self.name, 'note': note,
                         'case': jsonable(c)})

    def result(self):
        from .core import CTX
        return dict(name=self.name, ob=self.ob, ok=self.ok, twins=self.twins,
                    cex=self.cex, unknown=self.unknown, errors=self.errors,
                    samples=self.samples, stats=dict(CTX.stats),
                    validate=jsonable(self.validate),
                    functions=sorted(self.functions))


def _worker(item):
    fn, name, args, seed = item
    from . import core, solve
    solve.reset()
    core.CTX.rng = random.Random(seed)
    t = Task(name)
    t0 = time.time()
    try:
        fn(t, *args)
    except core.Unsupported as e:
        t.errors.append(f'{name}: unsupported: {e}\n' +
                        traceback.format_exc()[-1500:])
    except Exception as e:
        t.errors.append(f'{name}: {type(e).__name__}: {e}\n' +
                        traceback.format_exc()[-1500:])
    r = t.result()
    r['wall'] = time.time()-t0
    return r


class Check:
    def __init__(self, prop, module, functions, bounds, assumptions,
                 jobs=None):
        self.prop = prop
        self.module = module
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.functions = functions
        self.bounds = bounds
        self.assumptions = assumptions
        self.tasks = []
        self.jobs = jobs or min(8, os.cpu_count() or 1)
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def add(self, fn, name, *args):
        self.tasks.append((fn, name, args, self.seed*7919+len(self.tasks)))

    def run(self):
        res = []
        vio = []
        known = load_known(self.prop)
        seen_known = set()
        bad = []
        replayed = 0
        seen_case = set()
        ctx = mp.get_context('fork')
        budget = float(os.environ.get('VERIF_BUDGET', '820' if not
                                      self.thorough else '100000'))
        if len(self.tasks) == 1 or self.jobs == 1:
            it = map(_worker, self.tasks)
            pool = None
        else:
            pool = ctx.Pool(self.jobs, maxtasksperchild=24)
            it = pool.imap_unordered(_worker, self.tasks)
        try:
            for r in it:
                res.append(r)
                if '-v' in sys.argv:
                    print(f"  {r['name']}: {r['ok']}/{r['ob']} "
                          f"{r['wall']:.1f}s", flush=True)
                for c in r['cex']:
                    key = (c['name'], json.dumps(c['case'], sort_keys=True))
                    if key in seen_case or len(vio) >= 3 or replayed > 12:
                        continue
                    k = match_known(known, c, '')
                    if k and k['id'] in seen_known:
                        continue
                    seen_case.add(key)
                    replayed += 1
                    path = write_replay(self.prop, self.module, c, len(
                        seen_case))
                    code, out = run_replay(path)
                    if code == 1:
                        if k:
                            replayed -= 1
                            if k['id'] not in seen_known:
                                seen_known.add(k['id'])
                                print('KNOWN-FINDING: property='
                                      f"{self.prop} {k['what']}", flush=True)
                            continue
                        vio.append((c, path, out))
                    else:
                        bad.append((c, path, out, code))
                if len(vio) >= 1 and not self.thorough:
                    break
                if time.time()-self.t0 > budget:
                    r['errors'].append('time budget exhausted')
                    break
        finally:
            if pool is not None:
                pool.terminate()
                pool.join()
        return self.finish(res, vio, bad, seen_known)

    def finish(self, res, vio, bad, seen_known):
        tot = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0,
                   trivial=0, branch_queries=0, paths=0)
        ob = ok = tw = 0
        unknown, errors, samples = [], [], []
        for r in res:
            for k in tot:
                tot[k] += r['stats'].get(k, 0)
            ob += r['ob']
            ok += r['ok']
            tw += r['twins']
            unknown += r['unknown']
            errors += r['errors']
            samples += r['samples'][:1]
        # vacuity: a check that discharged nothing is an error
        if ob == 0:
            errors.append('no obligation was generated')
        wall = time.time()-self.t0
        cov = dict(
            explanation='Bounded symbolic execution of the real functions '
            '(imported from the current /repo source, un-jitted) with '
            'symbolic inputs; each obligation is the negated property '
            'handed to z3; unsat = holds for every value within the bounds, '
            'sat = counterexample replayed on the real (jitted) code.',
            functions_encoded=self.functions, bounds=self.bounds,
            obligations=ob, discharged=ok, tasks_done=len(res),
            tasks_total=len(self.tasks), vacuity_twins=tw,
            queries_discharged_by_solver=tot['unsat'],
            queries=tot['queries'], queries_sat=tot['sat'],
            queries_unknown=tot['unknown'],
            identical_after_hash_consing=tot['trivial'],
            branch_feasibility_queries=tot['branch_queries'],
            paths_explored=tot['paths'],
            solver_seconds=round(tot['solver_s'], 2),
            known_findings_seen=sorted(seen_known),
            counterexamples_not_reproduced=len(bad),
            samples=samples[:5])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed,
                  level='other', coverage=cov, assumptions=self.assumptions,
                  wall_s=round(wall, 2), violations=len(vio))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop+'.json'),
                  'w') as f:
            json.dump(ev, f, indent=1)
        print(f'{self.prop} [{self.tier}] obligations {ok}/{ob} discharged, '
              f'{tot["queries"]} queries ({tot["solver_s"]:.1f}s solver), '
              f'{tot["paths"]} paths, {wall:.1f}s wall')
        for c, path, out in vio:
            print(f'  {c["task"]}: {c["name"]}: {out.strip()[-300:]}')
            print(f'VIOLATION property={self.prop} replay={path}', flush=True)
        if vio:
            return 1
        rc = 0
        for c, path, out, code in bad:
            print(f'NOT REPRODUCED {c["task"]}/{c["name"]} (exit {code}): '
                  f'{out.strip()[-400:]} [{c["note"]}]')
            rc = 2
        for u in unknown[:10]:
            print('INCONCLUSIVE', u)
            rc = 2
        for e in errors[:6]:
            print('ERROR', e)
            rc = 2
        if len(res) != len(self.tasks):
            print('ERROR tasks not finished')
            rc = 2
        return rc


def write_replay(prop, module, cex, n):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}_{n}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=prop, module=module, **cex), f, indent=1)
    return path


def run_replay(path):
    env = dict(os.environ)
    env.pop('NUMBA_DISABLE_JIT', None)
    try:
        p = subprocess.run([PY, os.path.join(VERIF, 'run_check.py'),
                            '--replay', path], capture_output=True, text=True,
                           timeout=400, env=env)
    except subprocess.TimeoutExpired:
        return 3, 'replay timed out'
    return p.returncode, (p.stdout + p.stderr)


def load_known(prop):
    """Known findings: lines of known_findings.jsonl with status 'known'."""
    fn = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            k = json.loads(line)
            if k.get('property') == prop and k.get('status') == 'known':
                out.append(k)
    return out


def match_known(known, c, out):
    for k in known:
        m = k['match']
        if all(c['case'].get(q) == v for q, v in m.items()):
            return k
    return None
