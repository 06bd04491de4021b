"""Monitor runtime: runs workload shards against the real code in /repo,
records what the monitors observed, and turns it into a verdict.

A check module (checks/<id>.py) defines
    PROPERTY   = 'P01'
    RULE       = how cases are made / what makes one non-trivial
    ASSUMPTIONS= [...]
    SHARDS     = {'name': function(ctx) [, ...]}
    MIN_EVENTS = {'event name': minimum count over all shards}   (inconclusive below)
Each shard runs in its own process (numba without disk cache, so always the
current tree), with a seeded generator; shards run in parallel.
"""
import contextlib
import fnmatch
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


class SkipCase(Exception):
    """The case cannot be observed here (inconclusive for this case)."""


class Abort(Exception):
    """Leave the current case (a violation has been recorded)."""


def base_env(threads=1, boundscheck=False):
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
        WAKET_DISABLE_CACHING='1', WAKET_NUM_THREADS=str(threads),
        NUMBA_NUM_THREADS=str(threads), OMP_NUM_THREADS='1',
        OPENBLAS_NUM_THREADS='1', LANG='C.UTF-8', TQDM_DISABLE='1')
    env.pop('PYTHONPATH', None)
    env.pop('NUMBA_BOUNDSCHECK', None)
    env.pop('NUMBA_DISABLE_JIT', None)
    if boundscheck:
        env['NUMBA_BOUNDSCHECK'] = '1'
    return env


class Ctx:
    """Handed to a workload shard; collects events, cases and violations."""

    def __init__(self, prop, shard, seed, tier, only=None, budget=None):
        import numpy as np
        self.np = np
        self.prop, self.shard, self.seed, self.tier = prop, shard, seed, tier
        self.only = only
        self.t0 = time.time()
        self.budget = budget or (110. if tier == 'quick' else 1500.)
        self.evaluations = 0
        self.distinct = set()
        self.events = {}
        self.samples = []
        self.violations = []
        self.skipped = {}
        self.worst = {}
        self.idx = -1
        self._case = None

    # -- budget ---------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def time_left(self):
        return self.budget - (time.time() - self.t0)

    def cases(self, n):
        """Yield (index, rng): one generator per case, so that any case can be
        replayed on its own.  Stops early when the shard's budget is used."""
        for i in range(n):
            if self.only is not None and i != self.only:
                continue
            if i > 0 and self.only is None and self.time_left() < 0:
                self.event('budget_stop')
                break
            h = hashlib.sha256(
                f'{self.prop}/{self.shard}/{self.seed}/{i}'.encode()).digest()
            rng = self.np.random.default_rng(
                int.from_bytes(h[:8], 'little'))
            self.idx = i
            yield i, rng

    # -- observation ----------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def nontrivial(self, key=None):
        k = json.dumps([self.shard, key if key is not None else self.idx],
                       default=str)
        self.distinct.add(hashlib.sha1(k.encode()).hexdigest()[:16])

    def close(self, name, err, tol, **witness):
        """err <= tol, NaN counts as a violation."""
        err = float(err)
        tol = float(tol)
        r = err / tol if tol > 0 else (0. if err == 0 else float('inf'))
        if not (r <= self.worst.get(name, -1)):
            self.worst[name] = r
        return self.check(name, err <= tol, err=err, tol=tol, **witness)

    def check(self, name, ok, **witness):
        self.event('monitor:' + name)
        if ok:
            return True
        self.violations.append({
            'monitor': name, 'shard': self.shard, 'case': self.idx,
            'params': self._case, 'witness': _js(witness)})
        return False

    @contextlib.contextmanager
    def case(self, **params):
        """Everything observed about one execution of the real code."""
        self._case = _js(params)
        self.evaluations += 1
        if len(self.samples) < 3:
            self.samples.append({'shard': self.shard, 'case': self.idx,
                                 **self._case})
        try:
            yield
        except Abort:
            pass
        except SkipCase as e:
            self.skipped[str(e)] = self.skipped.get(str(e), 0) + 1
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            in_repo = any(os.path.realpath(f.filename).startswith(
                os.path.realpath(REPO) + '/') for f in tb)
            text = ''.join(traceback.format_exception(e))[-4000:]
            internals = isinstance(e, (ImportError, AttributeError)) or (
                isinstance(e, TypeError) and 'argument' in str(e))
            if not in_repo and internals:
                # The harness looked for something the tree does not have.
                k = f'{type(e).__name__}: {e}'[:200]
                self.skipped[k] = self.skipped.get(k, 0) + 1
            else:
                self.check('exception:' + type(e).__name__, False,
                           traceback=text)
        finally:
            self._case = None

    def result(self):
        return dict(
            shard=self.shard, evaluations=self.evaluations,
            distinct=sorted(self.distinct), events=self.events,
            samples=self.samples, violations=self.violations,
            skipped=self.skipped, worst=self.worst,
            wall_s=time.time() - self.t0)


def _js(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): _js(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_js(v) for v in list(o)[:40]]
    if isinstance(o, np.ndarray):
        return [_js(v) for v in o.ravel()[:40].tolist()]
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    if isinstance(o, complex):
        return [o.real, o.imag]
    return repr(o)[:300]


# ---------------------------------------------------------------------------
def load_check(prop):
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.path.join(VERIF, 'lib'))
    return importlib.import_module('checks.' + prop.lower())


def worker_main(argv):
    prop, shard, seed, tier, only, out = argv
    import warnings
    warnings.filterwarnings('ignore')
    sys.path.insert(0, REPO)
    mod = load_check(prop)
    budget = getattr(mod, 'BUDGET', {}).get(tier)
    ctx = Ctx(prop, shard, int(seed), tier,
              None if only == '-' else int(only), budget)
    fn = mod.SHARDS[shard]
    fn = fn[0] if isinstance(fn, tuple) else fn
    err = None
    try:
        fn(ctx)
    except BaseException as e:
        err = ''.join(traceback.format_exception(e))[-6000:]
        tb = traceback.extract_tb(e.__traceback__)
        if any(os.path.realpath(f.filename).startswith(
                os.path.realpath(REPO) + '/wake_t') for f in tb) and not (
                isinstance(e, (KeyboardInterrupt, SystemExit))):
            # the code under test broke outside a case (e.g. on import)
            ctx.violations.append({
                'monitor': 'exception:' + type(e).__name__, 'shard': shard,
                'case': ctx.idx, 'params': None,
                'witness': {'traceback': err}})
            err = None
    res = ctx.result()
    res['error'] = err
    with open(out, 'w') as f:
        json.dump(res, f, default=str)


def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def match_finding(prop, v, findings):
    """Known findings are keyed by mechanism: property, shard and monitor
    name, plus required substrings of the recorded parameters."""
    for f in findings:
        if f.get('status') != 'known' or f['property'] != prop:
            continue
        if not fnmatch.fnmatch(v['shard'], f.get('shard', '*')):
            continue
        if not fnmatch.fnmatch(v['monitor'], f.get('monitor', '*')):
            continue
        par = v.get('params') or {}
        if all(par.get(k) == val for k, val in f.get('params', {}).items()):
            return f
    return None


def run(prop, tier, seed, replay=None):
    t0 = time.time()
    mod = load_check(prop)
    tmp = tempfile.mkdtemp(prefix=f'vf_{prop}_')
    shards = list(mod.SHARDS)
    only = '-'
    if replay:
        with open(replay) as f:
            rp = json.load(f)
        seed, tier = rp['seed'], rp['tier']
        shards, only = [rp['shard']], str(rp['case'])
        if rp['case'] is None or rp['case'] < 0:
            only = '-'
    limit = getattr(mod, 'HARD_LIMIT', {}).get(
        tier, 780 if tier == 'quick' else 3 * 3600)
    maxp = getattr(mod, 'MAX_PROCS', 8)
    procs, pending, results, errors = {}, list(shards), [], []
    try:
        while pending or procs:
            while pending and len(procs) < maxp:
                s = pending.pop(0)
                d = os.path.join(tmp, s)
                os.makedirs(d)
                fn = mod.SHARDS[s]
                opts = fn[1] if isinstance(fn, tuple) else {}
                env = base_env(opts.get('threads', 1),
                               opts.get('boundscheck', False))
                env.update(opts.get('env', {}))
                env['MPLCONFIGDIR'] = os.path.join(tmp, 'mpl')
                env['VF_SCRATCH'] = d
                log = open(os.path.join(d, 'log.txt'), 'w')
                p = subprocess.Popen(
                    [PY, os.path.join(VERIF, 'lib', 'vf.py'), '--worker',
                     prop, s, str(seed), tier, only,
                     os.path.join(d, 'result.json')],
                    cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT)
                procs[s] = (p, d, log)
            time.sleep(0.1)
            for s, (p, d, log) in list(procs.items()):
                rc = p.poll()
                if rc is None:
                    if time.time() - t0 > limit:
                        p.kill()
                        p.wait()
                        errors.append(f'shard {s}: watchdog after {limit} s')
                        log.close()
                        del procs[s]
                    continue
                log.close()
                del procs[s]
                rf = os.path.join(d, 'result.json')
                if os.path.exists(rf):
                    with open(rf) as f:
                        r = json.load(f)
                    results.append(r)
                    if r['error']:
                        errors.append(f'shard {s}: {r["error"]}')
                elif rc < 0 and -rc in (4, 6, 7, 8, 11):
                    # the process running the code under test died of a
                    # memory fault / abort signal
                    results.append(dict(
                        shard=s, evaluations=1, distinct=[], events={},
                        samples=[], skipped={}, worst={}, wall_s=0,
                        violations=[{'monitor': f'signal:{-rc}', 'shard': s,
                                     'case': None, 'params': None,
                                     'witness': {}}], error=None))
                else:
                    with open(os.path.join(d, 'log.txt')) as f:
                        errors.append(f'shard {s}: rc={rc} ' +
                                      f.read()[-3000:])
    finally:
        for s, (p, d, log) in procs.items():
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    # ---- merge ----
    events, worst, skipped, samples, viol = {}, {}, {}, [], []
    distinct, evals = set(), 0
    for r in results:
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['worst'].items():
            worst[k] = max(worst.get(k, -1), v)
        for k, v in r['skipped'].items():
            skipped[k] = skipped.get(k, 0) + v
        samples += r['samples']
        distinct |= set(r['distinct'])
        evals += r['evaluations']
        viol += r['violations']
    findings = load_findings()
    known, new = {}, []
    for v in viol:
        f = match_finding(prop, v, findings)
        if f is not None:
            known.setdefault(f['key'], f)
        else:
            new.append(v)
    for f in known.values():
        print(f"KNOWN-FINDING: property={prop} {f['key']}: {f['what']}")

    inconclusive = list(errors)
    if not replay:
        for k, m in getattr(mod, 'MIN_EVENTS', {}).items():
            if events.get(k, 0) < m:
                inconclusive.append(
                    f'monitor event {k!r} observed {events.get(k, 0)} < {m}')
        if len(distinct) == 0:
            inconclusive.append('no non-trivial case was observed')

    ev = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=evals, distinct_nontrivial=len(distinct),
            rule=mod.RULE, samples=samples[:12],
            monitor_events={k: events[k] for k in sorted(events)},
            worst_error_over_tolerance={
                k: worst[k] for k in sorted(worst)},
            skipped=skipped, shards=[
                dict(shard=r['shard'], evaluations=r['evaluations'],
                     wall_s=round(r['wall_s'], 1)) for r in results],
            known_findings=sorted(known), inconclusive=inconclusive,
        ),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - t0, 2), violations=len(new))
    evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(
        VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    if not replay:
        with open(os.path.join(evdir, f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print(f'{prop} {tier} seed={seed}: {evals} cases, {len(distinct)} '
          f'distinct non-trivial, {sum(events.values())} monitor events, '
          f'{len(new)} violations, {len(known)} known findings, '
          f'{ev["wall_s"]} s')
    if new:
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        first = None
        for v in new:
            k = (v['monitor'], v['shard'])
            if k in seen and not os.environ.get('VF_ALL'):
                continue
            seen.add(k)
            path = os.path.join(
                rdir, f'{prop}_{tier}_{seed}_{len(seen)}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, **v,
                               how='run_check.py %s --replay <this file>'
                               % prop), f, indent=1, default=str)
            first = first or path
            if len(seen) <= 12:
                print(f'  violated: {v["monitor"]} shard={v["shard"]} '
                      f'case={v["case"]} params={str(v["params"])[:300]} '
                      f'witness={str(v["witness"])[-700:]}')
        print(f'VIOLATION property={prop} replay={first}')
        return 1
    if inconclusive:
        for e in inconclusive:
            print('INCONCLUSIVE:', e)
        return 3
    return 0


if __name__ == '__main__':
    if sys.argv[1] == '--worker':
        # `vf` must be one module, whether run as a script or imported.
        sys.modules['vf'] = sys.modules['__main__']
        worker_main(sys.argv[2:])
