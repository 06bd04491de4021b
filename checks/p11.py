"""P11: results do not depend on threads, and threads are given back."""
import json
import os
import subprocess
import sys
import tempfile
import shutil
import numpy as np
import scipy.constants as ct
from common import W, imp, make_bunch, bunch_arrays, state, COMP
import wf
import vf

PROPERTY = 'P11'
RULE = ('The same seeded simulations (focusing ion channel, cold fluid and '
        'quasi-static wakefields with two bunches, both pushers, with and '
        'without laser) run in processes with 1, 2, 3 and 8 threads, and the '
        'parallel kernels (pushers, gathers, depositions, resets) repeatedly '
        'with 1-8 threads on up to 200000 particles many of which fall in '
        'the same cells; results are compared particle by particle, a lost '
        'or doubled update from a race shows up as a difference. The '
        'thread setting is read before and after tracking, also when it '
        'fails. Non-trivial: more than one thread active on >1000 '
        'particles; distinct by configuration and thread count.')
ASSUMPTIONS = ['Rounding may differ between vectorised chunks (fast-math), '
               'so results are compared to 1e-9, not bit-wise.']
MIN_EVENTS = {'monitor:same_kernel': 40, 'monitor:same_tracking': 6,
              'monitor:threads_restored': 10, 'multi_thread_runs': 40}
BUDGET = {'quick': 250., 'thorough': 1500.}
TH = (2, 3, 8)


def diff(a, b):
    sc = np.max(np.abs(b))
    return np.max(np.abs(a - b)) / (sc if sc > 0 else 1.)


def w_kernels(ctx):
    import numba
    fb = W.PlasmaStage(1e-3, lambda z: 1e23 * (1 + .3 * np.sin(1e5 * z)),
                       'focusing_blowout', n_out=1).fields[0]
    for i, rng in ctx.cases(ctx.n(6, 60)):
        n = int(rng.choice([1, 3, 17, 1001, 50000, 200000]))
        n_p, sd, k = wf.grid(rng, 'cold_fluid_1d')
        with ctx.case(n=n, **k):
            a = bunch_arrays(rng, n, size=k['r_max'] * .05, q=1e-12)
            a['xi'] = rng.uniform(k['xi_min'], k['xi_max'], n)
            f = wf.fields('cold_fluid_1d', n_p, k, None,
                          [make_bunch({q: v[:min(n, 500)]
                                       for q, v in a.items()})])

            def run(t, kind):
                numba.set_num_threads(t)
                b = make_bunch(a)
                if kind in ('boris', 'rk4'):
                    b.evolve([fb, f], 0., 3e-14, kind)
                    b.evolve([fb, f], 3e-14, 3e-14, kind)
                    return state(b)
                dep = imp('wake_t.particles.deposition',
                          'deposit_3d_distribution')
                g = np.zeros((k['n_xi'] + 4, k['n_r'] + 4))
                dr = k['r_max'] / k['n_r']
                dx = (k['xi_max'] - k['xi_min']) / (k['n_xi'] - 1)
                dep(b.xi, b.x, b.y, b.w, k['xi_min'], dr / 2, k['n_xi'],
                    k['n_r'], dx, dr, g, p_shape=kind, use_ruyten=True)
                return g[None]
            for kind in ('boris', 'rk4', 'linear', 'cubic'):
                ref = run(1, kind)
                for t in TH:
                    for rep in range(2):
                        got = run(t, kind)
                        ctx.event('multi_thread_runs')
                        e = max(diff(x, y) for x, y in zip(got, ref))
                        ctx.close('same_kernel', e, 1e-9, kind=kind,
                                  threads=t)
                if n > 1000:
                    ctx.nontrivial([kind, n, i])
            numba.set_num_threads(1)


def w_restore(ctx):
    """Setting of the user is back after tracking, successful or not."""
    import numba

    class Boom(Exception):
        pass
    F = imp('wake_t.fields.numerical_field', 'NumericalField')

    class Failing(F):
        def __init__(self, when, dt):
            super().__init__(dt_update=dt)
            self.when, self.n = when, 0

        def _calculate_field(self, bunches):
            self.n += 1
            if self.n == self.when:
                raise Boom()

        def _gather(self, *a):
            pass
    for i, rng in ctx.cases(ctx.n(24, 200)):
        t = int(rng.integers(1, 9))
        when = int(rng.integers(0, 5))
        how = ('field', 'auto_dt', 'pusher', 'ok')[i % 4]
        with ctx.case(threads=t, when=when, how=how):
            L = 1e-3
            b = make_bunch(bunch_arrays(rng, 5))
            FE = imp('wake_t.beamline_elements', 'FieldElement')
            seen = []

            def auto(beam):
                seen.append(numba.get_num_threads())
                if how == 'auto_dt' and len(seen) > when:
                    raise Boom()
                return L / ct.c / 4
            el = FE(L, dt_bunch='auto', auto_dt_bunch=auto,
                    bunch_pusher='nope' if how == 'pusher' else 'boris',
                    n_out=2, fields=[Failing(
                        when + 1 if how == 'field' else -1, L / ct.c / 5)])
            numba.set_num_threads(t)
            try:
                el.track(b, show_progress_bar=False)
                ctx.event('completed')
            except (Boom, ValueError):
                ctx.event('failed_on_purpose')
            after = numba.get_num_threads()
            ctx.check('threads_restored', after == t, got=after, want=t)
            for s in seen:
                ctx.check('requested_threads', s == 1, got=s)
            numba.set_num_threads(1)
            ctx.nontrivial([t, when, how])


def w_tracking(models):
    def run(ctx):
        n = ctx.n(1, 6) if models == 'quasistatic_2d' else ctx.n(3, 20)
        for i, rng in ctx.cases(1):
            with ctx.case(models=models, n=n):
                d = tempfile.mkdtemp(prefix='p11_')
                try:
                    pr = {}
                    for t in (1,) + TH:
                        env = vf.base_env(threads=8)
                        env['WAKET_NUM_THREADS'] = str(t)
                        env['VERIF_REPO_PATH'] = vf.REPO
                        out = os.path.join(d, str(t))
                        pr[t] = subprocess.Popen(
                            [vf.PY, os.path.join(vf.VERIF, 'lib',
                                                 'thr_child.py'),
                             str(ctx.seed), models, str(n), out], env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                            text=True, cwd=d)
                    res = {}
                    for t, p in pr.items():
                        so, se = p.communicate(timeout=500)
                        r = [x for x in so.splitlines()
                             if x.startswith('RESULT ')]
                        if not r:
                            ctx.check('tracking_works', '/wake_t/' not in se,
                                      threads=t, error=se[-800:])
                            raise RuntimeError(se[-800:])
                        res[t] = json.loads(r[0][7:])
                    for j, r in enumerate(res[1]):
                        A = np.load(os.path.join(d, f'1_{j}.npz'))
                        for t in TH:
                            B = np.load(os.path.join(d, f'{t}_{j}.npz'))
                            ctx.event('multi_thread_runs')
                            e = 0.
                            for q in A.files:
                                x, y = A[q], B[q]
                                if x.ndim == 2 and x.shape[0] == 6:
                                    e = max(e, max(diff(u, v) for u, v
                                                   in zip(y, x)))
                                else:
                                    e = max(e, diff(y, x))
                            # chaotic plasma amplifies rounding
                            tol = 1e-9 if r['model'] == 'focusing_blowout' \
                                else 1e-6
                            if r['model'] == 'quasistatic_2d':
                                tol = 1e-3
                            ctx.close('same_tracking', e, tol, threads=t,
                                      model=r['model'], pusher=r['pusher'])
                            ctx.nontrivial([r['model'], j, t, ctx.seed])
                    for t in res:
                        for r in res[t]:
                            ctx.check('requested_threads',
                                      r['during'] == [t], threads=t, r=r)
                            ctx.check('threads_restored',
                                      r['threads_after'] ==
                                      r['threads_before'], threads=t, r=r)
                finally:
                    shutil.rmtree(d, ignore_errors=True)
    return run


SHARDS = {'kernels': (w_kernels, {'threads': 8}),
          'restore': (w_restore, {'threads': 8,
                                  'env': {'WAKET_NUM_THREADS': '1'}}),
          'blowout': w_tracking('focusing_blowout,cold_fluid_1d'),
          'quasistatic': w_tracking('quasistatic_2d')}
