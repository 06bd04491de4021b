"""P04: tracking never creates, loses, reorders or re-weights macroparticles."""
import numpy as np
import scipy.constants as ct
from common import (W, imp, bunch_arrays, make_bunch, state, state_err)
from checks.p03 import build_tm, gen_tm, KINDS, make_meta, same_bunch

PROPERTY = 'P04'
RULE = ('Random bunches (distinct weights, tags, several species) through '
        'every element type (all wakefield models, ramps, lenses, '
        'quadrupoles, transfer-map elements with and without CSR); each run '
        'is repeated with the macroparticles permuted and, where there is no '
        'collective effect, with a random subset. Non-trivial: >= 3 '
        'macroparticles and the element changes the momenta; distinct by '
        'element and parameters.')
ASSUMPTIONS = ['Permutation / subset runs are compared to 1e-6 of the spread '
               'of each coordinate (summation order differs).']
MIN_EVENTS = {'monitor:weights': 200, 'monitor:permutation': 150,
              'monitor:subset': 80}


def laser():
    return W.GaussianPulse(xi_c=30e-6, l_0=8e-7, w_0=2e-5, a_0=1.5, tau=1.5e-14,
                           z_foc=0.)


def build(kind, r, L, n_out, pusher, dens, k, prof):
    E = imp('wake_t.beamline_elements')
    kw = dict(n_out=n_out, bunch_pusher=pusher)
    grid = dict(r_max=60e-6, xi_min=-60e-6, xi_max=50e-6, n_r=24, n_xi=44)
    if kind == 'focusing_blowout':
        return W.PlasmaStage(L, dens, kind, **kw)
    if kind == 'simple_blowout':
        return W.PlasmaStage(L, dens, kind, laser=laser(), **kw)
    if kind == 'custom_blowout':
        return W.PlasmaStage(L, dens, kind, laser=laser(), lon_field=-1e9,
                             lon_field_slope=1e13, foc_strength=k, **kw)
    if kind == 'quasistatic_2d':
        return W.PlasmaStage(L, dens, kind, ppc=2, dz_fields=L / 3,
                             laser=laser() if k > 50 else None, **grid, **kw)
    if kind == 'cold_fluid_1d':
        return W.PlasmaStage(L, dens, kind, laser=laser(), dz_fields=L / 3,
                             beam_wakefields=True, **grid, **kw)
    if kind == 'ramp':
        return W.PlasmaRamp(L, profile=prof, plasma_dens_top=dens,
                            plasma_dens_down=dens / 30,
                            ramp_type='downramp' if k > 50 else 'upramp',
                            **kw)
    if kind == 'lens':
        return W.ActivePlasmaLens(L, k, **kw)
    if kind == 'fquad':
        return E.FieldQuadrupole(L, k, **kw)
    raise KeyError(kind)


def run_pair(ctx, make, a, attrs, L, rng, collective, tol=1e-6, rot=None):
    n = len(a['w'])

    def go(idx, eps=0.):
        b = make_bunch({k: v[idx] * (1 + eps) if k in 'xy' else v[idx]
                        for k, v in a.items()}, name='bb',
                       prop_distance=0.7, tags=np.arange(n)[idx] * 2 + 1,
                       **attrs)
        m = make_meta(b)
        out = make().track(b, show_progress_bar=False)
        ctx.event('tracked')
        for o in [b] + list(out):
            ctx.check('number', all(len(np.atleast_1d(getattr(o, c))) ==
                                    len(idx) for c in
                                    ('x', 'y', 'xi', 'px', 'py', 'pz', 'w')))
            ctx.check('weights', np.array_equal(o.w, m.w))
            ctx.check('charge', np.isclose(np.sum(o.q), np.sum(m.w) *
                                           m.q_species, rtol=1e-12))
        same_bunch(ctx, 'attributes', b, m)
        ctx.close('prop_distance', abs(b.prop_distance - 0.7 - L) / L, 1e-6)
        return state(b)
    full = go(np.arange(n))
    init = np.array([a[c] for c in ('x', 'y', 'xi', 'px', 'py', 'pz')])
    ctx.check('finite', np.all(np.isfinite(full)))
    # scale of each coordinate: its spread plus how much it changed
    sc = (np.std(full, axis=1) + np.max(np.abs(full - init), axis=1)
          + 1e-12 * np.max(np.abs(full), axis=1) + 1e-30)
    perm = rng.permutation(n)
    err = state_err(go(perm), full[:, perm], sc)
    if collective and err > tol:
        # rounding amplified by the plasma?  A change of the last digits of
        # the positions tells how much.
        amp = max(state_err(go(np.arange(n), e), full, sc)
                  for e in (1e-13, -1e-13))
        tol = max(tol, 3 * amp)
        ctx.event('sensitive')
    ctx.close('permutation', err, tol)
    if not collective:
        sub = rng.permutation(n)[:max(1, n // 2)]
        ctx.close('subset', state_err(go(sub), full[:, sub], sc), tol)
        one = np.array([int(rng.integers(0, n))])
        ctx.close('subset', state_err(go(one), full[:, one], sc), tol)
    return np.max(np.abs(full[3:] - init[3:])) > 0


def w_field(models):
    def w(ctx):
        for i, rng in ctx.cases(ctx.n(40, 500)):
            kind = models[i % len(models)]
            L = float(10.**rng.uniform(-4, -2))
            n = int(rng.integers(3, 60))
            n_out = int(rng.integers(1, 4))
            pusher = str(rng.choice(['boris', 'rk4']))
            dens = float(10.**rng.uniform(22, 24))
            k = float(10.**rng.uniform(0.5, 3))
            prof = str(rng.choice(['inverse_square', 'gaussian',
                                   'exponential']))
            sp = [(-ct.e, ct.m_e), (ct.e, ct.m_e), (ct.e, ct.m_p),
                  (2 * ct.e, 4 * ct.m_p), (-2 * ct.e, 3 * ct.m_e)][
                      int(rng.integers(0, 5))]
            with ctx.case(kind=kind, L=L, n=n, n_out=n_out, pusher=pusher,
                          dens=dens, k=k, prof=prof, q=sp[0], m=sp[1]):
                a = bunch_arrays(rng, n, pz=float(10**rng.uniform(2, 3.5)),
                                 size=3e-6, sxi=5e-6, q=3e-11 * ct.e / abs(sp[0]))
                # same adaptive step for the subsets: fix the slowest
                el0 = build(kind, rng, L, n_out, pusher, dens, k, prof)
                dt = el0.auto_dt_bunch(make_bunch(
                    a, q_species=sp[0], m_species=sp[1]))
                if L / ct.c / dt > 400:
                    dt = L / ct.c / 400

                coll = kind in ('quasistatic_2d', 'cold_fluid_1d')

                def make():
                    # (analytic fields compile per instance: share it)
                    el = build(kind, rng, L, n_out, pusher, dens, k, prof
                               ) if coll else el0
                    el.dt_bunch = dt
                    return el
                if run_pair(ctx, make, a, dict(q_species=sp[0],
                                               m_species=sp[1]), L, rng,
                            coll):
                    ctx.nontrivial([kind, L, n, dens, k])
    return w


def w_tm(ctx):
    for i, rng in ctx.cases(ctx.n(60, 1000)):
        kind = KINDS[i % 5]
        L = float(10**rng.uniform(-2, 0.5))
        n_out = None if rng.random() < .3 else int(rng.integers(1, 6))
        order = int(rng.choice([1, 2]))
        p = gen_tm(rng, L, 1, kind)
        n = int(rng.integers(3, 30))
        explicit = bool(rng.random() < 0.6)
        with ctx.case(kind=kind, L=L, n_out=n_out, order=order, n=n,
                      explicit=explicit, **p):
            a = bunch_arrays(rng, n, pz=1000., size=1e-5)
            g = 1001. if explicit else None
            ok = run_pair(
                ctx, lambda: build_tm(kind, p, L, n_out, g, order), a,
                dict(), L, rng, collective=not explicit)
            if ok or kind == 'drift':
                ctx.nontrivial([kind, L, n_out, order, n])


def w_csr(ctx):
    set_csr = W.set_csr_settings
    reset = imp('wake_t.physics_models.collective_effects.csr',
                'reset_csr_calculator')
    E = imp('wake_t.beamline_elements')
    for i, rng in ctx.cases(ctx.n(10, 120)):
        L = float(rng.uniform(0.1, 0.6))
        step = float(rng.choice([.1, L / 7, L / rng.uniform(1, 15)]))
        th = float(rng.uniform(-0.2, 0.2))
        n_out = [None, 1, 2, 3][int(rng.integers(0, 4))]
        n = 400
        with ctx.case(kind='csr_dipole', L=L, theta=th, n_out=n_out,
                      step=step):
            set_csr(csr_step=step, csr_traj_step=0.002, n_bins=200)
            a = bunch_arrays(rng, n, pz=1000., size=1e-5, sxi=5e-6, q=1e-9,
                             spread=1e-3, div=1e-4)

            def make():
                reset()
                return E.Dipole(length=L, theta=th, csr_on=True, n_out=n_out,
                                gamma_ref=1000.)
            if run_pair(ctx, make, a, dict(), L, rng, collective=True,
                        tol=1e-5):
                ctx.nontrivial([L, th, n_out])


SHARDS = {
    'analytic1': w_field(['focusing_blowout', 'simple_blowout', 'lens']),
    'analytic2': w_field(['custom_blowout', 'ramp', 'fquad']),
    'quasistatic': w_field(['quasistatic_2d']),
    'coldfluid': w_field(['cold_fluid_1d']),
    'tm': w_tm, 'csr': w_csr}
