"""P06: the force on a bunch is the sum of the fields, in any order."""
import numpy as np
import scipy.constants as ct
from common import W, imp, bunch_arrays, make_bunch, state, state_err
from checks.p05 import py_field, RandomField

PROPERTY = 'P06'
RULE = ('Random lists of 0-5 fields (all plasma models, lens, quadrupole, '
        'user-defined analytic and Python fields, with repetitions) act on '
        'random bunches, several bunches interleaved, both pushers, '
        'consecutive pushes with different lists, and through elements with '
        'external fields. Each push is repeated with ONE field that sums the '
        'separately observed fields, with the list permuted, and with '
        'zero-strength fields added. Non-trivial: at least two fields that '
        'change the motion; distinct by list and bunch.')
ASSUMPTIONS = ['User-defined analytic fields add to the output array, as the '
               'fields shipped with Wake-T do.']
MIN_EVENTS = {'monitor:sum_of_fields': 60, 'monitor:order': 40,
              'monitor:no_leftovers': 20, 'monitor:external_fields': 8}
BUDGET = {'quick': 150., 'thorough': 1500.}


def sum_field(fields):
    Field = imp('wake_t.fields.base', 'Field')

    class S(Field):
        def _gather(self, x, y, z, t, *out):
            for f in fields:
                tmp = [np.zeros_like(x) for _ in range(6)]
                f.gather(x.copy(), y.copy(), z.copy(), t, *tmp)
                for o, a in zip(out, tmp):
                    o += a
    return S()


def user_ex(x, y, z, t, ex, constants):
    for i in range(x.shape[0]):
        ex[i] += constants[0] * x[i] + constants[1]


def user_bz(x, y, z, t, bz, constants):
    for i in range(x.shape[0]):
        bz[i] += constants[1] * (1 + y[i] * 1e4)


def analytic_pool(rng):
    """One instance of everything that is analytic (compiled once)."""
    E = imp('wake_t.beamline_elements')
    AF = imp('wake_t.fields.analytical_field', 'AnalyticalField')
    laser = W.GaussianPulse(20e-6, l_0=0.8e-6, w_0=20e-6, a_0=1., tau=20e-15,
                            z_foc=0.)
    dens = 1e23
    pool = {}
    for m, kw in (('focusing_blowout', {}),
                  ('simple_blowout', dict(laser=laser, field_offset=2e-6)),
                  ('custom_blowout', dict(
                      laser=laser, lon_field=-1e9, lon_field_slope=1e14,
                      foc_strength=1e5, xi_fields=1e-6))):
        pool[m] = E.PlasmaStage(1e-3, dens, m, **kw).fields[0]
    pool['lens'] = E.ActivePlasmaLens(1e-3, 3e4).fields[0]
    pool['quad'] = E.FieldQuadrupole(1e-3, 2e4).fields[0]
    pool['zero_lens'] = E.ActivePlasmaLens(1e-3, 0.).fields[0]
    pool['user'] = AF(e_x=user_ex, b_z=user_bz, constants=[1e12, 30.])
    return pool


def rz_field(model, rng, L=2e-4):
    E = imp('wake_t.beamline_elements')
    st = E.PlasmaStage(
        L, 1e23, model, n_out=1, dz_fields=L, r_max=60e-6, xi_min=-60e-6,
        xi_max=30e-6, n_r=40, n_xi=50, **(
            dict(ppc=2) if model == 'quasistatic_2d' else
            dict(beam_wakefields=True)))
    b = make_bunch(bunch_arrays(rng, 400, size=5e-6, xi_c=5e-6, sxi=4e-6,
                                q=2e-10), name='driver')
    st.track(b, show_progress_bar=False)
    return st.fields[0]


def one(ctx, rng, pool, i, names):
    nf = int(rng.integers(0, 6)) if i % 4 else int(rng.integers(2, 6))
    pick = [names[int(k)] for k in rng.integers(0, len(names), nf)]
    n = int(rng.integers(1, 40))
    pusher = ('boris', 'rk4')[int(rng.integers(0, 2))]
    pz = float(10**rng.uniform(1, 3.3))
    with ctx.case(fields=pick, n=n, pusher=pusher, pz=pz):
        a = bunch_arrays(rng, n, size=4e-6, sxi=6e-6, pz=pz)
        seed = int(rng.integers(0, 2**31))
        rf = RandomField(np.random.default_rng(seed), pz, -ct.e, ct.m_e, 1e-2,
                         ('ex', 'ey', 'ez', 'bx', 'by', 'bz'), 1e-5)
        allf = dict(pool, python=py_field(rf))
        fl = [allf[k] for k in pick] + (
            [allf['python']] if rng.random() < .5 else [])
        dt = 1e-2 / np.sqrt(1e5 * ct.c * ct.e / ct.m_e / pz)
        t0 = float(rng.uniform(0, 3e-11))

        other = make_bunch(a, name='o')   # interleaved second bunch
        other.x += 1e-6
        oref = make_bunch(a, name='o')
        oref.x += 1e-6
        b, ref = make_bunch(a, name='b'), make_bunch(a, name='r')
        perm, rev = make_bunch(a, name='p'), make_bunch(a, name='z')
        sf = sum_field(fl)
        t = t0
        for k in range(4):
            b.evolve(fl, t, dt, pusher)
            other.evolve(fl, t, 2 * dt, pusher)
            ref.evolve([sf], t, dt, pusher)
            oref.evolve([sf], t, 2 * dt, pusher)
            o = rng.permutation(len(fl))
            perm.evolve([fl[j] for j in o], t, dt, pusher)
            rev.evolve(fl + [pool['zero_lens']], t, dt, pusher)
            ctx.event('push', 6)
            t += dt
        s0 = np.array([a[c] for c in ('x', 'y', 'xi', 'px', 'py', 'pz')])
        moved = np.max(np.abs(state(ref) - s0), axis=1)
        sc = moved + 1e-6 * np.max(np.abs(s0), axis=1)
        ctx.close('sum_of_fields', state_err(state(b), state(ref), sc), 1e-9)
        ctx.close('sum_of_fields', state_err(state(other), state(oref), sc),
                  1e-9)
        ctx.close('order', state_err(state(perm), state(ref), sc), 1e-9)
        ctx.close('zero_field', state_err(state(rev), state(ref), sc), 1e-9)
        # nothing of the fields of the last push may be left
        p = state(b)[3:].copy()
        b.evolve([], t, dt, pusher)
        ctx.check('no_leftovers', np.array_equal(state(b)[3:], p))
        f1 = [fl[0]] if fl else []
        c = make_bunch(a, name='c')
        for k, v in zip(('x', 'y', 'xi', 'px', 'py', 'pz'), state(b)):
            setattr(c, k, v.copy())
        b.evolve(f1, t, dt, pusher)
        c.evolve(f1, t, dt, pusher)
        ctx.check('no_leftovers', np.array_equal(state(b), state(c)))
        # gathering does not touch the particles and is repeatable
        for f in fl:
            xs = [state(b)[k].copy() for k in range(3)]
            keep = [v.copy() for v in xs]
            o1 = [np.zeros(n) for _ in range(6)]
            o2 = [np.full(n, 7.) for _ in range(6)]
            f.gather(*xs, t, *o1)
            f.gather(*xs, t, *o2)
            ctx.check('gather_pure', all(
                np.array_equal(u, v) for u, v in zip(xs, keep)))
            scl = [np.max(np.abs(u)) for u in o1]
            ctx.check('gather_adds', all(
                np.max(np.abs(v - 7 - u)) <= 1e-9 * (m + 10)
                for u, v, m in zip(o1, o2, scl)))
        if len(fl) > 1 and np.any(moved[3:] > 0):
            ctx.nontrivial([pick, n, pusher])


def w_analytic(ctx):
    pool = analytic_pool(None)
    for i, rng in ctx.cases(ctx.n(120, 1500)):
        one(ctx, rng, pool, i, sorted(pool))


def w_numeric(model):
    def w(ctx):
        rg = np.random.default_rng(ctx.seed)
        pool = None
        for i, rng in ctx.cases(ctx.n(60, 800)):
            if pool is None:
                with ctx.case(setup=model):
                    pool = analytic_pool(None)
                    pool[model] = rz_field(model, rg)
                if pool is None or model not in pool:
                    return
            one(ctx, rng, pool, i, [model, model] + sorted(pool))
    return w


def w_external(ctx):
    """Elements with external fields, wakefields recomputed on the way."""
    E = imp('wake_t.beamline_elements')
    for i, rng in ctx.cases(ctx.n(24, 200)):
        model = [None, 'cold_fluid_1d', 'focusing_blowout', 'apl'][i % 4]
        L = 4e-4
        n_out = int(rng.integers(1, 4))
        pusher = ('boris', 'rk4')[int(rng.integers(0, 2))]
        k = float(rng.uniform(-1e5, 1e5))
        dt = L / ct.c / float(rng.uniform(3, 9))
        with ctx.case(model=model, n_out=n_out, pusher=pusher, k=k):
            a = bunch_arrays(rng, 60, size=5e-6, xi_c=0, sxi=5e-6, pz=300.,
                             q=1e-10)
            rf = RandomField(rng, 300, -ct.e, ct.m_e, 1e-2,
                             ('ex', 'ez', 'by'), 1e-5)
            mp = dict(r_max=50e-6, xi_min=-40e-6, xi_max=40e-6, n_r=30,
                      n_xi=40, dz_fields=L / 3, beam_wakefields=True)
            common = dict(bunch_pusher=pusher, dt_bunch=dt, n_out=n_out)

            def stage(ext):
                if model == 'cold_fluid_1d':
                    return E.PlasmaStage(L, 1e23, model, external_fields=ext,
                                         **mp, **common)
                return E.PlasmaStage(L, 1e23, model if model != 'apl' else
                                     'cold_fluid_1d', external_fields=ext,
                                     **(mp if model == 'apl' else {}),
                                     **common)
            lens = E.ActivePlasmaLens(L, k).fields[0]
            ext = [lens, py_field(rf)]
            b1, b2 = make_bunch(a, name='b'), make_bunch(a, name='b')
            if model == 'apl':
                ext = [lens]
                e1 = E.ActivePlasmaLens(
                    L, k, wakefields=True, density=1e23,
                    wakefield_model='cold_fluid_1d', **mp, **common)
            else:
                e1 = stage(ext)
            e1.track(b1, show_progress_bar=False)
            s2 = stage([])
            wf = list(s2.fields)
            # same wakefield, the external part summed independently
            e2 = E.FieldElement(L, dt, pusher, n_out,
                                fields=[sum_field(ext)] + wf)
            e2.track(b2, show_progress_bar=False)
            s0 = np.array([a[c] for c in ('x', 'y', 'xi', 'px', 'py', 'pz')])
            sc = np.max(np.abs(state(b2) - s0), axis=1) + 1e-9 * np.max(
                np.abs(s0), axis=1)
            ctx.close('external_fields', state_err(
                state(b1), state(b2), sc), 1e-7)
            b3 = make_bunch(a, name='b')
            s2 = stage([])
            s2.track(b3, show_progress_bar=False)
            ctx.check('external_matters', state_err(
                state(b3), state(b1), sc) > 1e-4)
            ctx.nontrivial([model, n_out, pusher, k])


SHARDS = {'analytic': w_analytic, 'coldfluid': w_numeric('cold_fluid_1d'),
          'quasistatic': w_numeric('quasistatic_2d'), 'external': w_external}
