"""P01: every bunch is advanced exactly once through every instant of a
field-based element (contiguous, non-overlapping steps adding up to the
transit time, none longer than requested)."""
import numpy as np
import scipy.constants as ct
import sched
from common import W, imp, bunch_arrays, make_bunch, state, state_err

PROPERTY = 'P01'
RULE = ('Random field-tracking configurations (0-3 bunches, fixed / adaptive '
        'steps from T/400 to 1e6 T incl. exact and near-exact divisors, 0-2 '
        'numerical fields, 1-40 outputs, both pushers, both output-push '
        'modes, element lengths over 6 decades). Non-trivial: at least one '
        'bunch and >= 2 pushes observed by the monitor; distinct by '
        'configuration.')
ASSUMPTIONS = [
    'Times are compared with a tolerance of 1e-6 of the transit time: the '
    'scheduler orders events in single precision by design.']
MIN_EVENTS = {'push': 1000, 'monitor:sum_of_steps': 60}
TOL = 1e-6


def judge(ctx, cfg, log, bunches, out, initial):
    T = cfg['L'] / ct.c
    npush = 0
    for i, (b, c) in enumerate(zip(bunches, cfg['bunches'])):
        ev = [e for e in log.ev if e['kind'] == 'push' and e['b'] == i]
        npush += len(ev)
        ctx.event('push', len(ev))
        info = dict(bunch=i, steps=[(e['t'] / T, e['dt'] / T)
                                    for e in ev][-12:])
        tot = sum(e['dt'] for e in ev)
        ctx.close('sum_of_steps', abs(tot - T) / T, TOL, **info)
        ctx.close('first_step_at_entrance', abs(ev[0]['t']) / T if ev else 1,
                  TOL, **info)
        t = 0.
        pd = c['pd0']
        for e in ev:
            ctx.close('contiguous', abs(e['t'] - t) / T, TOL, **info)
            ctx.close('not_backwards', max(0., -e['dt'] / T), TOL, **info)
            ctx.close('within_element', max(0, (e['t'] + e['dt'] - T) / T),
                      TOL, **info)
            # nobody else moves the bunch between pushes
            ctx.check('no_other_motion', e['pd0'] == pd or np.isclose(
                e['pd0'], pd, rtol=1e-12, atol=1e-12 * cfg['L']), **info)
            lim = e['auto'] if c['dt'] is None else c['dt']
            ctx.close('step_not_longer_than_requested',
                      (e['dt'] - lim) / T, TOL, limit=lim / T, **info)
            t = e['t'] + e['dt']
            pd = e['pd1']
        if c['dt'] is not None and not cfg['before']:
            # without output pushes all steps but the last have the
            # requested length
            for e in ev[:-1]:
                ctx.close('step_as_requested',
                          abs(e['dt'] - min(c['dt'], T)) / T, TOL, **info)
        ctx.close('prop_distance', abs(b.prop_distance - c['pd0'] - cfg['L'])
                  / cfg['L'], TOL, **info)
        # free motion (no field): coordinates at the exit are known exactly
        s0 = initial[i]
        g = np.sqrt(1 + s0[3]**2 + s0[4]**2 + s0[5]**2)
        ref = s0.copy()
        ref[0] += s0[3] / g * cfg['L']
        ref[1] += s0[4] / g * cfg['L']
        ref[2] += (s0[5] / g - 1) * cfg['L']
        sc = np.max(np.abs(ref), axis=1) + np.max(np.abs(s0), axis=1)
        ctx.close('exit_state', state_err(state(b), ref, sc), 1e-5, **info)
    return npush


def w_random(ctx):
    for i, rng in ctx.cases(ctx.n(120, 3000)):
        cfg = sched.gen_config(rng)
        if i % 4 == 3:
            # several adaptive bunches whose step shrinks on the way
            for c in cfg['bunches']:
                if rng.random() < .8:
                    c.update(kind='auto', dt=None, autok=-.9, auto0=float(
                        cfg['L'] / ct.c * rng.uniform(.1, .4)))
        with ctx.case(**cfg):
            log = sched.Log()
            bunches, fields, out, init = sched.run_config(cfg, rng, log)
            if judge(ctx, cfg, log, bunches, out, init) >= 2:
                ctx.nontrivial(cfg)


def w_cross(ctx):
    """Systematic cross product around the exit: step / transit-time ratios
    times number of outputs times output-push mode, one or two bunches."""
    ratios = [0.05, 0.1, 1/7, 0.3, 0.5, 0.5 + 1e-9, 0.999999, 1., 1 + 1e-9,
              1.001, 2.5, 1e3, np.inf]
    combos = [(r, n, b, p) for r in ratios for n in (1, 2, 5, 10)
              for b in (True, False) for p in ('boris', 'rk4')]
    for i, rng in ctx.cases(len(combos)):
        r, n, before, pusher = combos[i]
        L = float(10.**rng.uniform(-5, 1))
        T = L / ct.c
        cfg = dict(L=L, n_out=n, pusher=pusher, before=before,
                   via=str(rng.choice(['element', 'stage', 'tracker'])),
                   bunches=[dict(kind='x', dt=r * T, auto0=T, autok=0., n=3,
                                 pd0=0.)], fields=[])
        if i % 3 == 0:
            cfg['bunches'].append(dict(
                kind='auto', dt=None, auto0=r * T if np.isfinite(r) else
                T * 50, autok=float(rng.choice([0, 1.])), n=2, pd0=0.))
        if i % 4 == 1:
            cfg['fields'].append(dict(dt=T / 3.3, even=bool(i % 8 == 1)))
        with ctx.case(**cfg):
            log = sched.Log()
            bunches, fields, out, init = sched.run_config(cfg, rng, log)
            judge(ctx, cfg, log, bunches, out, init)
            ctx.nontrivial([r, n, before, pusher])


def w_noout(ctx):
    """Zero outputs: the bunch is still tracked to the exit."""
    for i, rng in ctx.cases(ctx.n(20, 200)):
        cfg = sched.gen_config(rng, max_bunches=2)
        cfg['n_out'] = 0
        with ctx.case(**cfg):
            log = sched.Log()
            bunches, fields, out, init = sched.run_config(cfg, rng, log)
            judge(ctx, cfg, log, bunches, out, init)
            if bunches:
                ctx.nontrivial(cfg)


def w_elements(ctx):
    """Shipped elements with their own adaptive step: same bookkeeping."""
    for i, rng in ctx.cases(ctx.n(40, 600)):
        kind = ['stage', 'ramp', 'lens', 'quad', 'stage_custom'][i % 5]
        L = float(10.**rng.uniform(-4, -1))
        n_out = int(rng.integers(1, 6))
        pusher = str(rng.choice(['boris', 'rk4']))
        species = [(-ct.e, ct.m_e), (ct.e, ct.m_e), (ct.e, ct.m_p)][
            int(rng.integers(0, 3))]
        pz = float(10.**rng.uniform(0.5, 4))
        dens = float(10.**rng.uniform(20, 23.5))
        k = float(10.**rng.uniform(0, 3.5))
        dt = 'auto' if rng.random() < 0.7 else L / ct.c * float(
            rng.uniform(0.05, 2))
        with ctx.case(kind=kind, L=L, n_out=n_out, pusher=pusher, pz=pz,
                      dens=dens, k=k, q=species[0], m=species[1], dt=dt):
            log = sched.Log()
            B = sched.rec_bunch_cls(log)
            b = B(**bunch_arrays(rng, 5, pz=pz), name='b', q_species=species[0],
                  m_species=species[1])
            b.idx = 0
            if kind == 'stage':
                el = W.PlasmaStage(L, dens, 'focusing_blowout', n_out=n_out,
                                   bunch_pusher=pusher, dt_bunch=dt)
            elif kind == 'stage_custom':
                las = W.GaussianPulse(xi_c=0., l_0=8e-7, w_0=2e-5, a_0=1,
                                      tau=3e-14, z_foc=0.)
                el = W.PlasmaStage(L, dens, 'custom_blowout', n_out=n_out,
                                   bunch_pusher=pusher, dt_bunch=dt,
                                   laser=las, lon_field=-1e8,
                                   lon_field_slope=1e10, foc_strength=k)
            elif kind == 'ramp':
                el = W.PlasmaRamp(
                    L, profile=str(rng.choice(['inverse_square', 'gaussian',
                                               'exponential'])),
                    ramp_type=str(rng.choice(['upramp', 'downramp'])),
                    plasma_dens_top=dens, plasma_dens_down=dens / 30,
                    n_out=n_out, bunch_pusher=pusher, dt_bunch=dt)
            elif kind == 'lens':
                el = W.ActivePlasmaLens(L, k, n_out=n_out, dt_bunch=dt,
                                        bunch_pusher=pusher)
            else:
                el = imp('wake_t.beamline_elements', 'FieldQuadrupole')(
                    L, k * rng.choice([-1, 1]), n_out=n_out, dt_bunch=dt,
                    bunch_pusher=pusher)
            f_auto = el.auto_dt_bunch
            # keep the number of steps bounded
            if dt == 'auto':
                n_steps = L / ct.c / f_auto(b)
                if n_steps > 3000:
                    el.length = L = L * 3000 / n_steps
                b.auto_f = f_auto
            T = L / ct.c
            el.track(b, show_progress_bar=False)
            ev = [e for e in log.ev if e['kind'] == 'push']
            ctx.event('push', len(ev))
            t = 0.
            for e in ev:
                ctx.close('contiguous', abs(e['t'] - t) / T, TOL)
                lim = e['auto'] if dt == 'auto' else dt
                ctx.close('step_not_longer_than_requested',
                          (e['dt'] - lim) / T, TOL)
                t += e['dt']
            ctx.close('sum_of_steps', abs(t - T) / T, TOL)
            ctx.close('prop_distance', abs(b.prop_distance - L) / L, TOL)
            if len(ev) > 1:
                ctx.nontrivial([kind, L, n_out, pusher, dt])


SHARDS = {'random': w_random, 'cross': w_cross, 'noout': w_noout,
          'elements': w_elements}
