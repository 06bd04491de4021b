"""P02: numerical fields and outputs fire at their own regular times, in time
order, each seeing the bunches at the right place."""
import os
import numpy as np
import scipy.constants as ct
import sched
from common import W, imp, bunch_arrays

PROPERTY = 'P02'
RULE = ('Random field-tracking configurations (see P01) with recording '
        'bunches, recording numerical fields and a recording diagnostics '
        'object; the event log is judged offline. Non-trivial: at least one '
        'numerical field with >= 2 updates, or >= 2 outputs interleaved with '
        '>= 2 pushes; distinct by configuration.')
ASSUMPTIONS = [
    'Times are compared with a tolerance of 1e-6 of the transit time: the '
    'scheduler orders events in single precision by design.']
MIN_EVENTS = {'update': 300, 'diag': 300, 'push': 1000,
              'adjusted_again': 8, 'monitor:model_updates': 12}
TOL = 1e-6


def judge(ctx, cfg, log, fields, bunches):
    L = cfg['L']
    T = L / ct.c
    nb = len(bunches)
    ev = [e for e in log.ev if e['kind'] in ('push', 'update', 'diag', 'zpos')]
    short = [(e['kind'], e.get('b', e.get('f')), round(e.get('t', 0) / T, 9),
              e.get('dt', 0) / T) for e in ev]
    # --- numerical fields: regular times -------------------------------
    for i, c in enumerate(cfg['fields']):
        dt = c['dt']
        up = [e['t'] for e in ev if e['kind'] == 'update' and e['f'] == i]
        if c['even']:
            # one update more or less if the period divides the transit time
            # up to rounding
            N = {np.ceil(T / dt * (1 - 1e-8)), np.ceil(T / dt * (1 + 1e-8))}
            dt = T / (len(up) - 1 if len(up) - 1 in N else min(N))
        n = int(np.floor(T / dt * (1 + TOL)))
        ctx.event('update', len(up))
        w = dict(field=i, dt=dt / T, times=[u / T for u in up])
        ctx.check('number_of_updates', len(up) == n + 1, expected=n + 1, **w)
        for k, u in enumerate(up):
            ctx.close('update_time', abs(u - k * dt) / T, TOL, k=k, **w)
        ctx.close('period_kept', abs(fields[i].dt_update - dt) / T, 1e-9, **w)
        if c['even']:
            ctx.check('period_never_larger',
                      fields[i].dt_update <= c['dt'] * (1 + 1e-8), **w)
            ctx.close('last_update_at_exit', abs(up[-1] - T) / T
                      if up else 1, TOL, **w)
        ini = [e for e in log.ev if e['kind'] == 'init' and e['f'] == i]
        evo = [e for e in log.ev if e['kind'] == 'evolve' and e['f'] == i]
        ctx.check('initialised_once', len(ini) == 1, **w)
        ctx.check('evolved_once_per_later_update', len(evo) == len(up) - 1,
                  n_evolve=len(evo), **w)
    # --- outputs ---------------------------------------------------------
    dg = [e['t'] for e in ev if e['kind'] == 'diag']
    n = cfg['n_out']
    ctx.event('diag', len(dg))
    ctx.check('number_of_outputs', len(dg) == n + 1, expected=n + 1,
              times=[d / T for d in dg])
    for k, d in enumerate(dg):
        ctx.close('output_time', abs(d - k * T / n) / T, TOL, k=k)
    zp = [e for e in ev if e['kind'] == 'zpos']
    ctx.check('position_advanced_once', len(zp) == 1 and ev and
              ev[-1]['kind'] == 'zpos', log=short[-6:])
    if zp:
        ctx.close('position_advance', abs(zp[0]['dist'] - L) / L, 1e-9)
    # --- global order ------------------------------------------------------
    rank = {'push': 0, 'update': 1, 'diag': 2}
    tb = [0.] * nb            # time reached by each bunch
    tf = {}                   # last update time of each field
    last = 0.
    npush = 0
    for j, e in enumerate(ev):
        if e['kind'] == 'zpos':
            continue
        t_end = e['t'] + (e['dt'] if e['kind'] == 'push' else 0.)
        ctx.close('time_order', (last - t_end) / T, TOL, log=short[
            max(0, j - 5):j + 2])
        last = max(last, t_end)
        w = dict(log=short[max(0, j - 6):j + 3])
        if e['kind'] == 'push':
            npush += 1
            ctx.event('push')
            # the fields in force during the push are neither ahead of it
            # nor stale
            for f, c in enumerate(cfg['fields']):
                ctx.check('field_computed_before_first_push', f in tf, **w)
                if f in tf:
                    ctx.close('field_not_ahead', (tf[f] - t_end) / T, TOL,
                              **w)
                    nxt = tf[f] + fields[f].dt_update
                    if nxt <= T * (1 - TOL):
                        ctx.close('field_not_stale', (t_end - nxt) / T, TOL,
                                  **w)
            tb[e['b']] = t_end
        elif e['kind'] == 'update':
            ctx.check('sees_all_bunches', e['nb'] == nb, **w)
            for b in range(min(nb, e['nb'])):
                pos = (e['pd'][b] - cfg['bunches'][b]['pd0']) / L
                ctx.close('sees_current_bunch', abs(pos - tb[b] / T), TOL,
                          **w)
                ctx.close('bunch_not_ahead_of_field', pos - e['t'] / T, TOL,
                          **w)
            tf[e['f']] = e['t']
        elif e['kind'] == 'diag':
            for f in range(len(cfg['fields'])):
                ctx.check('fields_exist_at_output', f in tf, **w)
                if f in tf:
                    nxt = tf[f] + fields[f].dt_update
                    ctx.close('output_field_current',
                              (e['t'] - nxt) / T, TOL, **w)
            if cfg['before']:
                for b in range(nb):
                    ctx.close('output_bunch_current',
                              abs(tb[b] - e['t']) / T, TOL, **w)
    # ties: everything due at the same instant runs bunch -> field -> output
    for j in range(1, len(ev)):
        a, b = ev[j - 1], ev[j]
        if 'zpos' in (a['kind'], b['kind']) or a['t'] == 0:
            continue
        ta = a['t'] + (a['dt'] if a['kind'] == 'push' else 0)
        tb_ = b['t'] + (b['dt'] if b['kind'] == 'push' else 0)
        small = b['kind'] == 'push' and abs(b['dt']) < TOL * T
        if abs(ta - tb_) < 1e-9 * T and not small and ta > 1e-9 * T:
            if rank[a['kind']] > rank[b['kind']]:
                # only an output-triggered push may follow an update
                ok = (a['kind'] == 'update' and b['kind'] == 'push'
                      and cfg['before'])
                ctx.check('tie_order', ok, log=short[max(0, j - 4):j + 3])
            else:
                ctx.event('tie')
    nup = sum(e['kind'] == 'update' for e in ev)
    return npush, nup, len(dg)


def w_random(ctx):
    for i, rng in ctx.cases(ctx.n(150, 3000)):
        cfg = sched.gen_config(rng, max_fields=3)
        if i % 4 == 1:
            cfg['used_before'] = float(rng.uniform(.3, 3))
        with ctx.case(**cfg):
            log = sched.Log()
            b, f, out, init = sched.run_config(
                cfg, rng, log, tmpdir=os.path.join(os.getcwd(), 'd'))
            p, u, d = judge(ctx, cfg, log, f, b)
            if cfg.get('used_before') and any(
                    c['even'] for c in cfg['fields']):
                ctx.event('adjusted_again')
            if u >= 2 or (d >= 2 and p >= 2):
                ctx.nontrivial(cfg)


def w_ties(ctx):
    """Commensurate steps, so that pushes, updates and outputs coincide."""
    for i, rng in ctx.cases(ctx.n(100, 2000)):
        L = float(10.**rng.uniform(-5, 1))
        T = L / ct.c
        base = int(rng.choice([2, 3, 4, 6, 7, 12]))
        cfg = dict(L=L, n_out=base, pusher='boris',
                   before=bool(rng.random() < 0.5),
                   via=str(rng.choice(['element', 'tracker', 'stage'])),
                   bunches=[], fields=[])
        for k in range(int(rng.integers(1, 4))):
            cfg['bunches'].append(dict(
                kind='tie', dt=T / (base * int(rng.choice([1, 2, 3]))),
                auto0=T, autok=0., n=2, pd0=0.))
        for k in range(int(rng.integers(1, 3))):
            cfg['fields'].append(dict(
                dt=T / (base * int(rng.choice([1, 2, 5]))),
                even=bool(rng.random() < 0.3)))
        with ctx.case(**cfg):
            log = sched.Log()
            b, f, out, init = sched.run_config(
                cfg, rng, log, tmpdir=os.path.join(os.getcwd(), 'd'))
            judge(ctx, cfg, log, f, b)
            # with everything commensurate and bunch steps that divide the
            # field steps, each update sees every bunch exactly at its time
            for e in log.ev:
                if e['kind'] != 'update':
                    continue
                for k, c in enumerate(cfg['bunches']):
                    r = e['t'] / c['dt']
                    if abs(r - round(r)) < 1e-9:
                        ctx.close('update_sees_bunch_at_its_time',
                                  abs(e['pd'][k] / ct.c - e['t']) / T, TOL)
            ctx.nontrivial(cfg)


def w_clock(ctx):
    """The time a field is asked for lies inside the push that asks."""
    for i, rng in ctx.cases(ctx.n(40, 500)):
        cfg = sched.gen_config(rng, max_bunches=1, max_fields=1)
        if not cfg['bunches'] or not cfg['fields']:
            cfg['bunches'] = cfg['bunches'] or [dict(
                kind='x', dt=cfg['L'] / ct.c / 5, auto0=1., autok=0., n=2,
                pd0=0.)]
            cfg['fields'] = cfg['fields'] or [dict(
                dt=cfg['L'] / ct.c / 4, even=False)]
        with ctx.case(**cfg):
            log = sched.Log()
            sched.run_config(cfg, rng, log)
            T = cfg['L'] / ct.c
            pend = []
            for e in log.ev:
                if e['kind'] == 'gather':
                    pend.append(e['t'])
                elif e['kind'] == 'push':
                    ctx.event('push')
                    ctx.check('field_gathered_in_push', len(pend) > 0)
                    for t in pend:
                        ctx.check('gather_time_inside_push',
                                  min(e['t'], e['t'] + e['dt']) - TOL * T <= t
                                  <= e['t'] + e['dt'] + TOL * T,
                                  t=t / T, push=[e['t'] / T, e['dt'] / T])
                    if len(pend) > 1:   # multi-stage: spans the push
                        ctx.close('stages_span_push', abs(
                            max(pend) - e['t'] - e['dt']) / T, TOL)
                        ctx.close('stages_start_push', abs(
                            min(pend) - e['t']) / T, TOL)
                    else:
                        ctx.close('midpoint', abs(
                            pend[0] - e['t'] - e['dt'] / 2) / T, TOL)
                    pend = []
            ctx.nontrivial(cfg)


def w_models(ctx):
    """The grid-based wakefields keep the period that is asked for (by
    default the length of their box), however long it is."""
    for i, rng in ctx.cases(ctx.n(16, 200)):
        box = float(rng.uniform(5e-5, 2e-4))
        model = ('cold_fluid_1d', 'quasistatic_2d')[i % 4 == 3]
        dz = None if i % 3 == 0 else float(box * 10**rng.uniform(-.5, 2.2))
        d = box if dz is None else dz
        L = float(d * rng.uniform(.4, 12))
        las = bool(rng.random() < .5)
        xm = float(rng.uniform(0., 5e-5))
        cfg = dict(box=box, model=model, dz=dz, L=L, laser=las, xi_max=xm,
                   evolution=bool(rng.random() < .5))
        with ctx.case(**cfg):
            kw = dict(xi_max=xm, xi_min=xm - box, r_max=6e-5, n_xi=12, n_r=8)
            if dz is not None:
                kw['dz_fields'] = dz
            if las:
                kw.update(laser=W.GaussianPulse(xm - .3 * box, .3, 2e-5,
                                                2e-14),
                          laser_evolution=cfg['evolution'])
            if model[0] == 'q':
                kw['ppc'] = 1
            el = W.PlasmaStage(L, 1e22, model, n_out=1,
                               dt_bunch=L / ct.c / 3, **kw)
            f = el.fields[0]
            log = []
            orig = f.calculate_field

            def spy(*a, **k):
                log.append(float(f.t))
                return orig(*a, **k)
            f.calculate_field = spy
            el.track([], show_progress_bar=False)
            T, dt = L / ct.c, d / ct.c
            if las:
                N = {np.ceil(T / dt * (1 - 1e-8)),
                     np.ceil(T / dt * (1 + 1e-8))}
                n = len(log) - 1
                ctx.check('model_updates', n in N, got=n, want=list(N))
                dt = T / min(N) if n not in N else T / n
            else:
                N = {np.floor(T / dt * (1 - TOL)), np.floor(T / dt * (
                    1 + TOL))}
                ctx.check('model_updates', len(log) - 1 in N,
                          got=len(log) - 1, want=list(N))
            for k, t in enumerate(log):
                ctx.close('model_update_time', abs(t - k * dt) / T, TOL, k=k)
            ctx.nontrivial(cfg)


SHARDS = {'models': w_models, 'random': w_random, 'ties': w_ties, 'clock': w_clock}
