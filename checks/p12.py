"""P12: nothing behind a position changes the wakefield ahead of it."""
import numpy as np
import scipy.constants as ct
import wf
from common import W, imp, state, relerr, make_bunch

PROPERTY = 'P12'
RULE = ('Pairs of real runs that differ only behind a position xi_0 (bunches '
        'added, removed, moved or recharged there; laser pulse changed there; '
        'box extended to the rear), for both r-z models, all particle shapes '
        'and plasma pushers, as single field computations and as full '
        'tracking with evolving laser. Everything ahead of xi_0 plus the '
        'stencil (3 cells) must coincide. Non-trivial: the two runs differ '
        'behind xi_0; distinct by configuration.')
ASSUMPTIONS = ['Stencil margin: two cells of particle shape plus one of the '
               'longitudinal derivative.']
MIN_EVENTS = {'monitor:ahead_fields': 60, 'monitor:driver_unaffected': 4,
              'monitor:rear_extension': 12, 'differs_behind': 20,
              'monitor:ahead_of_laser_tail': 40, 'laser_tail_differs': 8}
BUDGET = {'quick': 150., 'thorough': 1500.}


def cmp_ahead(ctx, name, f, g, k, xi0, margin=3.5, rows=None, tol=1e-10):
    n_xi = k['n_xi']
    xi = np.linspace(k['xi_min'], k['xi_max'], n_xi)
    dxi = xi[1] - xi[0]
    sel = xi > xi0 + margin * dxi
    for n in wf.NAMES:
        a, b = wf.core(f, n), wf.core(g, n)
        if a.shape[0] != n_xi:
            a = a[-n_xi:]
        if b.shape[0] != n_xi:
            b = b[-n_xi:]
        sc = np.max(np.abs(a)) + 1e-300
        ctx.close(name, np.max(np.abs(a[sel] - b[sel]), initial=0) / sc, tol,
                  field=n, xi0=xi0)


def w_fields(model):
    def w(ctx):
        for i, rng in ctx.cases(ctx.n(24, 600)):
            n_p, sd, k = wf.grid(rng, model)
            L = k['xi_max'] - k['xi_min']
            las = wf.laser(rng, n_p, k) if rng.random() < .6 else None
            dxi = L / (k['n_xi'] - 1)
            xi0 = float(k['xi_min'] + L * rng.uniform(.15, .6))
            if rng.random() < .3:   # exactly on a grid line
                xi0 = float(k['xi_min'] + dxi * round(
                    (xi0 - k['xi_min']) / dxi))
            mode = int(rng.integers(4))
            with ctx.case(model=model, n_p=n_p, las=las, xi0=xi0, mode=mode,
                          **k):
                drv = wf.beam(rng, n_p, k, xi0 + .1 * L, k['xi_max'] - .05
                              * L, rng.uniform(.1, 1.))
                wit = wf.beam(rng, n_p, k, max(k['xi_min'] - .1 * L, xi0 - L),
                              xi0, rng.uniform(.1, 2.),
                              sp=ct.e * rng.choice([-1, 1]))
                one, two = [drv], [drv, wit]
                if mode == 1:
                    one = [wit, drv]
                    w2 = dict(a=dict(wit['a'], w=wit['a']['w'] * 2.),
                              sp=-wit['sp'])
                    two = [drv, w2]
                elif mode == 2:
                    # trailing particles inside the same bunch
                    both = {c: np.concatenate([drv['a'][c], wit['a'][c]])
                            for c in drv['a']}
                    two = [dict(a=both, sp=drv['sp'])]
                elif mode == 3:
                    one = [drv, wit]
                    a2 = dict(wit['a'])
                    a2['xi'] = a2['xi'] - rng.uniform(0, .3) * L
                    a2['x'] = a2['x'] * 2
                    two = [drv, dict(a=a2, sp=wit['sp'])]
                f = wf.fields(model, n_p, k, las, wf.bunches(one))
                g = wf.fields(model, n_p, k, las, wf.bunches(two))
                cmp_ahead(ctx, 'ahead_fields', f, g, k, xi0)
                if relerr(wf.core(f, 'e_r'), wf.core(g, 'e_r')) > 1e-6:
                    ctx.event('differs_behind')
                    ctx.nontrivial([model, mode, n_p])
                # a longer box behind
                m = int(rng.integers(1, 30))
                k2 = dict(k, n_xi=k['n_xi'] + m, xi_min=k['xi_min'] - m * dxi)
                h = wf.fields(model, n_p, k2, las, wf.bunches(one))
                # particles at the old rear are now deposited: stay clear
                # (tiny differences of the grid coordinates are amplified)
                cmp_ahead(ctx, 'rear_extension', f, h, k, k['xi_min'],
                          tol=2e-5)
    return w


def w_track(model):
    """User view: a trailing bunch does not change what is ahead of it."""
    def w(ctx):
        for i, rng in ctx.cases(ctx.n(5, 80)):
            n_p, sd, k = wf.grid(rng, model)
            L = k['xi_max'] - k['xi_min']
            las = wf.laser(rng, n_p, k) if i % 2 else None
            xi0 = float(k['xi_min'] + .35 * L)
            with ctx.case(model=model, n_p=n_p, las=las, **k):
                drv = wf.beam(rng, n_p, k, xi0 + .15 * L,
                              k['xi_max'] - .1 * L, rng.uniform(.1, .5))
                wit = wf.beam(rng, n_p, k, k['xi_min'] + .1 * L, xi0,
                              rng.uniform(.1, 1.))
                length = 30 * L
                out = []
                for bb in ([drv], [drv, wit]):
                    bs = wf.bunches(bb)
                    for b in bs:
                        b.pz[:] *= 3
                        b.px[:] *= .1
                        b.py[:] *= .1
                    st = wf.stage(
                        model, n_p, k, las, length=length,
                        dt_bunch=length / 40 / ct.c, dz_fields=length / 8,
                        n_out=2,
                        bunch_pusher=('boris', 'rk4')[int(i % 2)])
                    s0 = state(bs[0])
                    st.track(bs, show_progress_bar=False)
                    out.append((bs, st.fields[0], s0))
                a, b = state(out[0][0][0]), state(out[1][0][0])
                ch = a - out[0][2]
                sc = [max(np.max(np.abs(a[j])), 1e-300) for j in range(6)]
                ctx.close('driver_unaffected', max(
                    np.max(np.abs(a[j] - b[j])) / sc[j] for j in range(6)),
                    1e-6)
                if np.max(np.abs(ch[5]) / sc[5]) > 1e-6:
                    ctx.event('driver_moved')
                if las is not None:
                    A = out[0][1].laser.get_envelope()
                    B = out[1][1].laser.get_envelope()
                    xi = np.linspace(k['xi_min'], k['xi_max'], k['n_xi'])
                    sel = xi > xi0 + 5 * (xi[1] - xi[0])
                    ctx.close('laser_unaffected', np.max(np.abs(
                        A[sel] - B[sel])) / np.max(np.abs(A)), 1e-9)
                    ctx.check('laser_changed_behind', True)
                ctx.nontrivial(['track', model, n_p])
    return w


def tailed(las, amp, lo, hi):
    """The pulse plus something of its own between lo and hi."""
    G = imp('wake_t', 'GaussianPulse')

    class Pulse(G):
        def _envelope_function(self, xi, r, z_pos):
            u = (xi - lo) / (hi - lo)
            t = np.where((u > 0) & (u < 1), np.sin(np.pi * np.clip(
                u, 0, 1))**2, 0.)
            return super()._envelope_function(xi, r, z_pos) + (
                amp * t * np.exp(-(r / self.w_0)**2))
    return Pulse(**las)


def w_laser(model):
    """Weak or strong pulses with different tails."""
    def w(ctx):
        for i, rng in ctx.cases(ctx.n(12, 200)):
            n_p, sd, k = wf.grid(rng, model)
            L = k['xi_max'] - k['xi_min']
            las = wf.laser(rng, n_p, k, pos=(.15, .3))
            las['a_0'] = float(10**rng.uniform(-2.5, .3))
            las['tau'] = float(min(las['tau'], .06 * L / ct.c))
            amp = [float(10**rng.uniform(-2.5, .6)) * np.exp(
                1j * rng.uniform(0, 6)) for _ in range(2)]
            amp[int(rng.integers(2))] *= float(rng.integers(2))
            xi0 = float(k['xi_min'] + .45 * L)
            lo = float(k['xi_min'] + .1 * L)
            beam = [wf.beam(rng, n_p, k, xi0 + .1 * L, k['xi_max'] - .05 * L,
                            float(10**rng.uniform(-4, -1)))
                    ] if i % 3 == 0 else []
            with ctx.case(model=model, n_p=n_p, las=las, amp=[
                    abs(a) for a in amp], beam=len(beam), **k):
                out = [wf.fields(model, n_p, dict(k, laser=tailed(
                    las, a, lo, xi0)), None, wf.bunches(beam)) for a in amp]
                xi = np.linspace(k['xi_min'], k['xi_max'], k['n_xi'])
                sel = xi > xi0 + 3 * (xi[1] - xi[0])
                for n in wf.NAMES:
                    a, b = (wf.core(f, n)[sel] for f in out)
                    sc = np.max(np.abs(a)) + 1e-300
                    ctx.close('ahead_of_laser_tail', np.max(np.abs(
                        a - b)) / sc, 1e-8, field=n)
                if relerr(wf.core(out[0], 'e_z'), wf.core(
                        out[1], 'e_z')) > 1e-6:
                    ctx.event('laser_tail_differs')
                    ctx.nontrivial(['laser', model, n_p])
    return w


SHARDS = {'laser_qs': w_laser('quasistatic_2d'),
          'laser_cf': w_laser('cold_fluid_1d'),
          'qs': w_fields('quasistatic_2d'), 'cf': w_fields('cold_fluid_1d'),
          'track_qs': w_track('quasistatic_2d'),
          'track_cf': w_track('cold_fluid_1d')}
