"""P07: analytic elements apply the documented forces and resolve them."""
import numpy as np
import scipy.constants as ct
from scipy.integrate import solve_ivp
from common import W, imp, make_bunch, state, state_err

PROPERTY = 'P07'
RULE = ('Random particles of several species tracked through the active '
        'plasma lens, the field quadrupole, plasma stages and ramps with the '
        'blowout models (random strengths, density profiles, laser delays, '
        'offsets); the result is compared with an adaptive integration of '
        'the Lorentz force of the documented closed-form fields, both with '
        'fixed steps (convergence) and adaptive steps (phase accuracy), and '
        'all recorded adaptive steps with the betatron frequency of the '
        'slowest particle. Non-trivial: the momentum changes; distinct by '
        'element and parameters.')
ASSUMPTIONS = ['Ultra-relativistic wake: group velocity of the laser from '
               'the linear dispersion relation.']
MIN_EVENTS = {'monitor:documented_force': 40, 'monitor:auto_dt': 40,
              'monitor:auto_accuracy': 15, 'monitor:gather': 40}
BUDGET = {'quick': 150., 'thorough': 1500.}
SPECIES = [(-ct.e, ct.m_e), (ct.e, ct.m_e), (ct.e, ct.m_p),
           (-ct.e, 206.77 * ct.m_e)]


def wp2(n):
    return n * ct.e**2 / (ct.m_e * ct.epsilon_0)


def profile(rng, L, n0):
    """Random smooth density profile (callable) or a number."""
    k = int(rng.integers(0, 3))
    if k == 0:
        return n0, (lambda z: n0 + 0 * z), 'const'
    a, w, ph = rng.uniform(0.2, 0.6), rng.uniform(1, 6), rng.uniform(0, 6)
    f = (lambda z: n0 * (1 + a * np.sin(w * z / L + ph)))
    return f, f, 'wave'


def setup(rng, kind, L):
    """Element maker, documented field (x,y,xi,t)->6 components, max k [T/m]
    and the field instance used by every element of the case."""
    E = imp('wake_t.beamline_elements')
    g = float(10**rng.uniform(1, 4))
    n0 = float(10**rng.uniform(21, 24))
    dens, dfun, dn = profile(rng, L, n0)
    info = dict(kind=kind, profile=dn)
    z6 = lambda x: [np.zeros_like(x) for _ in range(6)]
    if kind == 'lens':
        k = g * float(rng.choice([-1, 1]))
        info['k'] = k

        def mk(**kw):
            return E.ActivePlasmaLens(L, k, **kw)

        def fld(x, y, xi, t):
            f = z6(x)
            # focusing electrons for k>0:  F_x = -e c k x
            f[3], f[4] = k * y, -k * x
            return f
        kmax = abs(k)
    elif kind == 'fquad':
        k = g * float(rng.choice([-1, 1]))
        info['k'] = k

        def mk(**kw):
            return E.FieldQuadrupole(L, k, **kw)

        def fld(x, y, xi, t):
            f = z6(x)
            f[3], f[4] = -k * y, -k * x
            return f
        kmax = abs(k)
    else:
        laser = W.GaussianPulse(
            float(rng.uniform(-6e-5, 6e-5)), l_0=float(rng.uniform(4e-7, 2e-6)),
            w_0=20e-6, a_0=1., tau=20e-15, z_foc=0.)
        ramp = kind.startswith('ramp')
        model = kind.split(':')[-1]
        if ramp:
            prof = ['inverse_square', 'gaussian', 'exponential'][
                int(rng.integers(0, 3))]
            typ = ['upramp', 'downramp'][int(rng.integers(0, 2))]
            down, pos = n0 / float(rng.uniform(5, 100)), L * float(
                rng.uniform(0.5, 1.5))
            info.update(profile=prof, type=typ, down=down, pos=pos)

            def dfun(z):
                d = L - z if typ == 'upramp' else z
                r = n0 / down
                if prof == 'inverse_square':
                    return n0 / (1 + d / pos * (np.sqrt(r) - 1))**2
                if prof == 'gaussian':
                    return n0 * r**(-(d / pos)**2)
                return n0 * r**(-d / pos)
        info['n0'] = n0
        mp = {}
        if model != 'focusing_blowout':
            mp['laser'] = laser
        off = float(rng.uniform(-1e-5, 1e-5))
        ez0, ezp = float(rng.uniform(-1e9, 1e9)), float(
            rng.uniform(-1e14, 1e14))
        xif = float(rng.uniform(-1e-5, 1e-5))
        if model == 'simple_blowout':
            mp['field_offset'] = off
        if model == 'custom_blowout':
            mp.update(lon_field=ez0, lon_field_slope=ezp, foc_strength=g,
                      xi_fields=xif)
        info.update(g=g, off=off)

        def mk(**kw):
            if ramp:
                return E.PlasmaRamp(
                    L, profile=prof, ramp_type=typ, wakefield_model=model,
                    plasma_dens_top=n0, plasma_dens_down=down,
                    position_down=pos, **mp, **kw)
            return E.PlasmaStage(L, dens, model, **mp, **kw)

        def slip(t):
            """how far the wake has fallen behind the light frame"""
            w02 = (2 * np.pi * ct.c / laser.l_0)**2
            bw = np.sqrt(w02 / (w02 + wp2(dfun(ct.c * t))))
            return (1 - bw) * ct.c * t

        def fld(x, y, xi, t):
            f = z6(x)
            if model == 'focusing_blowout':
                s = ct.m_e / (2 * ct.e) * wp2(dfun(ct.c * t + xi))
            elif model == 'simple_blowout':
                s = ct.m_e / (2 * ct.e) * wp2(dfun(ct.c * t))
                lp = 2 * np.pi * ct.c / np.sqrt(wp2(dfun(ct.c * t)))
                f[2] = s * (xi - (laser.xi_c - lp / 2 + off - slip(t)))
            else:
                s = ct.c * g
                f[2] = ez0 + ezp * (xi - xif + slip(t))
            f[0], f[1] = s * x, s * y
            return f
        zz = np.linspace(0, L, 2001)
        kmax = ct.m_e / (2 * ct.e * ct.c) * np.max(
            wp2(dfun(zz) + 0 * zz))
        if kind.startswith('lens'):
            # a lens with the wakefields of its plasma
            k = kmax * float(rng.choice([-1, 1]) * rng.uniform(.05, .3))
            info['k'] = k
            wake = fld

            def mk(**kw):
                return E.ActivePlasmaLens(
                    L, k, wakefields=True, density=dens,
                    wakefield_model=model, **kw)

            def fld(x, y, xi, t):
                f = wake(x, y, xi, t)
                f[3], f[4] = k * y, -k * x
                return f
    return mk, fld, kmax, info


def integrate(fld, s0, q, m, L, sc):
    T = L / ct.c
    n = s0.shape[1]

    def rhs(tau, u):
        x, y, xi, px, py, pz = u.reshape(6, n) * sc
        ex, ey, ez, bx, by, bz = fld(x, y, xi, tau * T)
        g = np.sqrt(1 + px**2 + py**2 + pz**2)
        vx, vy, vz = ct.c * px / g, ct.c * py / g, ct.c * pz / g
        dv = -ct.c * (1 + px**2 + py**2) / (g * (g + pz))
        k = q / (m * ct.c)
        d = np.array([vx, vy, dv, k * (ex + vy * bz - vz * by),
                      k * (ey + vz * bx - vx * bz),
                      k * (ez + vx * by - vy * bx)])
        return (d * T / sc).ravel()
    sol = solve_ivp(rhs, (0, 1), (s0 / sc).ravel(), method='DOP853',
                    rtol=1e-11, atol=1e-12)
    assert sol.success
    return sol.y[:, -1].reshape(6, n) * sc


KINDS = ['lens', 'fquad', 'stage:focusing_blowout', 'stage:simple_blowout',
         'stage:custom_blowout', 'ramp:focusing_blowout',
         'ramp:simple_blowout']


def w_force(kinds):
    def w(ctx):
        for i, rng in ctx.cases(ctx.n(26, 500)):
            kind = kinds[i % len(kinds)]
            q, m = SPECIES[int(rng.integers(0, 4))]
            g0 = float(10**rng.uniform(2, 4))
            # length: a few radians of betatron phase, at most
            L = float(10**rng.uniform(-3, -1))
            mk, fld, kmax, info = setup(rng, kind, L)
            kk = info.get('g', kmax) if 'custom' in kind else kmax
            w_b = np.sqrt(abs(q) / m * ct.c * kk / g0) / ct.c
            pusher = ('boris', 'rk4')[int(rng.integers(0, 2))]
            with ctx.case(q=q, m=m, gamma=g0, L=L, pusher=pusher, **info):
                # raise the energy until the phase is moderate
                phase = w_b * L
                if phase > 6:
                    g0 *= (phase / 6)**2
                    phase = 6.
                if q > 0 or kind == 'fquad':
                    if phase > 2:
                        g0 *= (phase / 2)**2
                        phase = 2.
                dE = 3e9 * L * abs(q) / (m * ct.c**2) + wp2(
                    info.get('n0', 1.)) * ct.m_e / (2 * ct.e) * 1e-4 * L * abs(
                        q) / (m * ct.c**2) * ('simple' in kind)
                if 'custom' in kind or 'simple' in kind:
                    g0 = max(g0, 20 * dE)
                n = 5
                l = 1e-5
                s0 = np.array([
                    l * rng.standard_normal(n), l * rng.standard_normal(n),
                    l * rng.standard_normal(n),
                    g0 * 1e-4 * rng.standard_normal(n),
                    g0 * 1e-4 * rng.standard_normal(n),
                    g0 * (1 + 0.05 * rng.standard_normal(n))])
                kw = dict(q_species=q, m_species=m, name='b')
                el = mk(bunch_pusher=pusher, n_out=1)
                # the field itself, at random places and times
                P = 40
                x, y = l * rng.standard_normal((2, P))
                xi = l * rng.standard_normal(P)
                t = float(rng.uniform(0, L / ct.c))
                got = [np.zeros(P) for _ in range(6)]
                for f in el.fields:
                    f.gather(x, y, xi, t, *got)
                want = fld(x, y, xi, t)
                nm = ('Ex', 'Ey', 'Ez', 'Bx', 'By', 'Bz')
                for a, b, c in zip(got, want, nm):
                    s = np.max(np.abs(b))
                    ctx.close('gather', np.max(np.abs(a - b)) / (
                        s if s > 0 else 1e-30), 1e-6, comp=c)
                # converged trajectory through the element
                sc = np.array([l, l, l, 1e-4 * g0, 1e-4 * g0, g0])[:, None]
                ref = integrate(fld, s0, q, m, L, sc)
                if not np.all(np.isfinite(ref)) or np.max(np.abs(
                        ref[:2])) > 100 * l or np.min(ref[5]) < 0.1 * g0:
                    ctx.event('wild')
                    continue
                amp = (np.max(np.abs(ref), axis=1)
                       + np.max(np.abs(s0), axis=1))
                amp[0:2] = np.max(amp[0:2])
                amp[3:5] = np.max(amp[3:5])
                amp[5] = np.max(np.abs(ref[5] - s0[5])) + 1e-6 * g0
                N = 500 if pusher == 'boris' else 100
                for _ in range(5):
                    b = make_bunch(dict(zip(
                        ('x', 'y', 'xi', 'px', 'py', 'pz'), s0),
                        w=np.ones(n)), **kw)
                    el.dt_bunch = L / ct.c / N
                    el.track(b, show_progress_bar=False)
                    err = state_err(state(b), ref, amp)
                    if err < 2e-4:
                        break
                    N *= 2
                ctx.close('documented_force', err, 2e-4)
                # adaptive step: all pushes short enough for the betatron
                # motion of the particle with the lowest energy, and not
                # needlessly short
                log = []

                class B(W.ParticleBunch):
                    def evolve(self, fields, t, dt, *a, **k):
                        log.append((t, dt, np.min(self.pz)))
                        super().evolve(fields, t, dt, *a, **k)
                b = B(w=np.ones(n), **dict(zip(
                    ('x', 'y', 'xi', 'px', 'py', 'pz'), s0.copy())), **kw)
                el.dt_bunch = 'auto'
                el.track(b, show_progress_bar=False)
                T = L / ct.c
                for k, (t, dt, pm) in enumerate(log):
                    want = 0.1 / np.sqrt(abs(q) / m * ct.c * kmax / np.sqrt(
                        1 + pm**2))
                    ctx.check('auto_dt', dt <= want * 1.02, dt=dt, want=want)
                    if t + dt < 0.999 * T:
                        ctx.check('auto_dt_full', dt >= want * 0.9, dt=dt,
                                  want=want)
                ctx.event('auto_push', len(log))
                # (with a density that varies within a push the error of
                # the adaptive step is not bounded by the betatron phase)
                if kind in ('lens', 'fquad') or (
                        kind == 'stage:focusing_blowout'
                        and info['profile'] == 'const'):
                    ctx.close('auto_accuracy', state_err(
                        state(b)[[0, 1, 3, 4]], ref[[0, 1, 3, 4]],
                        amp[[0, 1, 3, 4]]), 2e-3 * (1 + phase)**2)
                if np.max(np.abs(ref[3:] - s0[3:])) > 0:
                    ctx.nontrivial([kind, q, m, info])
    return w


SHARDS = {'magnets': w_force(KINDS[:2]), 'stage1': w_force(KINDS[2:4]),
          'stage2': w_force(KINDS[4:5]), 'ramp': w_force(KINDS[5:8]),
          'lenswake': w_force(['lens:focusing_blowout'])}
