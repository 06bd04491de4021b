"""P05: the pushers solve the relativistic equation of motion."""
import numpy as np
import scipy.constants as ct
from scipy.integrate import solve_ivp
from common import W, imp, make_bunch, state, state_err

PROPERTY = 'P05'
RULE = ('Random particles and species in random smooth fields (all six '
        'components, quadratic in position, oscillating in time), both '
        'pushers, driven step by step and through a field element; the final '
        'state is compared with an 8th order adaptive integration of the '
        'Lorentz equation at three step sizes (convergence to the reference '
        'and at the design order), and every push is compared with the '
        'conservation law that applies to it. Non-trivial: fields change the '
        'momentum; distinct by field, species and pusher.')
ASSUMPTIONS = [
    'Reference: scipy DOP853 at rtol 1e-12.',
    'Order of convergence: errors must drop by at least 2^(p-0.5) per '
    'halving, unless already at rounding level.']
MIN_EVENTS = {'monitor:converges': 40, 'monitor:order': 20,
              'monitor:ballistic': 30, 'monitor:boris_energy': 20}
BUDGET = {'quick': 150., 'thorough': 1800.}

SPECIES = [(-ct.e, ct.m_e), (ct.e, ct.m_e), (ct.e, ct.m_p),
           (-ct.e, 206.77 * ct.m_e), (2 * ct.e, 6.6447e-27)]


class RandomField:
    """Smooth field, quadratic in space and oscillating in time."""

    def __init__(self, rng, g, q, m, L, comps, l=1e-5, static=False):
        T = L / ct.c
        self.l, self.lz = l, max(l, 2 * L / g**2)
        self.T = T
        et = l * g * m * ct.c**2 / (abs(q) * L**2)
        ez = 0.2 * g * m * ct.c**2 / (abs(q) * L)
        bz = g * m / (abs(q) * T)
        amp = dict(ex=et, ey=et, ez=ez, bx=et / ct.c, by=et / ct.c, bz=bz)
        self.c = {}
        for k in comps:
            self.c[k] = (amp[k] * rng.uniform(0.5, 2.), rng.uniform(-1, 1, 10),
                         rng.uniform(0.3, 1.5), rng.uniform(0, 6.28),
                         0. if static else rng.uniform(-1, 1))

    def __call__(self, k, x, y, xi, t):
        if k not in self.c:
            return np.zeros_like(x)
        a, c, w, ph, osc = self.c[k]
        X, Y, Z = x / self.l, y / self.l, xi / self.lz
        p = (c[0] + c[1] * X + c[2] * Y + c[3] * Z + 0.2 * (
            c[4] * X * X + c[5] * X * Y + c[6] * Y * Y + c[7] * X * Z
            + c[8] * Y * Z + c[9] * Z * Z))
        return a * p * (1 + osc * np.sin(6.283185307 * w * t / self.T + ph))


COMPS = ('ex', 'ey', 'ez', 'bx', 'by', 'bz')


def py_field(fn):
    Field = imp('wake_t.fields.base', 'Field')

    class F(Field):
        def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
            for k, arr in zip(COMPS, (ex, ey, ez, bx, by, bz)):
                arr += fn(k, x, y, z, t)
    return F()


def reference(fn, s0, q, m, L, t0=0.):
    """Lorentz equation, xi = z - ct."""
    T = L / ct.c
    n = s0.shape[1]
    sc = np.array([fn.l, fn.l, fn.lz, 1, 1, 1])[:, None]

    def rhs(tau, u):
        s = u.reshape(6, n) * sc
        x, y, xi, px, py, pz = s
        t = tau * T
        E = [fn(k, x, y, xi, t) for k in COMPS[:3]]
        B = [fn(k, x, y, xi, t) for k in COMPS[3:]]
        g = np.sqrt(1 + px**2 + py**2 + pz**2)
        vx, vy, vz = ct.c * px / g, ct.c * py / g, ct.c * pz / g
        # vz - c without cancellation
        dv = -ct.c * (1 + px**2 + py**2) / (g * (g + pz))
        k = q / (m * ct.c)
        d = np.array([vx, vy, dv,
                      k * (E[0] + vy * B[2] - vz * B[1]),
                      k * (E[1] + vz * B[0] - vx * B[2]),
                      k * (E[2] + vx * B[1] - vy * B[0])])
        return (d * T / sc).ravel()
    sol = solve_ivp(rhs, (t0 / T, 1.), (s0 / sc).ravel(), method='DOP853',
                    rtol=1e-12, atol=1e-13)
    assert sol.success
    return sol.y[:, -1].reshape(6, n) * sc


def gen(rng):
    q, m = SPECIES[int(rng.integers(0, len(SPECIES)))]
    g = float(10**rng.uniform(0.4, 3.5))
    L = float(10**rng.uniform(-3, 0))
    l = 0.3 * L if g < 5 else (1e-2 * L if g < 20 else 1e-3 * L)
    n = 4
    sets = [COMPS, ('ex', 'ey', 'ez'), ('bx', 'by', 'bz'), ('bx', 'by'),
            ('ez', 'bz'), ('ex', 'by'), ('ey', 'bx', 'ez')]
    comps = sets[int(rng.integers(0, len(sets)))]
    pz = np.sqrt(g**2 - 1) * (1 + 0.05 * rng.standard_normal(n))
    s0 = np.array([l * rng.standard_normal(n), l * rng.standard_normal(n),
                   l * rng.standard_normal(n),
                   pz * l / L * rng.standard_normal(n),
                   pz * l / L * rng.standard_normal(n), pz])
    if g < 5:   # genuinely relativistic transverse motion
        s0[3:5] += 0.3 * rng.standard_normal((2, n))
    return q, m, g, L, l, comps, s0


def to_bunch(s0, q, m, **kw):
    a = dict(zip(('x', 'y', 'xi', 'px', 'py', 'pz'), s0))
    return make_bunch(dict(a, w=np.ones(s0.shape[1])), q_species=q,
                      m_species=m, name='b', **kw)


def scales(s0, ref, fn):
    sc = np.max(np.abs(ref - s0), axis=1)
    sc[:2] += fn.l
    sc[2] += fn.lz
    sc[3:5] = np.max(sc[3:5]) + 1e-9
    sc[5] += 1e-3 * np.max(np.abs(s0[5]))
    return sc


def wild(fn, s0, ref, q, m, L):
    """Trajectories that leave the region where the field is tame, or that
    amplify perturbations strongly, say nothing about the pusher."""
    ex = np.max(np.abs(ref[:3] / np.array([fn.l, fn.l, fn.lz])[:, None]))
    if not np.all(np.isfinite(ref)) or ex > 12:
        return True
    d = 1e-6 * np.array([fn.l, fn.l, fn.lz, 1, 1, 1])[:, None]
    r2 = reference(fn, s0 + d * (np.arange(6)[:, None] < 3), q, m, L)
    sc = scales(s0, ref, fn)
    return state_err(r2, ref, sc) > 3e-5


def w_converge(ctx):
    for i, rng in ctx.cases(ctx.n(70, 1200)):
        q, m, g, L, l, comps, s0 = gen(rng)
        pusher = ('boris', 'rk4')[i % 2]
        p = {'boris': 2, 'rk4': 4}[pusher]
        with ctx.case(q=q, m=m, gamma=g, L=L, comps=comps, pusher=pusher):
            fn = RandomField(rng, g, q, m, L, comps, l)
            ref = reference(fn, s0, q, m, L)
            sc = scales(s0, ref, fn)
            if wild(fn, s0, ref, q, m, L):
                ctx.event('ill_conditioned')
                continue
            errs, ratios = [], []
            N = 200 if p == 2 else 60
            floor = 3e-9   # rounding: xi accumulates (vz-c)*dt
            # Halve the step until the error is small and drops at the
            # design rate; a wrong equation of motion never gets there.
            while True:
                b = to_bunch(s0, q, m)
                dt = L / ct.c / N
                f = py_field(fn)
                for k in range(N):
                    b.evolve([f], k * dt, dt, pusher)
                errs.append(state_err(state(b), ref, sc))
                ctx.event('push', N)
                if len(errs) > 1:
                    ratios.append(errs[-2] / max(errs[-1], 1e-300))
                small = errs[-1] < (2e-3 if p == 2 else 1e-4)
                fine = errs[-1] < floor or (
                    ratios and ratios[-1] > 2**(p - 0.5))
                if (small and fine and len(errs) > 2) or N >= (
                        12800 if p == 2 else 3840):
                    break
                N *= 2
            ctx.check('converges', small, errs=errs)
            ctx.check('order', fine, errs=errs, ratios=ratios, order=p)
            ctx.nontrivial([q, m, g, L, comps, pusher])


def w_element(ctx):
    """Same, through a field element with numba fields and outputs."""
    FE = imp('wake_t.beamline_elements', 'FieldElement')
    for i, rng in ctx.cases(ctx.n(40, 800)):
        q, m, g, L, l, comps, s0 = gen(rng)
        pusher = ('boris', 'rk4')[i % 2]
        n_out = int(rng.integers(1, 5))
        before = bool(rng.random() < .5)
        with ctx.case(q=q, m=m, gamma=g, L=L, comps=comps, pusher=pusher,
                      n_out=n_out, before=before):
            fn = RandomField(rng, g, q, m, L, comps, l)
            ref = reference(fn, s0, q, m, L)
            sc = scales(s0, ref, fn)
            if wild(fn, s0, ref, q, m, L):
                ctx.event('ill_conditioned')
                continue
            N = (400 if pusher == 'boris' else 120) * rng.uniform(0.9, 1.1)
            errs = []
            for k in range(6):
                b = to_bunch(s0, q, m)
                FE(length=L, dt_bunch=L / ct.c / N, bunch_pusher=pusher,
                   n_out=n_out, fields=[py_field(fn)],
                   push_bunches_before_diags=before).track(
                       b, show_progress_bar=False)
                errs.append(state_err(state(b), ref, sc))
                small = errs[-1] < (1e-3 if pusher == 'boris' else 1e-4)
                if small:
                    break
                N *= 2
            ctx.check('converges', small, errs=errs)
            ctx.nontrivial([q, m, g, L, comps, pusher, n_out])


def w_laws(ctx):
    """Exact laws of single pushes, for any step size."""
    for i, rng in ctx.cases(ctx.n(120, 3000)):
        q, m, g, L, l, comps, s0 = gen(rng)
        pusher = ('boris', 'rk4')[i % 2]
        dt = L / ct.c * float(10**rng.uniform(-3, 0.3))
        with ctx.case(q=q, m=m, gamma=g, L=L, pusher=pusher, dt=dt):
            # no field: straight line, momentum untouched
            b = to_bunch(s0, q, m)
            for k in range(3):
                b.evolve([], 0., dt, pusher)
            ctx.check('ballistic', np.array_equal(state(b)[3:], s0[3:]))
            G = np.sqrt(1 + np.sum(s0[3:]**2, axis=0))
            want = s0.copy()
            want[0] += 3 * dt * ct.c * s0[3] / G
            want[1] += 3 * dt * ct.c * s0[4] / G
            want[2] += 3 * dt * ct.c * (s0[5] / G - 1)
            sc = np.max(np.abs(want), axis=1) + np.max(np.abs(s0), axis=1)
            ctx.close('ballistic_line', state_err(state(b), want, sc), 1e-9)
            ctx.close('ballistic_distance', abs(
                b.prop_distance - 3 * dt * ct.c) / (dt * ct.c), 1e-12)
            # pure magnetic field: Boris rotates the momentum
            fn = RandomField(rng, g, q, m, L, ('bx', 'by', 'bz'), l)
            b = to_bunch(s0, q, m)
            p0 = np.sum(s0[3:]**2, axis=0)
            for k in range(4):
                b.evolve([py_field(fn)], k * dt, dt, 'boris')
            ctx.close('boris_energy', np.max(np.abs(
                np.sum(state(b)[3:]**2, axis=0) / p0 - 1)), 1e-11)
            # Boris is time reversible
            fn = RandomField(rng, g, q, m, L, comps, l)
            f = py_field(fn)
            b = to_bunch(s0, q, m)
            d2 = min(dt, L / ct.c / 50)
            b.evolve([f], 0.2 * d2, d2, 'boris')
            moved = np.max(np.abs(state(b) - s0), axis=1) + np.max(
                np.abs(s0), axis=1)
            b.evolve([f], 1.2 * d2, -d2, 'boris')
            ctx.close('boris_reversible', state_err(state(b), s0, moved),
                      1e-8)
            # a uniform constant E field changes p by exactly q E dt / (mc)
            E = rng.uniform(-1, 1, 3) * 1e6
            b = to_bunch(s0, q, m)
            b.evolve([py_field(lambda k, x, y, z, t: np.full_like(
                x, E[COMPS.index(k)] if k[0] == 'e' else 0.))], 0., dt,
                pusher)
            dp = q * E * dt / (m * ct.c)
            ctx.close('impulse', np.max(np.abs(
                state(b)[3:] - s0[3:] - dp[:, None])) / (
                    np.max(np.abs(dp)) + 1e-7 * np.max(np.abs(s0[3:]))), 1e-7)
            # charge conjugation: opposite charge in opposite fields
            fn = RandomField(rng, g, q, m, L, comps, l)
            b1, b2 = to_bunch(s0, q, m), to_bunch(s0, -q, m)
            d2 = min(dt, L / ct.c / 20)
            b1.evolve([py_field(fn)], 0., d2, pusher)
            b2.evolve([py_field(lambda *a: -fn(*a))], 0., d2, pusher)
            ctx.close('charge_conjugation', state_err(
                state(b1), state(b2)), 1e-10)
            ctx.nontrivial([q, m, g, dt, pusher])


def w_injection(ctx):
    """Ballistic motion until the front of the bunch reaches z_injection."""
    FE = imp('wake_t.beamline_elements', 'FieldElement')
    for i, rng in ctx.cases(ctx.n(60, 1000)):
        L = float(10**rng.uniform(-3, -1))
        n = int(rng.integers(1, 6))
        frac = float(rng.uniform(-0.2, 1.2))
        N = int(rng.integers(2, 40))
        pusher = ('boris', 'rk4')[i % 2]
        pd0 = float(rng.choice([0., 0.05]))
        # from much shorter to comparable with a step or the element
        sxi = float(rng.choice([2e-3, 3. / N, .2]))
        with ctx.case(L=L, frac=frac, N=N, pusher=pusher, pd0=pd0, sxi=sxi):
            s0 = np.array([rng.normal(0, 1e-5, n), rng.normal(0, 1e-5, n),
                           rng.normal(0, sxi * L, n), rng.normal(0, 1, n),
                           rng.normal(0, 1, n), rng.normal(1000, 1, n)])
            log = []
            zi = pd0 + L * frac

            class B(W.ParticleBunch):
                def evolve(self, fields, t, dt, *a, **k):
                    bf = state(self).copy()
                    pd = self.prop_distance
                    super().evolve(fields, t, dt, *a, **k)
                    log.append((bf, pd, t, dt, state(self).copy()))

            b = B(w=np.ones(n), name='b', z_injection=zi, prop_distance=pd0,
                  **dict(zip(('x', 'y', 'xi', 'px', 'py', 'pz'),
                             s0.copy())))
            f = py_field(lambda k, x, y, z, t: 1e7 + 0 * x if k == 'ez' else (
                1e12 * x if k == 'ex' else 0 * x))
            FE(length=L, dt_bunch=L / ct.c / N, n_out=1, fields=[f],
               bunch_pusher=pusher).track(b, show_progress_bar=False)
            for bf, pd, t, dt, af in log:
                if abs(dt) < 1e-6 * L / ct.c:
                    continue
                front = np.max(bf[2]) + pd
                if abs(front - zi) < 1e-9 * L:
                    continue
                if front < zi:
                    ctx.event('before')
                    ctx.check('ballistic_before_injection',
                              np.array_equal(af[3:], bf[3:]), front=front,
                              zi=zi)
                else:
                    ctx.event('after')
                    c = to_bunch(bf, -ct.e, ct.m_e)
                    c.evolve([f], t, dt, pusher)
                    ctx.close('forces_after_injection', state_err(
                        state(c), af), 1e-12)
                    ctx.check('forced_after', not np.array_equal(
                        af[5], bf[5]))
            ctx.close('prop_distance', abs(b.prop_distance - pd0 - L) / L,
                      1e-6)
            ctx.nontrivial([L, frac, N, pusher])


SHARDS = {'converge': w_converge, 'element': w_element, 'laws': w_laws,
          'injection': w_injection}
MIN_EVENTS.update(before=20, after=20)
