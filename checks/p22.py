"""P22: CSR takes the right energy from the bunch, where and only where it
should."""
import numpy as np
import scipy.constants as ct
from common import W, imp, make_bunch, state
from checks.p03 import w_csr as w_weak

PROPERTY = 'P22'
RULE = ('Gaussian and structured bunches of several species through '
        'random bends, drifts after bends and multi-element lattices with '
        'CSR. The energy lost per metre and its profile along the bunch, '
        'after the transient, are compared with the analytic steady-state '
        'wake; entrance transients, splitting of bends, repeated elements, '
        'output counts, charge scaling, mirror symmetry, shifts, and resets '
        'of the calculator by paired executions. Non-trivial: the energy '
        'changes by CSR; distinct by lattice and bunch.')
ASSUMPTIONS = ['Ultra-relativistic bunches (1D model).',
               'The default number of bins (2000) is used for the analytic '
               'comparison.']
MIN_EVENTS = {'monitor:steady_state': 8, 'monitor:profile': 8,
              'monitor:split': 6, 'monitor:repeated': 6, 'monitor:linear': 6,
              'monitor:isolated': 6, 'monitor:drift_tail': 4,
              'monitor:straight': 4, 'monitor:species': 4,
              'monitor:csr_state': 100,
              'monitor:energy_only': 10}
BUDGET = {'quick': 150., 'thorough': 1200.}


def csr():
    return imp('wake_t.physics_models.collective_effects.csr')


def gam(b):
    return np.sqrt(1 + b.px**2 + b.py**2 + b.pz**2)


def bunch(xi, Q, g, q=-ct.e, size=0., seed=None, m=ct.m_e):
    n = len(xi)
    z = np.zeros(n)
    a = dict(w=z + Q / abs(q) / n, x=z, y=z, xi=xi, px=z, py=z,
             pz=z + np.sqrt(g * g - 1))
    if size:
        r = np.random.default_rng(seed)
        a['x'] = size * r.standard_normal(n)
        a['y'] = size * r.standard_normal(n)
    return make_bunch(a, q_species=q, m_species=m)


def gaussian(rng, n, sig):
    """Quiet start: evenly spaced in the cumulative distribution."""
    from scipy.special import erfinv
    xi = sig * np.sqrt(2) * erfinv(2 * (np.arange(n) + .5) / n - 1)
    rng.shuffle(xi)
    return xi


def fresh():
    csr().reset_csr_calculator()


def dipole(L, th, g, **kw):
    return W.Dipole(L, theta=th, gamma_ref=g, csr_on=True, **kw)


def wake(u):
    """Steady-state shape: int_0^inf ds s^(-1/3) d/du exp(-(u-s)^2/2)."""
    t = np.linspace(0, 12**(2 / 3.), 4000)
    s = t**1.5
    v = u[:, None] - s[None, :]
    f = -v * np.exp(-v * v / 2) * 1.5
    return np.trapezoid(f, t, axis=1) if hasattr(np, 'trapezoid') else \
        np.trapz(f, t, axis=1)


def gen(rng, long=False):
    rho = float(rng.uniform(2, 8))
    sig = float(10**rng.uniform(-5, -4.3))
    ot = (24 * sig * rho**2)**(1 / 3.)
    L = ot * float(rng.uniform(15, 20) if long else rng.uniform(5, 7))
    th = L / rho * float(rng.choice([-1, 1]))
    # far from the low-energy cut-off: rho/gamma^3 << sigma
    g = float(max(1500., 40 * (rho / sig)**(1 / 3.)) * rng.uniform(1, 4))
    Q = float(rng.uniform(.1, 1)) * 1e-10
    # kick small enough not to change the bunch length
    k = .35 * Q / (4 * np.pi * ct.epsilon_0) / (rho**2 * sig**4)**(1 / 3.)
    while k * L / (.511e6 * g) > (2e-6 if long else 2e-5):
        Q /= 2
        k /= 2
    q = float(rng.choice([-1, 1])) * ct.e
    return dict(L=L, th=th, g=g, Q=Q, sig=sig, q=q), rho


def w_steady(ctx):
    for i, rng in ctx.cases(ctx.n(10, 120)):
        long = i % 4 == 1
        p, rho = gen(rng, long)
        L, th, g, Q, sig, q = [p[k] for k in ('L', 'th', 'g', 'Q', 'sig',
                                              'q')]
        with ctx.case(**p):
            fresh()
            # trajectories of more than 1000 points are searched coarsely for
            # where the radiation starts to matter
            csr().set_csr_settings(csr_step=L / 10, csr_traj_step=min(
                5e-4, L / (6000 if long else 800)))
            try:
                b = bunch(gaussian(rng, 4000, sig), Q, g, q)
                xi0 = b.xi.copy()
                outs = dipole(L, th, g, n_out=10, order=1).track(
                    b, show_progress_bar=False)
            finally:
                csr().set_csr_settings()
            E = np.array([(gam(o) - g) * ct.m_e * ct.c**2 / ct.e
                          for o in outs])
            slope = (np.mean(E[7]) - np.mean(E[3])) / (.4 * L)
            # smoothing of the profile by the density estimate
            s_eff = sig * np.sqrt(1 + 4000**-.4)
            k = Q / (4 * np.pi * ct.epsilon_0) / (rho**2 * s_eff**4)**(1 / 3.)
            ctx.close('steady_state', abs(slope / (-.3505 * k) - 1), .03,
                      got=slope, want=-.3505 * k)
            d = (E[7] - E[3]) / (.4 * L)
            # particles ahead (larger xi) are hit by the radiation of those
            # behind
            want = -2 / 3**(1 / 3.) / np.sqrt(2 * np.pi) * k * wake(
                xi0 / s_eff)
            ctx.close('profile', np.sqrt(np.mean((d - want)**2)) / np.sqrt(
                np.mean(want**2)), .02)
            ctx.check('loses_energy', np.mean(E[-1]) < np.mean(E[4]) <
                      -0. * k)
            # transient: builds up, never exceeds the steady state
            step = np.diff(np.concatenate([[0], E.mean(axis=1)])) / (.1 * L)
            if long:
                ctx.event('long_bend')
                ctx.nontrivial(p)
                continue
            ctx.check('transient', abs(step[0]) < .7 * abs(slope),
                      got=step.tolist())
            ctx.nontrivial(p)


def total(els, b):
    fresh()
    W.Beamline(els).track(b, show_progress_bar=False)
    return (gam(b) - 0.)


def w_relations(ctx):
    for i, rng in ctx.cases(ctx.n(8, 120)):
        rho = float(rng.uniform(1, 6))
        sig = float(10**rng.uniform(-5, -4))
        L = (24 * sig * rho**2)**(1 / 3.) * float(rng.uniform(1, 3))
        th = L / rho * float(rng.choice([-1, 1]))
        g = float(10**rng.uniform(2.5, 4))
        Q = 1e-11
        q = float(rng.choice([-1, 1])) * ct.e
        n = 800
        xi = np.concatenate([gaussian(rng, n // 2, sig), gaussian(
            rng, n // 2, .4 * sig) + sig * rng.uniform(-1, 1)])
        B = lambda **k: bunch(xi.copy(), k.get('Q', Q), g, k.get('q', q),
                              1e-5, i, k.get('m', ct.m_e))
        S = csr().set_csr_settings
        par = dict(csr_step=L / 12, csr_traj_step=L / 600, n_bins=500)
        with ctx.case(rho=rho, sig=sig, L=L, th=th, g=g, q=q):
            S(**par)
            try:
                b0 = B()
                ref = total([dipole(L, th, g, order=1)], b0) - g
                m, sc = np.mean(ref), np.sqrt(np.mean(ref**2))
                ctx.check('loses_energy', m < 0, got=m)
                if sc > 1e-9 * g:
                    ctx.nontrivial([rho, sig, L, th, g])
                ctx.check('energy_only', bool(np.all(np.isfinite(
                    state(b0)))))
                # without CSR the same optics apart from the energy kick
                c = B()
                W.Dipole(L, theta=th, gamma_ref=g, order=1).track(
                    c, show_progress_bar=False)
                ctx.close('energy_only', np.max(np.abs(c.y - b0.y)),
                          1e-12 * max(1e-5, np.max(np.abs(c.y))))
                ctx.close('energy_only', np.max(np.abs(gam(c) - g)),
                          1e-9 * g)
                # repeatable from a reset calculator, also after any history
                d = B()
                dipole(.3, .2, g).track(d, show_progress_bar=False)
                d = B()
                r = total([dipole(L, th, g, order=1)], d) - g
                ctx.close('isolated', np.max(np.abs(r - ref)), 1e-9 * sc)
                # an element without CSR separates lattices
                d = B()
                dipole(.3, .2, g).track(d, show_progress_bar=False)
                W.Drift(.1, gamma_ref=g).track(d, show_progress_bar=False)
                d = B()
                dipole(L, th, g, order=1).track(d, show_progress_bar=False)
                ctx.close('isolated', np.max(np.abs(gam(d) - g - ref)),
                          1e-9 * sc)
                # charge sign and mirror image do not matter
                d = B(q=-q)
                r = total([dipole(L, th, g, order=1)], d) - g
                ctx.close('sign', np.max(np.abs(r - ref)), 1e-6 * sc)
                # other species: the force and the inertia of each particle
                # scale with its charge and mass
                sp = [(ct.e, ct.m_p), (-ct.e, 206.77 * ct.m_e),
                      (2 * ct.e, 4 * ct.m_p), (-3 * ct.e, ct.m_e)][i % 4]
                d = B(Q=Q * sp[1] / ct.m_e * ct.e / abs(sp[0]), q=sp[0],
                      m=sp[1])
                r = total([dipole(L, th, g, order=1)], d) - g
                ctx.close('species', np.max(np.abs(r - ref)), 1e-6 * sc)
                d = B()
                d.x *= -1
                r = total([dipole(L, -th, g, order=1)], d) - g
                ctx.close('mirror', np.max(np.abs(r - ref)), 1e-6 * sc)
                # position in the window does not matter
                d = B()
                d.xi += 20 * sig
                r = total([dipole(L, th, g, order=1)], d) - g
                ctx.close('shift', np.max(np.abs(r - ref)), 1e-3 * sc)
                # proportional to the charge while the bunch is rigid
                rigid = np.max(np.abs(ref)) / g
                d = B(Q=Q / 4)
                r = total([dipole(L, th, g, order=1)], d) - g
                ctx.close('linear', np.max(np.abs(4 * r - ref)),
                          (1e-3 + 5 * rigid * L / sig * abs(th)) * sc)
                # every part of the bend counts once, however it is cut
                for how in range(3):
                    d = B()
                    if how == 0:
                        e = [dipole(L, th, g, order=1,
                                    n_out=int(rng.choice([2, 3, 4, 6])))]
                    elif how == 1:
                        k = int(rng.choice([2, 3, 4]))
                        e = [dipole(L / k, th / k, g, order=1)
                             for _ in range(k)]
                    else:
                        k = int(rng.choice([2, 3, 4]))
                        one = dipole(L / k, th / k, g, order=1)
                        e = [one] * k
                    r = total(e, d) - g
                    ctx.close('repeated' if how == 2 else 'split',
                              np.sqrt(np.mean((r - ref)**2)),
                              (.005 + 5 * rigid * L / sig * abs(th)) * sc,
                              how=how)
                # ... and however long the steps are asked to be
                for f in (.34, .55, .95, float(rng.uniform(.2, 2.))):
                    S(csr_step=L * f, csr_traj_step=L / 600, n_bins=500)
                    d = B()
                    r = total([dipole(L, th, g, order=1)], d) - g
                    ctx.close('step', np.sqrt(np.mean((r - ref)**2)),
                              (.1 + 5 * rigid * L / sig * abs(th)) * sc,
                              f=f)
                # the wake of the bend continues in the following drift, dies
                # out and is not there without the bend
                D = 4 * (24 * sig * rho**2)**(1 / 3.)
                d = B()
                fresh()
                S(csr_step=D / 4, csr_traj_step=L / 600, n_bins=500)
                dipole(L, th, g, order=1).track(d, show_progress_bar=False)
                e0 = np.concatenate([[np.mean(gam(d))]])
                o = W.Drift(D, gamma_ref=g, csr_on=True, n_out=4).track(
                    d, show_progress_bar=False)
                e = np.concatenate([e0, [np.mean(gam(x)) for x in o]])
                de = np.diff(e)
                ctx.check('drift_tail', de[0] < 0 and abs(de[-1]) <
                          .9 * np.max(np.abs(de)), de=de.tolist())
                d = B()
                fresh()
                W.Drift(D, gamma_ref=g, csr_on=True).track(
                    d, show_progress_bar=False)
                ctx.close('straight', abs(np.mean(gam(d)) - g),
                          .05 * abs(np.sum(de)) + 1e-9 * g)
            finally:
                S()
                fresh()


SHARDS = {'weak': w_weak, 'steady': w_steady, 'steady2': w_steady,
          'relations': w_relations, 'relations2': w_relations}
