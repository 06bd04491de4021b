"""P25: generated bunches have the requested parameters."""
import numpy as np
import scipy.constants as ct
from common import W, imp, state

PROPERTY = 'P25'
RULE = ('Random requests to the bunch generators (by Twiss parameters, by '
        'size, matched by density or gradient; offsets, pointing, energy, '
        'spread, duration, charge, species, names). The moments of the '
        'generated macroparticles are compared with the request within the '
        'sampling error of the number of particles; hard facts (number, '
        'weights, charge, truncation, reproducibility) exactly. Matched '
        'bunches are tracked through the ion channel they are matched to. '
        'Non-trivial: non-zero alpha, offsets and pointing; distinct by '
        'request.')
ASSUMPTIONS = ['Generators draw from the numpy global generator (seeded '
               'here), so the seven-sigma bounds are reproducible.']
MIN_EVENTS = {'monitor:emittance': 40, 'monitor:twiss': 40,
              'monitor:centroid': 40, 'monitor:weights': 40,
              'monitor:longitudinal': 40, 'monitor:energy': 40,
              'monitor:uncorrelated': 40, 'monitor:stays_matched': 6,
              'monitor:reproducible': 40, 'monitor:matched_beta': 10}
BUDGET = {'quick': 120., 'thorough': 1200.}
K = 7.


def moments(ctx, b, r, n):
    s = K / np.sqrt(n)
    ene = r['ene']
    for p, x, px in (('x', b.x, b.px), ('y', b.y, b.py)):
        en, al, be = r['en_' + p], r['a_' + p], r['b_' + p]
        off, th = r[p + '_off'], r['theta_' + p]
        em = en / ene
        sx, sp = np.sqrt(em * be), np.sqrt(em * (1 + al**2) / be)
        # pointing is a momentum offset common to all particles
        xp = (px - th * ene) / b.pz
        dx, dp = x - np.mean(x), xp - np.mean(xp)
        c = np.cov(dx, dp)
        e2 = np.linalg.det(c / np.outer([sx, sp], [sx, sp])) * (sx * sp)**2
        ctx.close('emittance', abs(np.sqrt(e2) / em - 1), s, plane=p)
        ctx.close('twiss', abs(c[0, 0] / em / be - 1), 2 * s, plane=p)
        ctx.close('twiss', abs(c[1, 1] / em * be / (1 + al**2) - 1), 2 * s,
                  plane=p)
        ctx.close('twiss', abs(-c[0, 1] / em - al), s * (
            1 + 2 * np.sqrt(1 + al**2)), plane=p, what='alpha')
        ctx.close('centroid', abs(np.mean(x) - off) / sx, s, plane=p)
        ctx.close('centroid', abs(np.mean(px) - th * ene) / (sp * ene), s
                  * (1.1 + r['ene_sp'] / 50), plane=p, what='pointing')
        k4 = np.mean(dx**4) / np.mean(dx**2)**2
        ctx.close('gaussian', abs(k4 - 3), K * np.sqrt(24 / n), plane=p)
    esp = r['ene_sp'] / 100
    ctx.close('energy', abs(np.mean(b.pz) / ene - 1), s * esp + 1e-12)
    ctx.close('energy', abs(np.std(b.pz) / ene - esp), esp * s + 1e-12)
    sz = r['s_t'] * 1e-15 * ct.c
    ctx.check('longitudinal', np.all(np.abs(b.xi - r['xi_c']) <= 3 * sz * (
        1 + 1e-9)), what='3 sigma')
    ctx.close('longitudinal', abs(np.mean(b.xi) - r['xi_c']) / sz, s)
    # variance of a normal truncated at 3 sigma
    ctx.close('longitudinal', abs(np.std(b.xi) / sz - .98658), s)
    ctx.check('longitudinal', np.max(np.abs(b.xi - r['xi_c'])) > 2.5 * sz,
              what='tails')
    # slopes: the pointing can be added to the slopes or to the momenta, where
    # dividing by the momentum would correlate them through the energy spread
    best = {}
    for f in (1., 0.):
        V = [(v - np.mean(v)) for v in (
            b.x, b.y, b.xi, b.pz, (b.px - f * np.mean(b.px)) / b.pz,
            (b.py - f * np.mean(b.py)) / b.pz)]
        S = np.array([np.std(v) for v in V])
        ok = S > 1e-11 * np.array([np.max(np.abs(v)) for v in (
            b.x, b.y, b.xi, b.pz, b.px / b.pz, b.py / b.pz)])
        for i, j in ((0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3), (0, 5),
                     (1, 4), (2, 4), (2, 5), (4, 5)):
            if ok[i] and ok[j]:
                c = abs(np.mean(V[i] * V[j]) / S[i] / S[j])
                best[i, j] = min(c, best.get((i, j), 1.))
    for k, c in best.items():
        ctx.close('uncorrelated', c, s * (1 + 3 * esp), pair=k)


def request(rng):
    r = dict(en_x=float(10**rng.uniform(-7.5, -5)),
             en_y=float(10**rng.uniform(-7.5, -5)),
             a_x=float(rng.normal() * 2), a_y=float(rng.normal() * 2),
             b_x=float(10**rng.uniform(-3.5, 1)),
             b_y=float(10**rng.uniform(-3.5, 1)),
             ene=float(10**rng.uniform(1.3, 4)),
             ene_sp=float(rng.choice([0., .01, .5, 1., 5.])),
             s_t=float(10**rng.uniform(0, 2)),
             xi_c=float(rng.normal() * 1e-4),
             q_tot=float(10**rng.uniform(-1, 3)))
    for p in 'xy':
        em = r['en_' + p] / r['ene']
        r[p + '_off'] = float(rng.normal() * 2 * np.sqrt(em * r['b_' + p]))
        r['theta_' + p] = float(rng.normal() * 2 * np.sqrt(
            em * (1 + r['a_' + p]**2) / r['b_' + p]))
    return r


def w_generate(ctx):
    U = imp('wake_t.utilities.bunch_generation')
    for i, rng in ctx.cases(ctx.n(90, 1000)):
        r = request(rng)
        kind = ('twiss', 'size', 'matched_n', 'matched_k')[
            int(rng.integers(4)) if i > 3 else i]
        n = int(rng.choice([20000, 50000, 100001]))
        q, m = ((-ct.e, ct.m_e), (ct.e, ct.m_e), (ct.e, ct.m_p),
                (2 * ct.e, 6.6e-27))[int(rng.integers(4))]
        nm = None if rng.random() < .3 else 'gen'
        seed = int(rng.integers(2**31))
        n_p = float(10**rng.uniform(21, 25))
        k_x = float(10**rng.uniform(2, 6))
        sx = [float(10**rng.uniform(-6.5, -4)) for _ in 'xy']
        default = bool(rng.random() < .3)
        with ctx.case(kind=kind, n=n, q=q, m=m, seed=seed, n_p=n_p, k_x=k_x,
                      sx=sx, default=default, **r):
            opt = dict(x_off=r['x_off'], y_off=r['y_off'],
                       theta_x=r['theta_x'], theta_y=r['theta_y'])
            if default:
                opt = {}
                r.update(x_off=0., y_off=0., theta_x=0., theta_y=0.)
            opt['name'] = nm
            if not (default and q < 0):
                opt.update(q_species=q, m_species=m)
            lon = (r['ene'], r['ene_sp'], r['s_t'], r['xi_c'], r['q_tot'])

            def make():
                if kind == 'twiss':
                    return U.get_gaussian_bunch_from_twiss(
                        r['en_x'], r['en_y'], r['a_x'], r['a_y'], r['b_x'],
                        r['b_y'], *lon, n, **opt)
                if kind == 'size':
                    return U.get_gaussian_bunch_from_size(
                        r['en_x'], r['en_y'], *sx, *lon, n, **opt)
                kk = dict(n_p=n_p) if kind == 'matched_n' else dict(
                    k_x=k_x, n_p=n_p if i % 2 else None)
                return U.get_matched_bunch(r['en_x'], r['en_y'], *lon, n,
                                           **opt, **kk)
            if kind == 'size':
                r.update(a_x=0., a_y=0., b_x=sx[0]**2 * r['ene'] / r['en_x'],
                         b_y=sx[1]**2 * r['ene'] / r['en_y'])
            elif kind != 'twiss':
                if kind == 'matched_n':
                    kp = np.sqrt(n_p * ct.e**2 / ct.m_e / ct.epsilon_0) / ct.c
                    be = np.sqrt(2 * r['ene']) / kp
                else:
                    be = np.sqrt(r['ene'] * ct.m_e * ct.c / ct.e / k_x)
                be *= np.sqrt(m / ct.m_e * ct.e / abs(q))
                r.update(a_x=0., a_y=0., b_x=be, b_y=be)
            np.random.seed(seed)
            b = make()
            s1 = state(b)
            np.random.seed(seed)
            ctx.check('reproducible', np.array_equal(s1, state(make())))
            ctx.check('number', all(len(v) == n for v in (
                b.x, b.y, b.xi, b.px, b.py, b.pz, b.w)) and np.all(
                np.isfinite(s1)))
            ctx.close('weights', max(
                np.max(np.abs(b.w * abs(q) * n / (r['q_tot'] * 1e-12) - 1)),
                abs(np.sum(b.q) / (np.sign(q) * r['q_tot'] * 1e-12) - 1)),
                1e-9)
            ctx.check('identity', b.q_species == q and b.m_species == m and (
                b.name == nm if nm else isinstance(b.name, str))
                and b.prop_distance == 0)
            moments(ctx, b, r, n)
            if kind.startswith('matched'):
                ctx.event('monitor:matched_beta')
            if kind == 'twiss' and not default:
                ctx.nontrivial([kind, r['ene']])


def w_matched(ctx):
    """A matched bunch keeps its size in the ion channel."""
    U = imp('wake_t.utilities.bunch_generation')
    for i, rng in ctx.cases(ctx.n(14, 100)):
        n_p = float(10**rng.uniform(21, 24))
        ene = float(10**rng.uniform(2, 4))
        # (the ion channel focuses negative charges)
        q, m = [(-ct.e, ct.m_e), (-ct.e, 206.77 * ct.m_e), (-ct.e, ct.m_p),
                (-2 * ct.e, 3 * ct.m_e)][i % 4]
        with ctx.case(n_p=n_p, ene=ene, q=q, m=m):
            np.random.seed(int(rng.integers(2**31)))
            b = U.get_matched_bunch(1e-6, 2e-6, ene, .01, 3., 0., 1., 20000,
                                    n_p=n_p, q_species=q, m_species=m)
            kb = np.sqrt(n_p * ct.e * abs(q) / m / ct.epsilon_0
                         / (2 * ene)) / ct.c
            L = float(rng.uniform(.8, 3.) / kb)
            out = W.PlasmaStage(L, n_p, 'focusing_blowout', n_out=4,
                                bunch_pusher='rk4').track(
                b, show_progress_bar=False)
            for c in 'xy':
                s = [np.std(getattr(o, c)) for o in out]
                ctx.close('stays_matched', max(s) / min(s) - 1, .06)
            ctx.nontrivial(['matched', n_p])


SHARDS = {'generate': w_generate, 'matched': w_matched}
