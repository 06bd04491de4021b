"""P20: transfer-map elements apply the second-order map of the magnet."""
import numpy as np
import scipy.constants as ct
from scipy.integrate import solve_ivp
from common import W, imp, make_bunch
import tmref

PROPERTY = 'P20'
RULE = ('Random drifts, dipoles, quadrupoles, sextupoles and combined-'
        'function elements (both signs, order 1 and 2, with and without '
        'intermediate outputs, low and high energy); the first- and second-'
        'order coefficients of the map actually applied are extracted from '
        'tracked particles and compared with the numerically integrated '
        'variational equations of the Hamiltonian of the magnet; particles '
        'tracked by drifts and magnets are also compared with the exact '
        'motion in the magnetic field (residual of third order). '
        'Non-trivial: a magnet with non-zero strength; distinct by element '
        'parameters.')
ASSUMPTIONS = ['Hard-edge sector magnets without fringe fields; outputs '
               'compose the map of each step.']
MIN_EVENTS = {'monitor:R': 80, 'monitor:T': 60, 'monitor:order1': 15,
              'monitor:inside': 20,
              'monitor:exact': 20, 'monitor:symplectic': 60}
BUDGET = {'quick': 120., 'thorough': 1200.}
KINDS = ('drift', 'dipole', 'quad', 'sext', 'dq', 'ds', 'qs', 'dqs')


def gen(rng, kind):
    sg = lambda: float(rng.choice([-1, 1]))
    p = dict(length=float(rng.uniform(.05, 1.5)), theta=0., k1=0., k2=0.)
    if kind in ('dipole', 'dq', 'ds', 'dqs'):
        p['theta'] = sg() * float(rng.uniform(.05, .6))
    L = p['length']
    if kind in ('quad', 'dq', 'qs', 'dqs'):
        p['k1'] = sg() * float(rng.uniform(.1, 1.8) / L)**2
    if kind in ('sext', 'ds', 'qs', 'dqs'):
        p['k2'] = sg() * float(10**rng.uniform(0, 2.5)) / L
    g = float(10**rng.uniform(.7, 4))
    return p, g


def element(kind, p, **kw):
    if kind == 'drift':
        return W.Drift(p['length'], **kw)
    if kind == 'dipole':
        return W.Dipole(p['length'], theta=p['theta'], **kw)
    if kind == 'quad':
        return W.Quadrupole(p['length'], k1=p['k1'], **kw)
    if kind == 'sext':
        return W.Sextupole(p['length'], k2=p['k2'], **kw)
    return imp('wake_t.beamline_elements.tm_elements', 'TMElement')(p['length'], theta=p['theta'], k1=p['k1'],
                       k2=p['k2'], **kw)


def to_bunch(Z, g):
    """Bunch from canonical coordinates (x, px, y, py, tau, p)."""
    p0 = np.sqrt(g**2 - 1)
    gam = g + p0 * Z[5]
    px, py = Z[1] * p0, Z[3] * p0
    pz = np.sqrt(gam**2 - 1 - px**2 - py**2)
    return make_bunch(dict(w=np.ones(Z.shape[1]), x=Z[0], y=Z[2], xi=-Z[4],
                           px=px, py=py, pz=pz))


def frame(p, s):
    """Position and direction of the reference orbit in the lab."""
    L, th = p['length'], p['theta']
    a = th * s / L
    x = 0. if th == 0 else L / th * 2 * np.sin(a / 2)**2
    return x, a


def from_bunch(b, p, g, s):
    """Canonical coordinates in the frame of the reference orbit at s."""
    x0, a = frame(p, s)
    c, sn = np.cos(a), np.sin(a)
    X = b.x - x0
    p0 = np.sqrt(g**2 - 1)
    gam = np.sqrt(1 + b.px**2 + b.py**2 + b.pz**2)
    return np.array([c * X - sn * b.xi, (c * b.px - sn * b.pz) / p0, b.y,
                     b.py / p0, -(sn * X + c * b.xi), (gam - g) / p0])


def probe(a):
    """Particles from which R and T can be extracted exactly."""
    Z = []
    for j in range(6):
        for sg in (1, -1):
            v = np.zeros(6)
            v[j] = sg * a[j]
            Z.append(v)
    for j in range(6):
        for k in range(j + 1, 6):
            v = np.zeros(6)
            v[j], v[k] = a[j], a[k]
            Z.append(v)
    return np.array(Z).T


def extract(Z1, a):
    R, T = np.zeros((6, 6)), np.zeros((6, 6, 6))
    for j in range(6):
        u, v = Z1[:, 2 * j], Z1[:, 2 * j + 1]
        R[:, j] = (u - v) / (2 * a[j])
        T[:, j, j] = (u + v) / (2 * a[j]**2)
    n = 12
    for j in range(6):
        for k in range(j + 1, 6):
            m = Z1[:, n] - Z1[:, 2 * j] - Z1[:, 2 * k]
            T[:, j, k] = T[:, k, j] = m / (2 * a[j] * a[k])
            n += 1
    return R, T


def w_maps(ctx):
    for i, rng in ctx.cases(ctx.n(320, 2000)):
        kind = KINDS[i % len(KINDS)]
        p, g = gen(rng, kind)
        if (i // len(KINDS)) % 4 == 3:   # weak bends and gradients
            f = float(10**rng.uniform(-4, -1))
            p['theta'] *= f
            p['k1'] *= f**2 if rng.random() < .7 else 1.
        order = 1 if rng.random() < .25 else 2
        n_out = (None, 1, 2, 3, 5)[int(rng.integers(5))]
        with ctx.case(kind=kind, gamma=g, order=order, n_out=n_out, **p):
            el = element(kind, p, gamma_ref=g, order=order, n_out=n_out)
            L, th, k1, k2 = p['length'], p['theta'], p['k1'], p['k2']
            a = np.array([L, .3, L, .3, L, .3]) * 1e-2
            if g < 20:
                a[5] = .01 * (1 - 1 / g)
            Z = probe(a)
            b = to_bunch(Z, g)
            out = el.track(b, show_progress_bar=False)
            N = n_out or 1
            if N > 1:   # the map up to the first output inside the magnet
                ctx.check('inside', len(out) == N, got=len(out))
                b = out[0]
            R, T = extract(from_bunch(b, p, g, L / N), a)
            Rr, Tr = tmref.maps(L / N, -th / N, k1, k2, g)
            # in units of the probe amplitudes
            sR = a[:, None] / a[None, :]
            eR = np.abs(R - Rr) / sR
            ctx.close('R', np.max(eR), 1e-8 * max(1, np.max(
                np.abs(Rr) / sR)), worst=str(np.unravel_index(
                    np.argmax(eR), eR.shape)))
            J = np.zeros((6, 6))
            for q in (0, 2):
                J[q, q + 1], J[q + 1, q] = 1, -1
            J[4, 5], J[5, 4] = -1, 1
            ctx.close('symplectic', np.max(np.abs(
                (R.T @ J @ R - J) * sR[0][:, None])), 1e-8 * max(
                    1, np.max(np.abs(Rr) / sR))**2 * np.max(a) / np.min(a))
            sT = a[:, None, None] / (a[None, :, None] * a[None, None, :])
            if order == 1:
                ctx.close('order1', np.max(np.abs(T) / sT), 1e-7 * max(
                    1, np.max(np.abs(Rr) / sR)) / np.min(a))
            else:
                eT = np.abs(T - Tr) / sT
                ctx.close('T', np.max(eT), 2e-6 * max(
                    1e-2, np.max(np.abs(Tr) / sT)), worst=str(
                        np.unravel_index(np.argmax(eT), eT.shape)))
            if kind != 'drift':
                ctx.nontrivial([kind, p, g])


def w_exact(ctx):
    """Motion in the magnetic field itself (lab frame, uniform sector
    field): drift, dipole, quadrupole, sextupole, pure magnets."""
    for i, rng in ctx.cases(ctx.n(48, 300)):
        kind = ('drift', 'dipole', 'quad', 'sext')[i % 4]
        p, g = gen(rng, kind)
        g = float(10**rng.uniform(2.5, 4))
        L, th, k1, k2 = p['length'], p['theta'], p['k1'], p['k2']
        n = 6
        base = rng.uniform(-1, 1, (6, n)) * np.array(
            [.02 * L, .01, .02 * L, .01, 1e-6, .02])[:, None]
        # perturbative regime for strong sextupoles
        weak = min(1., .1 / max(abs(k2) * L**2 * .02 * L, 1e-30))
        base[:5] *= weak
        with ctx.case(kind=kind, gamma=g, **p):
            p0 = np.sqrt(g**2 - 1)
            err = []
            for amp in (1., .25):
                Z = base * amp
                Z[4] = base[4]
                b = to_bunch(Z, g)
                element(kind, p, gamma_ref=g).track(
                    b, show_progress_bar=False)
                got = from_bunch(b, p, g, L)
                # exact motion: s is the path length of the particle
                want = np.empty((6, n))
                for j in range(n):
                    gam = g + p0 * Z[5, j]
                    P = np.sqrt(gam**2 - 1)
                    d = np.array([Z[1, j] * p0, Z[3, j] * p0]) / P
                    u0 = np.array([Z[0, j], Z[2, j], 0., d[0], d[1],
                                   np.sqrt(1 - d @ d)])
                    h = th / L

                    def rhs(s, u):
                        x, y, z, dx, dy, dz = u
                        # normalised field (1/m) of the reference momentum
                        if kind == 'dipole':
                            bx, by = 0., h
                        else:
                            bx = -(k1 * y + k2 * x * y)
                            by = -(k1 * x + k2 * (x * x - y * y) / 2)
                        f = p0 / P
                        # dv/ds = v x B with sign: positive theta bends to +x
                        return [dx, dy, dz, f * dz * by, -f * dz * bx,
                                f * (dy * bx - dx * by)]
                    if kind == 'dipole':
                        R0 = 1 / h
                        stop = lambda s, u: (
                            u[2] * np.cos(th) + (u[0] - R0) * np.sin(th))
                    else:
                        stop = lambda s, u: u[2] - L
                    stop.terminal, stop.direction = True, 1
                    r = solve_ivp(rhs, (0, 3 * L), u0, events=stop,
                                  rtol=1e-11, atol=1e-14, method='DOP853')
                    s, u = r.t_events[0][-1], r.y_events[0][-1]
                    x0, a = frame(p, L)
                    zr = L if th == 0 else L / th * np.sin(th)
                    c, sn = np.cos(a), np.sin(a)
                    X, Zc = u[0] - x0, u[2] - zr
                    bet, bet0 = P / gam, p0 / g
                    want[:, j] = [c * X - sn * Zc,
                                  (c * u[3] - sn * u[5]) * P / p0, u[1],
                                  u[4] * P / p0,
                                  Z[4, j] + s / bet - L / bet0, Z[5, j]]
                sc = np.array([.02 * L, .01, .02 * L, .01, .02 * L,
                               .02]) * weak
                lin = np.max(np.abs(want), axis=1) + sc * amp
                err.append(np.max(np.abs(got - want) / lin[:, None]))
            ctx.event('exact_particles', n)
            # relative residual of a second-order map is of second order
            ctx.close('exact', err[1], 1e-6 + .12 * err[0], first=err[0])
            ctx.close('exact_size', err[0], .05)
            ctx.nontrivial([kind, p, g])


SHARDS = {'maps': w_maps, 'maps2': w_maps, 'exact': w_exact}
