"""P17: laser pulses start as the documented profiles."""
import numpy as np
import scipy.constants as ct
from scipy.special import eval_laguerre, gammaincc
from common import W, imp

PROPERTY = 'P17'
RULE = ('Random Gaussian, Laguerre-Gauss, flattened-Gaussian and (nested) '
        'summed pulses, in and out of focus; their initial envelopes on '
        'random grids and their envelope functions are compared with the '
        'documented meaning of every parameter (peak, spot size, FWHM, focus, '
        'phase, polarisation, energy) and with the paraxial wave equation '
        'along z. Non-trivial: focus within +-2 Rayleigh lengths; distinct by '
        'pulse parameters.')
ASSUMPTIONS = ['OpenPMDPulse is not observable here (lasy is not installed).']
MIN_EVENTS = {'monitor:grid': 30, 'monitor:paraxial': 30, 'monitor:sum': 8,
              'monitor:energy_p': 8, 'monitor:flat_far': 5,
              'monitor:gaussian': 8, 'monitor:polarization': 20}


def gen(rng, kind):
    l_0 = float(rng.choice([.4e-6, .8e-6, 1.03e-6, 10e-6]))
    w0 = float(rng.uniform(8, 60) * l_0)
    zr = np.pi * w0**2 / l_0
    p = dict(xi_c=float(rng.uniform(-1, 1) * 5e-5),
             a_0=float(10**rng.uniform(-2, 1)), w_0=w0,
             tau=float(rng.uniform(5e-15, 1e-13)),
             z_foc=float(rng.uniform(-2, 2) * zr), l_0=l_0,
             cep_phase=float(rng.uniform(-7, 7)),
             polarization=('linear', 'circular')[int(rng.integers(2))])
    for k in ('z_foc', 'cep_phase', 'polarization'):
        if rng.random() < .2:
            p[k] = DEFAULTS[k]
    if kind == 'LaguerreGaussPulse':
        p['p'] = int(rng.integers(0, 6))
    if kind == 'FlattenedGaussianPulse':
        p['N'] = int(rng.integers(0, 9))
    return p, zr


# documented defaults; parameters that have them are left out
DEFAULTS = dict(z_foc=0., l_0=.8e-6, cep_phase=0., polarization='linear', N=6)


def make(kind, p):
    return imp('wake_t', kind)(**{k: v for k, v in p.items()
                                  if k not in DEFAULTS or DEFAULTS[k] != v})


def longit(p, xi):
    """FWHM of the intensity is tau."""
    return 2**(-2 * ((xi - p['xi_c']) / (ct.c * p['tau']))**2)


def expected(kind, p, xi, r, z_pos):
    """From the textbook formulas for the modes (real beam parameters)."""
    z = xi - p['xi_c'] + z_pos - p['z_foc']
    k = 2 * np.pi / p['l_0']

    def lg(n, w0):
        zr = np.pi * w0**2 / p['l_0']
        w = w0 * np.sqrt(1 + (z / zr)**2)
        invR = z / (z**2 + zr**2)
        gouy = np.arctan2(z, zr)
        return (w0 / w * eval_laguerre(n, 2 * r**2 / w**2)
                * np.exp(-r**2 / w**2 + 1j * k * r**2 * invR / 2
                         - 1j * (2 * n + 1) * gouy))
    ph = p['a_0'] * np.exp(-1j * p['cep_phase']) * longit(p, xi)
    if kind == 'GaussianPulse':
        return ph * lg(0, p['w_0'])
    return ph * lg(p['p'], p['w_0'])


KINDS = ('GaussianPulse', 'LaguerreGaussPulse', 'FlattenedGaussianPulse')


def w_profiles(ctx):
    for i, rng in ctx.cases(ctx.n(300, 3000)):
        kind = KINDS[i % 3]
        p, zr = gen(rng, kind)
        with ctx.case(kind=kind, **p):
            P = make(kind, p)
            s = ct.c * p['tau']
            z_pos = float(rng.uniform(-1, 1) * 3 * zr)
            xi = p['xi_c'] + s * rng.uniform(-2, 2, (7, 1)) + np.zeros(
                (7, 40))
            r = np.linspace(0, 4 * p['w_0'], 40)[None, :] + 0 * xi
            a = P.envelope_function(xi, r, z_pos)
            A = p['a_0']
            if kind != 'FlattenedGaussianPulse':
                want = expected(kind, p, xi, r, z_pos)
                ctx.close('gaussian' if kind[0] == 'G' else 'laguerre',
                          np.max(np.abs(a - want)), 1e-9 * A)
            # paraxial equation 2 i k0 da/dz + lap a = 0 (z at fixed xi)
            k0 = 2 * np.pi / p['l_0']
            wf = p['w_0'] * (p['N'] + 1)**.5 if 'N' in p else p['w_0']
            wl = wf / (1 + p.get('N', p.get('p', 0)))**.5
            hz = 2e-3 * np.pi * wl**2 / p['l_0']
            hr = wl * 4e-3
            f = P.envelope_function
            x1 = xi[:, 1:]
            r1 = r[:, 1:]
            dz = (f(x1, r1, z_pos + hz) - f(x1, r1, z_pos - hz)) / (2 * hz)
            lap = ((f(x1, r1 + hr, z_pos) - 2 * f(x1, r1, z_pos)
                    + f(x1, r1 - hr, z_pos)) / hr**2
                   + (f(x1, r1 + hr, z_pos) - f(x1, r1 - hr, z_pos))
                   / (2 * hr) / r1)
            sc = np.max(np.abs(2 * k0 * dz)) + A / (1e3 * wl**2)
            ctx.close('paraxial', np.max(np.abs(2j * k0 * dz + lap)),
                      2e-3 * sc, z=z_pos)
            # the initial envelope on the grid is the profile at z = 0
            nz, nr = int(rng.integers(2, 40)), int(rng.integers(2, 40))
            R = float(rng.uniform(1, 4) * p['w_0'])
            z0 = p['xi_c'] - s * rng.uniform(0, 3)
            z1 = p['xi_c'] + s * rng.uniform(.5, 3)
            P.set_envelope_solver_params(z0, z1, R, nz, nr, 1e-15)
            P.initialize_envelope()
            Z, Q = np.meshgrid(np.linspace(z0, z1, nz),
                               (np.arange(nr) + .5) * R / nr, indexing='ij')
            e = P.get_envelope()
            ctx.check('grid_shape', e.shape == (nz, nr))
            want = (f(Z, Q, 0.) if 'N' in p else expected(kind, p, Z, Q, 0.))
            ctx.close('grid', np.max(np.abs(e - want)), 1e-9 * A)
            ctx.check('polarization', P.polarization == p['polarization']
                      and P.l_0 == p['l_0'])
            # peak, FWHM and spot size at the focal plane
            xf = np.array([p['xi_c']])
            pk = np.abs(f(xf, np.zeros(1), p['z_foc']))[0]
            if kind != 'LaguerreGaussPulse' or True:
                ctx.close('peak', abs(pk - A), 1e-9 * A)
            half = np.abs(f(xf + s / 2, np.zeros(1), p['z_foc'] - s / 2))[0]
            ctx.close('fwhm', abs(half**2 / A**2 - .5), 1e-9)
            if kind == 'GaussianPulse':
                e1 = np.abs(f(xf, np.full(1, p['w_0']), p['z_foc']))[0]
                ctx.close('spot', abs(e1 / A - np.exp(-1)), 1e-9)
                # symmetric about the focus; larger off focus
                d = rng.uniform(.1, 2) * zr
                u, v = (np.abs(f(xf, r[0], p['z_foc'] + q)) for q in (d, -d))
                ctx.close('focus', np.max(np.abs(u - v)), 1e-9 * A)
            # energy through a plane
            rr = np.linspace(0, 12 * wf * (1 + abs(z_pos - p['z_foc']) / (
                np.pi * wf**2 / p['l_0'])), 20001)
            en = lambda z: np.trapezoid(np.abs(f(p['xi_c'] + 0 * rr, rr, z))
                                        ** 2 * rr, rr) if hasattr(
                np, 'trapezoid') else np.trapz(
                np.abs(f(p['xi_c'] + 0 * rr, rr, z))**2 * rr, rr)
            e0, e1 = en(p['z_foc']), en(z_pos)
            ctx.close('energy_z', abs(e1 / e0 - 1), 1e-3)
            if 'N' not in p:
                ctx.close('energy_p', abs(
                    e0 / (A**2 * p['w_0']**2 / 4) - 1), 1e-3)
            else:
                # far from focus: flattened Gaussian of order N
                N = p['N']
                zf = 2e3 * np.pi * wf**2 / p['l_0']
                wz = p['l_0'] * zf / (np.pi * p['w_0'] * np.sqrt(N + 1))
                rz = np.linspace(0, 2.5, 60) * wz * np.sqrt(N + 1)
                far = np.abs(f(p['xi_c'] + 0 * rz, rz, p['z_foc'] + zf))
                x = (rz / wz)**2
                want = gammaincc(N + 1, x)
                ctx.close('flat_far', np.max(np.abs(
                    far / far[0] - want)), 2e-2)
            ctx.nontrivial([kind, p['w_0'], p['tau']])


def w_sums(ctx):
    for i, rng in ctx.cases(ctx.n(120, 800)):
        with ctx.case(case=i):
            n = int(rng.integers(2, 5))
            ps = []
            for j in range(n):
                kind = KINDS[int(rng.integers(3))]
                p, _ = gen(rng, kind)
                if ps:
                    p['l_0'] = ps[0][1]['l_0']
                    p['polarization'] = ps[0][1]['polarization']
                ps.append((kind, p))
            pol = ps[0][1]['polarization']
            parts = [make(k, p) for k, p in ps]
            S = parts[0]
            for q in parts[1:]:
                S = (S + q) if rng.random() < .5 else (q + S)
            nz, nr = 12, 15
            S.set_envelope_solver_params(-5e-5, 5e-5, 5e-5, nz, nr, 1e-15)
            S.initialize_envelope()
            Z, Q = np.meshgrid(np.linspace(-5e-5, 5e-5, nz),
                               (np.arange(nr) + .5) * 5e-5 / nr,
                               indexing='ij')
            fresh = [make(k, p).envelope_function(Z, Q, 0.) for k, p in ps]
            want = sum(fresh)
            ctx.close('sum', np.max(np.abs(S.get_envelope() - want)),
                      1e-9 * max(np.max(np.abs(q)) for q in fresh))
            ctx.check('polarization', S.polarization == pol,
                      got=S.polarization, want=pol)
            ctx.check('sum_wavelength', S.l_0 == ps[0][1]['l_0'])
            # cannot be summed: refused, not silently wrong
            for bad in (dict(l_0=ps[0][1]['l_0'] * 1.5),
                        dict(l_0=ps[0][1]['l_0'] * float(
                            1 + rng.choice([-1, 1]) * 10**rng.uniform(
                                -5, -2))),
                        dict(polarization='linear' if pol == 'circular'
                             else 'circular')):
                k, p = ps[1]
                try:
                    T = S + make(k, dict(p, **bad))
                    ctx.check('incompatible_refused', False, bad=bad)
                except ValueError:
                    ctx.check('incompatible_refused', True)
            ctx.nontrivial(['sum', i])


SHARDS = {'profiles': w_profiles, 'sums': w_sums}
