"""P13: the quasi-static wakefields solve the quasi-static equations."""
import numpy as np
import scipy.constants as ct
import qsref
from common import W, imp, bunch_arrays, make_bunch

PROPERTY = 'P13'
RULE = ('Random boxes, resolutions, plasma densities, parabolic channels, '
        'plasma radii, particle shapes, plasma pushers, laser drivers '
        '(linear/circular) and one or several electron/positron bunches, from '
        'the linear regime to blowout with axis crossings and slowed-down '
        'particles. The recorded field arrays are compared with an '
        'independent dense solution of the quasi-static equations driven by '
        'the same sources, with the linear theory of laser and beam wakes, '
        'and for consistency of E_z, E_r and B. Non-trivial: a driver is '
        'present and E_z is above 1e-4 of the wave-breaking field; distinct '
        'by the sampled configuration.')
ASSUMPTIONS = [
    'The reference follows the published model (Baxevanis & Stupakov 2018) '
    'including its documented limiters.',
    'Cases where the model is chaotic (its own sensitivity to a 1e-9 change '
    'of the sources exceeds the tolerance) are compared only up to where '
    'that happens.']
MIN_EVENTS = {'monitor:e_z': 8, 'monitor:e_r': 8, 'monitor:b_t': 8,
              'monitor:rho': 8, 'monitor:chi': 8, 'monitor:panofsky': 8,
              'monitor:linear_laser': 2, 'monitor:linear_beam': 2}
BUDGET = {'quick': 160., 'thorough': 1500.}


def gen(rng, i, pusher, big=False):
    n_p = float(10**rng.uniform(22.5, 24.5))
    sd = qsref.skin_depth(n_p)
    r_max = float(rng.uniform(3, 7)) * sd
    n_r = int(rng.integers(18, 50))
    n_xi = int(rng.integers(30, 110))
    xi_max = float(rng.uniform(-1, 3)) * sd
    xi_min = xi_max - float(rng.uniform(5, 14)) * sd
    k = dict(r_max=r_max, xi_min=xi_min, xi_max=xi_max, n_r=n_r, n_xi=n_xi,
             ppc=int(rng.integers(1, 5)),
             p_shape=('linear', 'cubic')[int(rng.integers(2))],
             plasma_pusher=pusher,
             max_gamma=float(rng.choice([10., 10., 3., 1.5])))
    if rng.random() < .4:
        k['r_max_plasma'] = float(r_max * rng.uniform(.4, 1.3))
    if rng.random() < .4:
        k['parabolic_coefficient'] = float(rng.uniform(-.01, .15) / sd**2)
        if rng.random() < .3:
            # peaked on axis; positive density up to r_max
            k['parabolic_coefficient'] = float(
                -rng.uniform(.1, .55) / r_max**2)
    kind = ('laser', 'beam', 'both', 'beam+', 'beams')[i % 5]
    L = xi_max - xi_min
    las = None
    if kind in ('laser', 'both'):
        las = dict(xi_c=xi_max - L * rng.uniform(.15, .3),
                   a_0=float(rng.choice([0.02, .5, 1.5, 2.5, 4.])),
                   w_0=r_max * rng.uniform(.2, .5),
                   tau=float(sd * rng.uniform(.7, 2) / ct.c),
                   z_foc=float(rng.uniform(-1, 1) * 1e-4),
                   polarization=('linear', 'circular')[int(rng.integers(2))])
    beams = []
    for _ in range(0 if kind == 'laser' else (2 if kind == 'beams' else 1)):
        strength = float(rng.choice([.01, .5, 2., 5.]))
        s_r, s_z = sd * rng.uniform(.2, 1.), sd * rng.uniform(.3, 1.2)
        if kind == 'both':
            strength *= .3
        Q = strength * ct.e * n_p * (2 * np.pi)**1.5 * s_r**2 * s_z
        beams.append(dict(
            a=bunch_arrays(rng, int(rng.integers(200, 3000)), size=s_r,
                           xi_c=xi_max - L * rng.uniform(.15, .5), sxi=s_z,
                           q=Q),
            sp=ct.e if kind == 'beam+' or (kind == 'beams' and rng.random()
                                           < .4) else -ct.e,
            s=strength))
    return n_p, k, kind, las, beams


def build(n_p, k, las, beams, prof=None):
    kw = dict(k)
    if prof is not None:
        kw['dz_fields'] = prof['dz']
        kw['laser_evolution'] = False
        if 'parabolic_coefficient' in kw:
            pc0 = kw['parabolic_coefficient']
            kw['parabolic_coefficient'] = lambda z: pc0 * (
                1 + .5 * np.sin(z / prof['L']))
    if las is not None:
        pulse = imp('wake_t', 'GaussianPulse')(**las)
        kw['laser'] = pulse
    dens = n_p if prof is None else (
        lambda z: n_p * (1 + .5 * np.sin(z / prof['L'])))
    st = imp('wake_t', 'PlasmaStage')(
        1e-3, dens, 'quasistatic_2d', n_out=1, **kw)
    bs = [make_bunch(b['a'], q_species=b['sp'], name=f'b{j}')
          for j, b in enumerate(beams)]
    f = st.fields[0]
    if prof is not None:
        # earlier times, other bunch positions: must leave no trace
        old = [b.xi.copy() for b in bs]
        for j in range(prof['steps']):
            for b, o in zip(bs, old):
                b.xi[:] = o - (j + 1) * .3 * (k['xi_max'] - k['xi_min'])
                b.x *= -1.1
            f.update(bs)
        for b, o in zip(bs, old):
            b.xi[:] = o
    f.update(bs)
    return f, bs


def sources(f, bs, n_p, k, las):
    dep = imp('wake_t.particles.deposition', 'deposit_3d_distribution')
    a2 = np.zeros((k['n_xi'], k['n_r']))
    if las is not None:
        a2 = np.abs(f.laser.get_envelope())**2
        if las['polarization'] == 'linear':
            a2 = a2 / 2
    bb = qsref.beam_source(bs, n_p, k['r_max'], k['xi_min'], k['xi_max'],
                           k['n_r'], k['n_xi'], k['p_shape'], dep)
    return a2, bb


def refsolve(a2, bb, n_p, k, **kw):
    return qsref.solve(
        a2, bb, k['r_max'], k['xi_min'], k['xi_max'], k['n_r'], k['n_xi'],
        k['ppc'], n_p, r_plasma=k.get('r_max_plasma'),
        pc=k.get('parabolic_coefficient', 0.), shape=k['p_shape'],
        max_gamma=k['max_gamma'], pusher=k['plasma_pusher'], **kw)


NAMES = ('e_z', 'e_r', 'b_t', 'rho', 'chi')


def w_ref(pusher):
    def w(ctx):
        for i, rng in ctx.cases(ctx.n(16, 400)):
            n_p, k, kind, las, beams = gen(rng, i, pusher)
            prof = None
            if rng.random() < .4:
                prof = dict(dz=float(rng.uniform(1e-5, 1e-4)),
                            steps=int(rng.integers(1, 3)),
                            L=float(rng.uniform(3e-5, 1e-3)))
            with ctx.case(kind=kind, n_p=n_p, las=las, prof=prof, beams=[
                    (b['s'], b['sp'] > 0, len(b['a']['x'])) for b in beams],
                    **k):
                f, bs = build(n_p, k, las, beams, prof)
                if prof is not None:
                    g = 1 + .5 * np.sin(prof['steps'] * prof['dz']
                                        / prof['L'])
                    n_p = n_p * g
                    if 'parabolic_coefficient' in k:
                        k = dict(k, parabolic_coefficient=k[
                            'parabolic_coefficient'] * g)
                    ctx.event('local_density')
                a2, bb = sources(f, bs, n_p, k, las)
                u = refsolve(a2, bb, n_p, k)
                # sensitivity of the model itself
                v = refsolve(a2 * (1 + 1e-9), bb * (1 + 1e-9), n_p, k)
                o = refsolve(a2, bb, n_p, k, keep_outside=False)
                cut = k['n_xi']
                for row in range(k['n_xi'] - 1, -1, -1):
                    s = max(max(np.max(np.abs(u[n][row] - v[n][row])),
                                np.max(np.abs(u[n][row] - o[n][row])))
                            / (np.max(np.abs(u[n])) + 1e-300) for n in NAMES)
                    if not s < 1e-6:
                        break
                    cut = row
                lo = min(cut + 2, k['n_xi'])
                n_ok = k['n_xi'] - lo
                ctx.event('rows_compared', n_ok)
                ctx.event('rows_total', k['n_xi'])
                ctx.event('axis_crossings', u['stats']['crossed'])
                if u['stats']['max_gamma'] >= k['max_gamma']:
                    ctx.event('slowed_down')
                if n_ok < 10:
                    ctx.event('too_chaotic')
                    continue
                E0 = u['E0']
                for n in NAMES:
                    got = getattr(f, n)[2:-2, 2:-2]
                    sc = {'e_z': E0, 'e_r': E0, 'b_t': E0 / ct.c}.get(n, 1.)
                    sc = max(1e-3 * sc, np.max(np.abs(u[n][lo:])))
                    d = np.abs(got[lo:] - u[n][lo:])
                    if n in ('e_r', 'b_t'):
                        d = np.where(u['tie'][lo:], 0., d)
                    d = np.max(d, axis=1) / sc
                    ctx.close(n, np.max(d), 1e-4,
                              row=int(np.argmax(d) + lo), lo=lo)
                # E_z and E_r - cB come from one potential
                P = (f.e_r - ct.c * f.b_t)[2:-2, 2:-2]
                dz = (k['xi_max'] - k['xi_min']) / (k['n_xi'] - 1)
                dr = k['r_max'] / k['n_r']
                a = (f.e_z[2:-2, 2:-2][1:-1, 2:]
                     - f.e_z[2:-2, 2:-2][1:-1, :-2]) / (2 * dr)
                b = (P[2:, 1:-1] - P[:-2, 1:-1]) / (2 * dz)
                # identical discrete operators away from the edges
                a, b = a[1:-1, 1:-1], b[1:-1, 1:-1]
                ctx.close('panofsky', np.max(np.abs(a - b)),
                          1e-6 * (np.max(np.abs(a)) + np.max(np.abs(b))
                                  + 1e-6 * E0 / dr))
                ctx.check('finite', all(np.all(np.isfinite(getattr(f, n)))
                                        for n in NAMES))
                if np.max(np.abs(u['e_z'])) > 1e-4 * E0:
                    ctx.nontrivial([kind, n_p])
    return w


def w_linear(ctx):
    """Linear theory, no particle model at all."""
    for i, rng in ctx.cases(ctx.n(8, 120)):
        pusher = ('rk4', 'ab5')[i % 2]
        n_p = float(10**rng.uniform(22.5, 24.5))
        sd = qsref.skin_depth(n_p)
        n_r, n_xi, ppc = 80, 160, 4
        k = dict(r_max=8 * sd, xi_min=-10 * sd, xi_max=4 * sd, n_r=n_r,
                 n_xi=n_xi, ppc=ppc, p_shape='cubic', plasma_pusher=pusher,
                 max_gamma=10.)
        z = np.linspace(-10, 4, n_xi)
        dz = z[1] - z[0]
        r = (np.arange(n_r) + .5) * 8 / n_r
        kind = ('laser', 'beam')[(i // 2) % 2]
        E0 = ct.m_e * ct.c**2 / ct.e / sd

        def osc(src):
            """u'' + u = src, at rest ahead (convolution with sin)."""
            out = np.zeros_like(src)
            for m in range(n_xi):
                h = np.sin(z[m:] - z[m])
                wt = np.ones(n_xi - m)
                wt[0] = wt[-1] = .5
                out[m] = np.tensordot(h * wt, src[m:], 1) * dz
            return out
        if kind == 'laser':
            las = dict(xi_c=0., a_0=0.15, w_0=float(rng.uniform(2, 3.)) * sd,
                       tau=float(rng.uniform(1.2, 2.) * sd / ct.c), z_foc=0.,
                       polarization=('linear', 'circular')[
                           int(rng.integers(2))])
            with ctx.case(kind=kind, n_p=n_p, **las, pusher=pusher):
                f, bs = build(n_p, k, las, [])
                s_z = las['tau'] * ct.c / (2 * np.sqrt(np.log(2))) / sd
                w = las['w_0'] / sd
                a2 = las['a_0']**2 * np.exp(
                    -z[:, None]**2 / s_z**2 - 2 * r[None, :]**2 / w**2)
                if las['polarization'] == 'linear':
                    a2 = a2 / 2
                psi = osc(a2 / 2)
                ez = -np.gradient(psi, dz, axis=0) * E0
                wr = -np.gradient(psi, r, axis=1) * E0
                got = f.e_z[2:-2, 2:-2]
                ctx.close('linear_laser', np.max(np.abs(
                    got[4:-4, 2:50] - ez[4:-4, 2:50])),
                    .06 * np.max(np.abs(ez)), n_p=n_p)
                gw = (f.e_r - ct.c * f.b_t)[2:-2, 2:-2]
                ctx.close('linear_laser_wr', np.max(np.abs(
                    gw[4:-4, 2:50] - wr[4:-4, 2:50])),
                    .12 * np.max(np.abs(wr)))
                ctx.nontrivial(['laser', n_p])
        else:
            s_r, s_z = float(rng.uniform(.8, 1.2)), float(rng.uniform(.8, 1.2))
            sign = int(rng.choice([-1, 1]))
            amp = 0.01
            with ctx.case(kind=kind, n_p=n_p, s_r=s_r, s_z=s_z, sign=sign,
                          pusher=pusher):
                # quiet Gaussian bunch: many particles on a regular lattice
                zz = np.linspace(-4, 4, 200) * s_z
                rr = (np.arange(200) + .5) / 200 * 5 * s_r
                Z, R = np.meshgrid(zz, rr, indexing='ij')
                wt = (amp * n_p * sd**3 * np.exp(-Z**2 / 2 / s_z**2
                                                 - R**2 / 2 / s_r**2)
                      * 2 * np.pi * R * (rr[1] - rr[0]) * (zz[1] - zz[0]))
                th = rng.uniform(0, 2 * np.pi, R.shape)
                a = dict(w=wt.ravel(), x=(R * np.cos(th)).ravel() * sd,
                         y=(R * np.sin(th)).ravel() * sd, xi=Z.ravel() * sd,
                         px=0 * wt.ravel(), py=0 * wt.ravel(),
                         pz=1e4 + 0 * wt.ravel())
                f, bs = build(n_p, k, None, [dict(a=a, sp=sign * ct.e)])
                # electron density perturbation is attracted by positive
                # charge: n1'' + n1 = q n_b ; (del^2 - 1) psi = n1
                nb = amp * np.exp(-z[:, None]**2 / 2 / s_z**2
                                  - r[None, :]**2 / 2 / s_r**2)
                n1 = osc(sign * nb)
                dr = r[1] - r[0]
                A = np.zeros((n_r, n_r))
                for j in range(n_r):
                    rp, rm = (j + 1) * dr, j * dr
                    A[j, j] = -(rp + rm) / (r[j] * dr**2) - 1
                    if j + 1 < n_r:
                        A[j, j + 1] = rp / (r[j] * dr**2)
                    if j > 0:
                        A[j, j - 1] = rm / (r[j] * dr**2)
                psi = np.linalg.solve(A, n1.T).T
                ez = -np.gradient(psi, dz, axis=0) * E0
                wr = -np.gradient(psi, r, axis=1) * E0
                got = f.e_z[2:-2, 2:-2]
                ctx.close('linear_beam', np.max(np.abs(
                    got[4:-4, 2:50] - ez[4:-4, 2:50])),
                    .06 * np.max(np.abs(ez)))
                gw = (f.e_r - ct.c * f.b_t)[2:-2, 2:-2]
                ctx.close('linear_beam_wr', np.max(np.abs(
                    gw[4:-4, 2:50] - wr[4:-4, 2:50])),
                    .12 * np.max(np.abs(wr)))
                ctx.nontrivial(['beam', n_p])


SHARDS = {'ref_rk4': w_ref('rk4'), 'ref_ab5': w_ref('ab5'),
          'linear': w_linear}
