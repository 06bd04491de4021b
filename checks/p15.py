"""P15: the cold-fluid wakefields solve the 1D nonlinear fluid equations."""
import numpy as np
import scipy.constants as ct
from scipy.integrate import solve_ivp
import wf
from common import W, imp, relerr

PROPERTY = 'P15'
RULE = ('Random boxes, resolutions, densities (also varying along z), lasers '
        '(linear/circular) and smooth electron/positron bunches, with and '
        'without beam wakefields; the recorded E_z, E_r, B, rho, chi are '
        'compared with an independent high-order integration of the 1D '
        'nonlinear quasi-static fluid equation at every radius, with its '
        'first integral behind the drivers, with Ampere\'s law, and with '
        'linear theory. Non-trivial: E_z above 1e-3 of the wave-breaking '
        'field; distinct by configuration.')
ASSUMPTIONS = ['The tolerance contains the difference between two '
               'interpolations of the bunch density between slices and the '
               'error of second-order differences of the reference.']
MIN_EVENTS = {'monitor:e_z': 20, 'monitor:w_r': 20, 'monitor:chi': 20,
              'monitor:rho': 20, 'monitor:b_t': 20,
              'monitor:first_integral': 5, 'monitor:beam_off': 3}
BUDGET = {'quick': 120., 'thorough': 1500.}


def reference(z, a2, nb, mode):
    """u'' = (1+a2)/(2(1+u)^2) - nb - 1/2, from rest at the front.
    a2, nb: (n_xi, n_r); a interpolated linearly, nb linearly or constant
    from the slice ahead."""
    n, m = a2.shape
    a = np.sqrt(a2)
    u, v = np.zeros((n, m)), np.zeros((n, m))
    h = z[1] - z[0]
    K = 8
    for i in range(n - 1, 0, -1):
        y, w = u[i].copy(), v[i].copy()
        for s in range(K):
            f0 = s / K

            def acc(y, f):
                aa = (1 - f) * a[i] + f * a[i - 1]
                b = nb[i] if mode == 'const' else (
                    (1 - f) * nb[i] + f * nb[i - 1])
                return (1 + aa**2) / (2 * (1 + y)**2) - b - .5
            d = h / K
            # d/d(-z) direction: u' = w, w' = acc
            k1, l1 = w, acc(y, f0)
            k2, l2 = w + d / 2 * l1, acc(y + d / 2 * k1, f0 + .5 / K)
            k3, l3 = w + d / 2 * l2, acc(y + d / 2 * k2, f0 + .5 / K)
            k4, l4 = w + d * l3, acc(y + d * k3, f0 + 1 / K)
            y = y + d / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            w = w + d / 6 * (l1 + 2 * l2 + 2 * l3 + l4)
        u[i - 1], v[i - 1] = y, w
    return u, v


def w_ref(ctx):
    dep = imp('wake_t.particles.deposition', 'deposit_3d_distribution')
    for i, rng in ctx.cases(ctx.n(80, 800)):
        n_p, sd, k = wf.grid(rng, 'cold_fluid_1d')
        k['n_xi'] = int(rng.integers(120, 300))
        L = k['xi_max'] - k['xi_min']
        kind = ('laser', 'beam', 'both', 'off')[i % 4]
        k['beam_wakefields'] = kind != 'off'
        las = (wf.laser(rng, n_p, k, a=(.05, 2.)) if kind != 'beam' else None)
        with ctx.case(kind=kind, n_p=n_p, las=las, **k):
            bm = []
            if kind != 'laser':
                for _ in range(int(rng.integers(1, 3))):
                    n = 20000
                    s_r = sd * rng.uniform(.6, 1.2)
                    s_z = sd * rng.uniform(.4, .8)
                    pk = rng.uniform(.02, .35)
                    q = pk * n_p * (2 * np.pi)**1.5 * s_r**2 * s_z * ct.e
                    c = k['xi_max'] - L * rng.uniform(.3, .5)
                    bm.append(dict(a=dict(
                        w=np.full(n, q / ct.e / n),
                        x=s_r * rng.standard_normal(n),
                        y=s_r * rng.standard_normal(n),
                        xi=c + s_z * rng.standard_normal(n),
                        px=np.zeros(n), py=np.zeros(n),
                        pz=np.full(n, 1e3)),
                        sp=ct.e * rng.choice([-1, 1])))
            bs = wf.bunches(bm)
            prof = rng.random() < .3
            dens, kw = n_p, {}
            if prof:
                Lp = float(rng.uniform(3e-5, 1e-3))
                dz = float(rng.uniform(1e-5, 1e-4))
                n0 = n_p
                dens = lambda z: n0 * (1 + .4 * np.sin(z / Lp))
                kw = dict(dz_fields=dz, laser_evolution=False)
            f = wf.stage('cold_fluid_1d', dens, k, las, **kw).fields[0]
            f.update(bs)
            if prof:
                f.update(bs)
                n_p = n0 * (1 + .4 * np.sin(dz / Lp))
                sd = wf.skin_depth(n_p)
                ctx.event('local_density')
            n_xi, n_r = k['n_xi'], k['n_r']
            z = np.linspace(k['xi_min'], k['xi_max'], n_xi) / sd
            dr = k['r_max'] / sd / n_r
            r = (np.arange(n_r) + .5) * dr
            a2 = np.zeros((n_xi, n_r))
            if las is not None:
                a2 = np.abs(f.laser.get_envelope())**2
                if las['polarization'] == 'linear':
                    a2 = a2 / 2
            h = np.zeros((n_xi + 4, n_r + 4))
            for b in bs:
                dep(b.xi / sd, b.x / sd, b.y / sd, b.w * b.q_species / ct.e,
                    z[0], dr / 2, n_xi, n_r, z[1] - z[0], dr, h,
                    p_shape=k['p_shape'], use_ruyten=True)
            nb = h[2:-2, 2:-2] / (np.pi * dr**2 * (2 * np.arange(n_r) + 1)
                                  * (z[1] - z[0]) * sd**3 * n_p)
            src = nb if k['beam_wakefields'] else 0 * nb
            u, v = reference(z, a2, src, 'linear')
            uc, vc = reference(z, a2, src, 'const')
            if not np.all(np.isfinite(u)) or np.min(u) < -.7 or (
                    np.max(u) > 4):
                ctx.event('near_wave_breaking')
                continue
            E0 = ct.m_e * ct.c**2 / ct.e / sd
            ez = wf.core(f, 'e_z') / E0
            # discretisation: second-order differences vs exact derivative
            dz = z[1] - z[0]
            ez_fd = -np.gradient(u, dz, axis=0, edge_order=2)
            tol = (np.max(np.abs(u - uc)) / 2 + np.max(np.abs(v - vc))
                   + 1e-4)
            tz = 1.2 * np.max(np.abs(ez_fd - v)) + 1.2 * tol
            ctx.close('e_z', np.max(np.abs(ez - v)), tz)
            wr = (wf.core(f, 'e_r') - ct.c * wf.core(f, 'b_t')) / E0
            wref = -np.gradient(u, dr, axis=1, edge_order=2)
            twr = np.max(np.abs(np.gradient(
                u - uc, dr, axis=1, edge_order=2))) * 1.2 + 1e-3
            ctx.close('w_r', np.max(np.abs(wr - wref)), twr)
            ctx.close('chi', np.max(np.abs(
                wf.core(f, 'chi') - 1 / (1 + u))), 12 * tol)
            rho = (1 + a2 + (1 + u)**2) / (2 * (1 + u)**2)
            ctx.close('rho', np.max(np.abs(wf.core(f, 'rho') - rho)),
                      100 * tol if np.max(u) < 1 or np.min(u) < -.4
                      else 30 * tol)
            # Ampere's law
            vz = (1 + a2 - (1 + u)**2) / (1 + a2 + (1 + u)**2)
            acc = (1 + a2) / (2 * (1 + u)**2) - src - .5
            dez = -acc   # d E_z / d z = -u''
            dez_fd = np.gradient(ez_fd, dz, axis=0, edge_order=2)
            itg = (dez - rho * vz + nb)
            itg_fd = (dez_fd - rho * vz + nb)
            B = (np.cumsum(itg * r, axis=1) - itg * r / 2) * dr / r
            Bf = (np.cumsum(itg_fd * r, axis=1) - itg_fd * r / 2) * dr / r
            got = wf.core(f, 'b_t') * ct.c / E0
            tb = (1.3 * np.max(np.abs(B - Bf)[3:-3]) + 40 * tol
                  + .02 * np.max(np.abs(B)))
            ctx.close('b_t', np.max(np.abs(got - B)[3:-3]), tb)
            # first integral behind the drivers
            quiet = (a2 + np.abs(src) < 1e-10)
            chi = wf.core(f, 'chi')
            H = ez**2 / 2 + (chi + 1 / chi) / 2
            eH = 2 * np.max(np.abs(ez_fd - v)) * (np.max(np.abs(v)) + 1e-3)
            for j in range(0, n_r, 5):
                q = np.where(quiet[:, j])[0]
                q = q[(q > 1)]
                # contiguous tail from the rear
                t = 1
                while t < len(q) and q[t] == q[t - 1] + 1:
                    t += 1
                q = q[:t - 1]
                if len(q) > 20 and q[0] == 2:
                    ctx.close('first_integral', np.max(H[q, j])
                              - np.min(H[q, j]), eH + 1e-5)
            if kind == 'off':
                g = wf.stage('cold_fluid_1d', dens, k, las, **kw).fields[0]
                g.update([])
                if prof:
                    g.update([])
                w2 = (wf.core(g, 'e_r') - ct.c * wf.core(g, 'b_t')) / E0
                ctx.close('beam_off', max(
                    relerr(wf.core(f, 'e_z'), wf.core(g, 'e_z')),
                    relerr(wr, w2)), 1e-9)
            if np.max(np.abs(v)) > 1e-3:
                ctx.nontrivial([kind, n_p])


def w_conv(ctx):
    """Against an adaptive integration of the continuous problem: converges
    with the resolution."""
    for i, rng in ctx.cases(ctx.n(10, 60)):
        n_p = float(10**rng.uniform(22.5, 24.5))
        sd = wf.skin_depth(n_p)
        las = dict(xi_c=0., a_0=float(rng.uniform(.2, 2.)), w_0=2.5 * sd,
                   tau=float(rng.uniform(.8, 1.5) * sd / ct.c),
                   polarization=('linear', 'circular')[i % 2])
        with ctx.case(n_p=n_p, **las):
            s_z = las['tau'] * ct.c / (2 * np.sqrt(np.log(2))) / sd
            g = 2. if las['polarization'] == 'linear' else 1.

            def rhs(s, y):
                a2 = las['a_0']**2 / g * np.exp(-s**2 / s_z**2)
                return [y[1], (1 + a2) / (2 * (1 + y[0])**2) - .5]
            s0 = np.linspace(-5, 10, 401)     # s = -xi, front to back
            sol = solve_ivp(rhs, (-5, 10), [0, 0], t_eval=s0, rtol=1e-10,
                            atol=1e-12)
            err = []
            for n_xi in (101, 201, 401):
                k = dict(r_max=8 * sd, xi_min=-10 * sd, xi_max=5 * sd,
                         n_r=400, n_xi=n_xi)
                f = wf.fields('cold_fluid_1d', n_p, k, las, [])
                ez = wf.core(f, 'e_z')[:, 0] / (
                    ct.m_e * ct.c**2 / ct.e / sd)
                want = sol.y[1][::-1][::400 // (n_xi - 1)]
                err.append(np.max(np.abs(ez - want)))
            ctx.close('convergence', err[2], .4 * err[0] + 2e-3, errs=err)
            ctx.close('continuous_limit', err[2],
                      .05 * np.max(np.abs(sol.y[1])), errs=err)
            ctx.nontrivial(['conv', n_p])


SHARDS = {'reference': w_ref, 'continuous': w_conv}
