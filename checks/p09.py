"""P09: fields and envelopes are interpolated faithfully from the r-z grid."""
import numpy as np
import scipy.constants as ct
from common import W, imp, bunch_arrays, make_bunch

PROPERTY = 'P09'
RULE = ('A user-defined r-z wakefield (subclass of RZWakefield) with random '
        'grids and random or (bi)linear field maps is gathered at random '
        'points, on the axis, on and around every kind of grid face and '
        'outside; results are compared with independent bilinear '
        'interpolation, with the exact linear function, under rotation about '
        'the axis and across the axis. The regridding used by laser subgrids '
        'is checked in the same way. Non-trivial: points inside, in the axis '
        'cell and outside; distinct by grid.')
ASSUMPTIONS = ['Grid values are cell-centred in r and node-centred in xi; '
               'outside the region covered by grid values the field is zero.']
MIN_EVENTS = {'monitor:bilinear': 40, 'monitor:linear_exact': 40,
              'monitor:rotation': 40, 'monitor:outside': 40,
              'monitor:axis': 40, 'monitor:regrid': 20,
              'monitor:regrid_chi': 10}
BUDGET = {'quick': 120., 'thorough': 1500.}


def make_field(arrays, r_max, xi_min, xi_max, n_r, n_xi):
    RZ = imp('wake_t.fields.rz_wakefield', 'RZWakefield')

    class F(RZ):
        def _calculate_wakefield(self, bunches):
            for k, v in arrays.items():
                getattr(self, k)[2:-2, 2:-2] = v
    f = F(lambda z: 1e23, r_max, xi_min, xi_max, n_r, n_xi)
    f.update([])
    return f


def bil(a, xi, r, xi0, dxi, dr, odd):
    """Independent bilinear interpolation; values below the first radial
    point mirrored (odd/even)."""
    n_xi, n_r = a.shape
    ext = np.concatenate([(-1 if odd else 1) * a[:, :1], a], axis=1)
    out = np.zeros(len(r))
    for k in range(len(r)):
        zc = (xi[k] - xi0) / dxi
        rc = r[k] / dr + 0.5          # index in ext
        if zc < 0 or zc > n_xi - 1 or rc > n_r:
            continue
        i, j = min(int(zc), n_xi - 2), min(int(rc), n_r - 1)
        u, v = zc - i, rc - j
        out[k] = ((1 - u) * (1 - v) * ext[i, j] + u * (1 - v) * ext[i + 1, j]
                  + (1 - u) * v * ext[i, j + 1] + u * v * ext[i + 1, j + 1])
    return out


def points(rng, n, xi_min, xi_max, r_max, dr, dxi, n_xi, n_r):
    R = r_max - dr / 2
    xi = xi_min + (xi_max - xi_min) * rng.uniform(-0.15, 1.15, n)
    r = r_max * rng.uniform(0, 1.3, n)
    k = rng.integers(0, 10, n)
    xi = np.where(k == 0, xi_min + dxi * rng.integers(0, n_xi, n), xi)
    xi = np.where(k == 1, xi_min + dxi * rng.uniform(0, 1, n), xi)
    xi = np.where(k == 2, xi_max - dxi * rng.uniform(0, 1, n), xi)
    k = rng.integers(0, 8, n)
    r = np.where(k == 0, dr * rng.uniform(0, 0.5, n), r)
    r = np.where(k == 1, 0., r)
    r = np.where(k == 2, R - dr * rng.uniform(0, 1, n), r)
    r = np.where(k == 3, dr * (rng.integers(0, n_r, n) + 0.5), r)
    th = rng.uniform(0, 2 * np.pi, n)
    # keep clear of the outer faces: rounding decides there
    for f in (xi_min, xi_max):
        xi = np.where(np.abs(xi - f) < 1e-6 * dxi, f + 1e-3 * dxi * np.sign(
            0.5 * (xi_min + xi_max) - f), xi)
    r = np.where(np.abs(r - R) < 1e-6 * dr, R - 1e-3 * dr, r)
    return xi, r, th


def gather(f, x, y, xi, t=0.):
    out = [np.zeros(len(x)) for _ in range(6)]
    f.gather(np.ascontiguousarray(x), np.ascontiguousarray(y),
             np.ascontiguousarray(xi), t, *out)
    return out


def w_gather(ctx):
    for i, rng in ctx.cases(ctx.n(600, 6000)):
        n_r, n_xi = int(rng.integers(2, 40)), int(rng.integers(2, 40))
        r_max = float(10**rng.uniform(-6, -3))
        xi_min = float(rng.uniform(-2, 1) * 1e-4)
        xi_max = xi_min + float(10**rng.uniform(-5, -3))
        dr, dxi = r_max / n_r, (xi_max - xi_min) / (n_xi - 1)
        with ctx.case(n_r=n_r, n_xi=n_xi, r_max=r_max, xi_min=xi_min,
                      xi_max=xi_max):
            xi, r, th = points(rng, 150, xi_min, xi_max, r_max, dr, dxi,
                               n_xi, n_r)
            x, y = r * np.cos(th), r * np.sin(th)
            A = {k: rng.standard_normal((n_xi, n_r)) * s for k, s in (
                ('e_r', 1e9), ('e_z', 1e10), ('b_t', 3.))}
            f = make_field(A, r_max, xi_min, xi_max, n_r, n_xi)
            g = gather(f, x, y, xi)
            rr = np.hypot(x, y)
            er = bil(A['e_r'], xi, rr, xi_min, dxi, dr, True)
            bt = bil(A['b_t'], xi, rr, xi_min, dxi, dr, True)
            ez = bil(A['e_z'], xi, rr, xi_min, dxi, dr, False)
            c, s = np.cos(th), np.sin(th)
            want = [er * c, er * s, ez, -bt * s, bt * c, 0 * ez]
            for a, b, sc, nm in zip(g, want, (1e9, 1e9, 1e10, 3, 3, 1),
                                    ('Ex', 'Ey', 'Ez', 'Bx', 'By', 'Bz')):
                ctx.close('bilinear', np.max(np.abs(a - b)) / sc, 1e-6,
                          comp=nm)
            inside = (xi >= xi_min) & (xi <= xi_max) & (
                rr <= r_max - dr / 2)
            ctx.check('outside', all(np.all(a[~inside] == 0) for a in g))
            ctx.check('finite', all(np.all(np.isfinite(a)) for a in g))
            # rotation by any angle rotates the field
            al = float(rng.uniform(0, 6.28))
            ca, sa = np.cos(al), np.sin(al)
            h = gather(f, ca * x - sa * y, sa * x + ca * y, xi)
            ok = np.abs(rr - (r_max - dr / 2)) > 1e-9 * dr
            rot = [ca * g[0] - sa * g[1], sa * g[0] + ca * g[1], g[2],
                   ca * g[3] - sa * g[4], sa * g[3] + ca * g[4], g[5]]
            for a, b, sc in zip(h, rot, (1e9, 1e9, 1e10, 3, 3, 1)):
                ctx.close('rotation', np.max(np.abs((a - b)[ok])) / sc, 1e-6)
            # on axis: no transverse field; continuous through it
            z0 = rng.uniform(xi_min, xi_max, 20)
            o = gather(f, np.zeros(20), np.zeros(20), z0)
            ctx.check('axis', all(np.all(o[k] == 0) for k in (0, 1, 3, 4)))
            e = 1e-7 * dr
            p = gather(f, np.full(20, e), np.zeros(20), z0)
            q = gather(f, np.full(20, -e), np.zeros(20), z0)
            ctx.close('axis_continuity', max(
                np.max(np.abs(p[0])) / 1e9, np.max(np.abs(q[0])) / 1e9,
                np.max(np.abs(p[4])) / 3, np.max(np.abs(p[2] - o[2])) / 1e10,
                np.max(np.abs(q[2] - o[2])) / 1e10), 1e-5)
            # fields linear in r and xi are exact everywhere inside
            a, b = rng.uniform(-1, 1, 2)
            zf = (np.linspace(xi_min, xi_max, n_xi) - xi_min) / (
                xi_max - xi_min)
            rf = (np.arange(n_r) + 0.5) / n_r
            k = 1 + a * zf[:, None] + 0 * rf
            L = dict(e_r=k * rf * 1e9, b_t=b * k * rf, e_z=k * 1e9)
            f = make_field(L, r_max, xi_min, xi_max, n_r, n_xi)
            g = gather(f, x, y, xi)
            zn = (xi - xi_min) / (xi_max - xi_min)
            kk = (1 + a * zn) * inside
            want = [kk * x / r_max * 1e9, kk * y / r_max * 1e9, kk * 1e9,
                    -b * kk * y / r_max, b * kk * x / r_max, 0 * kk]
            for u, v, sc in zip(g, want, (1e9, 1e9, 1e9, 1, 1, 1)):
                ctx.close('linear_exact', np.max(np.abs(u - v)) / sc, 1e-8)
            if inside.any() and (~inside).any():
                ctx.nontrivial([n_r, n_xi, r_max])


def w_regrid(ctx):
    """Laser subgrid: envelope and susceptibility on another grid."""
    interp = imp('wake_t.fields.interpolation', 'interpolate_rz_field')
    for i, rng in ctx.cases(ctx.n(240, 3000)):
        nz, nr = int(rng.integers(3, 40)), int(rng.integers(3, 40))
        mz, mr = int(rng.integers(2, 50)), int(rng.integers(2, 50))
        cplx = bool(i % 2)
        with ctx.case(nz=nz, nr=nr, mz=mz, mr=mr, cplx=cplx):
            z0, z1 = -3., float(rng.uniform(-1, 5))
            R = float(rng.uniform(1, 5))
            dz, dr = (z1 - z0) / (nz - 1), R / nr
            z, r = np.linspace(z0, z1, nz), (np.arange(nr) + .5) * dr
            zn, rn = np.linspace(z0, z1, mz), (np.arange(mr) + .5) * R / mr

            def run(a):
                out = np.full((mz, mr), np.nan, dtype=a.dtype)
                interp(np.ascontiguousarray(a), z0, r[0], dz, dr, zn, rn, out)
                return out
            mk = (lambda *s: rng.standard_normal(s) + 1j * rng.standard_normal(
                s)) if cplx else (lambda *s: rng.standard_normal(s))
            a = mk(nz, nr)
            got = run(a)
            i0 = np.clip(((zn - z0) / dz + 1e-12).astype(int), 0, nz - 2)
            u = ((zn - z0) / dz - i0)[:, None]
            j0 = np.clip(np.floor((rn - r[0]) / dr + 1e-12).astype(int), 0,
                         nr - 2)
            v = ((rn - r[0]) / dr - j0)[None, :]
            w = ((1 - u) * (1 - v) * a[np.ix_(i0, j0)]
                 + u * (1 - v) * a[np.ix_(i0 + 1, j0)]
                 + (1 - u) * v * a[np.ix_(i0, j0 + 1)]
                 + u * v * a[np.ix_(i0 + 1, j0 + 1)])
            ctx.close('regrid', np.max(np.abs(got - w)), 1e-8)
            c = mk(4)
            lin = (lambda Z, Q: c[0] + c[1] * Z[:, None] + c[2] * Q[None, :]
                   + c[3] * Z[:, None] * Q[None, :])
            ctx.close('regrid_exact', np.max(np.abs(
                run(lin(z, r)) - lin(zn, rn))) / (
                    1 + np.max(np.abs(lin(zn, rn)))), 1e-9)
            ctx.nontrivial([nz, nr, mz, mr, cplx])


def w_subgrid(ctx):
    """The same through the public laser interface."""
    for i, rng in ctx.cases(ctx.n(100, 600)):
        nz, nr = int(rng.integers(20, 60)), int(rng.integers(20, 60))
        mz, mr = int(rng.integers(20, 120)), int(rng.integers(20, 120))
        with ctx.case(nz=nz, nr=nr, mz=mz, mr=mr):
            mk = lambda: W.GaussianPulse(
                10e-6, l_0=0.8e-6, w_0=25e-6, a_0=2., tau=40e-15,
                z_foc=float(2e-3), cep_phase=0.7)
            xi_min, xi_max, R = -60e-6, 60e-6, 90e-6
            L = mk()
            L.set_envelope_solver_params(xi_min, xi_max, R, nz, nr, 1e-13, 1,
                                         mz, mr)
            L.initialize_envelope()
            env = L.get_envelope()
            # laser sampled on the subgrid, interpolated by hand
            P = mk()
            P.set_envelope_solver_params(xi_min, xi_max, R, mz, mr, 1e-13, 1)
            P.initialize_envelope()
            a = np.array(P.get_envelope())
            ctx.check('shape', env.shape == (nz, nr), shape=env.shape)
            dz, dr = (xi_max - xi_min) / (mz - 1), R / mr
            zn, rn = np.linspace(xi_min, xi_max, nz), (
                np.arange(nr) + .5) * R / nr
            i0 = np.clip(((zn - xi_min) / dz + 1e-9).astype(int), 0, mz - 2)
            u = ((zn - xi_min) / dz - i0)[:, None]
            j0 = np.clip(np.floor((rn - dr / 2) / dr + 1e-9).astype(int), 0,
                         mr - 2)
            v = ((rn - dr / 2) / dr - j0)[None, :]

            def main(a):
                return ((1 - u) * (1 - v) * a[np.ix_(i0, j0)]
                        + u * (1 - v) * a[np.ix_(i0 + 1, j0)]
                        + (1 - u) * v * a[np.ix_(i0, j0 + 1)]
                        + u * v * a[np.ix_(i0 + 1, j0 + 1)])
            ctx.close('regrid', np.max(np.abs(env - main(a))), 1e-7)
            # a susceptibility linear in xi and r is exact on both grids, so
            # that the envelope evolves in the same way
            c = rng.uniform(0, 2, 4)

            def chi(n, m):
                Z = np.linspace(0, 1, n)[:, None]
                Q = ((np.arange(m) + .5) / m)[None, :]
                return c[0] + c[1] * Z + c[2] * Q + c[3] * Z * Q
            for _ in range(3):
                L.evolve(chi(nz, nr), 3e24)
                P.evolve(chi(mz, mr), 3e24)
            b = np.array(P.get_envelope())
            ctx.close('regrid_chi', np.max(np.abs(
                L.get_envelope() - main(b))), 1e-9 * np.max(np.abs(b)))
            ctx.event('envelope_change', int(
                np.max(np.abs(b - a)) > 1e-6 * np.max(np.abs(a))))
            ctx.nontrivial([nz, nr, mz, mr])


SHARDS = {'gather': w_gather, 'regrid': w_regrid, 'subgrid': w_subgrid}
