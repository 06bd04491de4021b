"""P08: depositing particles on the r-z grid conserves and localises charge."""
import inspect
import numpy as np
import scipy.constants as ct
from common import W, imp, bunch_arrays, make_bunch

PROPERTY = 'P08'
RULE = ('Random particle sets, including particles on the axis, on every grid '
        'line and face, just inside/outside the box and far away, deposited '
        'with linear and cubic shapes, with and without the cylindrical '
        'correction, on random grids; observed directly and by a probe on the '
        'deposition calls of real plasma-stage runs. Undriven plasma columns '
        'must be deposited as their density profile. Non-trivial: particles '
        'inside the box and within two cells of a face; distinct by grid, '
        'shape and correction.')
ASSUMPTIONS = ['Grids with at least 4 cells in each direction.']
MIN_EVENTS = {'monitor:charge': 60, 'monitor:guard_cells': 60,
              'monitor:shape': 60, 'monitor:uniform': 8,
              'monitor:plasma_profile': 6}
BUDGET = {'quick': 150., 'thorough': 1500.}


def spline(shape, u):
    """B-spline weights at distance |u| cells."""
    u = np.abs(u)
    if shape == 'linear':
        return np.where(u < 1, 1 - u, 0.)
    return np.where(u < 1, 2 / 3 - u**2 + u**3 / 2,
                    np.where(u < 2, (2 - u)**3 / 6, 0.))


def fold(cells, wts, n, axis_mirror):
    """Bring the weights of cells outside [0, n) back inside."""
    out = np.zeros(n)
    for c, w in zip(cells, wts):
        if w == 0.:
            continue
        if c < 0:
            c = -1 - c if axis_mirror else 0 - c - 1
        if c >= n:
            c = 2 * n - 1 - c
        out[c] += w
    return out


def reference(z, x, y, w, z_min, nz, nr, dz, dr, shape):
    """Plain shape-function deposition (no cylindrical correction)."""
    out = np.zeros((nz, nr))
    z_max = z_min + (nz - 1) * dz
    for i in range(len(z)):
        r = np.hypot(x[i], y[i])
        if not (z_min <= z[i] <= z_max and r <= nr * dr):
            continue
        rc, zc = r / dr - 0.5, (z[i] - z_min) / dz
        s = 1 if shape == 'linear' else 2
        cz = np.arange(int(np.floor(zc)) - s, int(np.floor(zc)) + s + 2)
        cr = np.arange(int(np.floor(rc)) - s, int(np.floor(rc)) + s + 2)
        wz = fold(cz, spline(shape, cz - zc), nz, False)
        if shape == 'linear' and rc > nr - 1:
            wr = np.zeros(nr)
            wr[-1] = 1.
        elif shape == 'linear' and rc < 0:
            wr = np.zeros(nr)
            wr[0] = 1.
        else:
            wr = fold(cr, spline(shape, cr - rc), nr, True)
        out += w[i] * wz[:, None] * wr[None, :]
    return out


def gen_particles(rng, n, z_min, nz, nr, dz, dr):
    Lz, R = (nz - 1) * dz, nr * dr
    z = z_min + Lz * rng.uniform(-0.1, 1.1, n)
    r = R * np.sqrt(rng.uniform(0, 1.2, n))
    # hostile positions
    k = rng.integers(0, 12, n)
    j = rng.integers(0, nz, n)
    m = rng.integers(0, nr + 1, n)
    z = np.where(k == 0, z_min, z)
    z = np.where(k == 1, z_min + Lz, z)
    z = np.where(k == 2, z_min + j * dz, z)
    z = np.where(k == 3, z_min + dz * rng.uniform(0, 2, n), z)
    z = np.where(k == 4, z_min + Lz - dz * rng.uniform(0, 2, n), z)
    k = rng.integers(0, 12, n)
    r = np.where(k == 0, 0., r)
    r = np.where(k == 1, R, r)
    r = np.where(k == 2, m * dr, r)
    r = np.where(k == 3, np.clip(m - 0.5, 0, None) * dr, r)
    r = np.where(k == 4, dr * rng.uniform(0, 2, n), r)
    r = np.where(k == 5, R - dr * rng.uniform(0, 2, n), r)
    th = rng.uniform(0, 2 * np.pi, n)
    th = np.where(rng.random(n) < .3, 0., th)
    return z, r * np.cos(th), r * np.sin(th), rng.uniform(-1, 2, n)


def judge(ctx, z, x, y, w, z_min, nz, nr, dz, dr, arr, shape, ruyten,
          before=None):
    """Monitor of one deposition call, from its inputs and its output."""
    if before is not None:
        arr = arr - before
    z_max = z_min + (nz - 1) * dz
    r = np.sqrt(x**2 + y**2)
    eps = 1e-9
    inside = (z >= z_min) & (z <= z_max) & (r <= nr * dr)
    edge = ((np.abs(z - z_min) < eps * dz) | (np.abs(z - z_max) < eps * dz)
            | (np.abs(r - nr * dr) < eps * dr)) & (
                np.abs(z - z_min) * 0 == 0)
    tot = np.sum(np.abs(w)) + 1e-300
    slack = np.sum(np.abs(w[edge & ((z - z_min > -eps * dz) & (
        z - z_max < eps * dz) & (r - nr * dr < eps * dr))]))
    core = arr[2:-2, 2:-2]
    g = np.abs(arr).sum() - np.abs(core).sum()
    ctx.close('guard_cells', g / tot, 1e-9, shape=shape, ruyten=ruyten)
    ctx.close('charge', max(0., abs(core.sum() - w[inside].sum()) - slack)
              / tot, 1e-9, shape=shape, ruyten=ruyten)
    return inside, core


def w_kernel(ctx):
    dep = imp('wake_t.particles.deposition', 'deposit_3d_distribution')
    for i, rng in ctx.cases(ctx.n(320, 4000)):
        nz, nr = int(rng.integers(4, 40)), int(rng.integers(4, 40))
        dz, dr = 10**rng.uniform(-2, 1, 2)
        z_min = float(rng.uniform(-5, 5) * nz * dz)
        shape = ('linear', 'cubic')[i % 2]
        ruyten = bool(rng.random() < .5)
        n = int(rng.integers(1, 80))
        with ctx.case(nz=nz, nr=nr, dz=dz, dr=dr, shape=shape, ruyten=ruyten,
                      n=n):
            z, x, y, w = gen_particles(rng, n, z_min, nz, nr, dz, dr)
            before = rng.uniform(-1, 1, (nz + 4, nr + 4)) * (
                rng.random() < .5)

            def do(sel, x=x, y=y, w=w, start=None):
                a = np.zeros((nz + 4, nr + 4)) if start is None else start
                dep(z[sel].copy(), x[sel].copy(), y[sel].copy(),
                    w[sel].copy(), z_min, dr / 2, nz, nr, dz, dr, a,
                    p_shape=shape, use_ruyten=ruyten)
                return a
            al = np.arange(n)
            arr = do(al, start=before.copy())
            inside, core = judge(ctx, z, x, y, w, z_min, nz, nr, dz, dr, arr,
                                 shape, ruyten, before)
            tot = np.sum(np.abs(w)) + 1e-300
            # outside: nothing at all
            far = np.where((z < z_min - 1e-9 * dz) | (
                z > z_min + (nz - 1) * dz + 1e-9 * dz) | (
                np.hypot(x, y) > nr * dr * (1 + 1e-9)))[0]
            ctx.check('outside', not np.any(do(far)))
            # additive, and independent of the azimuth and of the order
            cut = int(rng.integers(0, n + 1))
            perm = rng.permutation(n)
            ctx.close('additive', np.max(np.abs(
                do(perm[:cut]) + do(perm[cut:]) - (arr - before))) / tot,
                1e-9)
            r = np.hypot(x, y)
            ctx.close('azimuth', np.max(np.abs(do(
                al, x=-y, y=x) - (arr - before))) / tot, 1e-9)
            # one particle: support, sign, centroid
            for j in rng.permutation(np.where(inside)[0])[:4]:
                a = do(np.array([j]))[2:-2, 2:-2]
                rc = r[j] / dr - 0.5
                zc = (z[j] - z_min) / dz
                s = 1 if shape == 'linear' else 2
                I, J = np.nonzero(a)
                ctx.check('local', np.all(np.abs(I - zc) <= s + 1e-6)
                          and np.all(np.abs(J - rc) <= s + 1e-6),
                          rows=I, cols=J, rc=rc, zc=zc)
                if shape == 'linear' or 1 < zc < nz - 2:
                    ctx.close('centroid_z', abs(
                        np.sum(a * np.arange(nz)[:, None]) - w[j] * zc)
                        / (abs(w[j]) * nz + 1e-300), 1e-9)
                ctx.check('sign', ruyten or np.all(a * w[j] >= 0))
            if not ruyten:
                ref = reference(z, x, y, w, z_min, nz, nr, dz, dr, shape)
                # exactly on a face: rounding decides which side it is on
                ed = (np.abs(z - z_min) < 1e-9 * dz) | (
                    np.abs(z - z_min - (nz - 1) * dz) < 1e-9 * dz) | (
                    np.abs(r - nr * dr) < 1e-9 * dr)
                if np.any(ed):
                    s2 = np.where(~ed)[0]
                    ref = reference(z[s2], x[s2], y[s2], w[s2], z_min, nz,
                                    nr, dz, dr, shape)
                    core = do(s2)[2:-2, 2:-2]
                ctx.close('shape', np.max(np.abs(core - ref)) / tot, 1e-8,
                          shape=shape)
            else:
                # the correction moves charge between radial cells only
                ref = reference(z, x, y, w, z_min, nz, nr, dz, dr, shape)
                ctx.close('correction_radial_only', np.max(np.abs(
                    core.sum(axis=1) - ref.sum(axis=1))) / tot,
                    1e-8 + 3. * (np.sum(np.abs(w[
                        (np.abs(z - z_min) < 1e-9 * dz) | (np.abs(
                            z - z_min - (nz - 1) * dz) < 1e-9 * dz)
                        | (np.abs(r - nr * dr) < 1e-9 * dr)])) / tot))
            if inside.any():
                ctx.nontrivial([nz, nr, shape, ruyten, n])


def w_uniform(ctx):
    """A uniform disc gives a uniform density in all cells, also on axis."""
    dep = imp('wake_t.particles.deposition', 'deposit_3d_distribution')
    for i, rng in ctx.cases(ctx.n(30, 200)):
        shape = ('linear', 'cubic')[i % 2]
        nz, nr = 8, int(rng.integers(8, 40))
        dr = float(10**rng.uniform(-2, 1))
        with ctx.case(shape=shape, nr=nr, dr=dr):
            m = 4000
            # equidistant in r with weight r dr: exact radial quadrature
            r = (np.arange(m * nr) + 0.5) * dr / m
            th = rng.uniform(0, 6.28, r.size)
            w = 2 * np.pi * r * dr / m
            zc = rng.uniform(2, 5)
            a = np.zeros((nz + 4, nr + 4))
            dep(np.full(r.size, zc), r * np.cos(th), r * np.sin(th), w, 0.,
                dr / 2, nz, nr, 1., dr, a, p_shape=shape, use_ruyten=True)
            v = np.pi * dr**2 * (2 * np.arange(nr) + 1)
            d = a[2:-2, 2:-2].sum(axis=0) / v
            ctx.close('uniform', np.max(np.abs(d[:-2] - 1)), 2e-3,
                      density=d[:6])
            ctx.nontrivial([shape, nr])


def w_stage(model):
    """Probe on the deposition calls made by real runs."""
    def w(ctx):
        E = imp('wake_t.beamline_elements')
        mods = [imp(m) for m in (
            'wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis.solver',
            'wake_t.physics_models.plasma_wakefields.qs_cold_fluid_1x3p')]
        calls = []

        names = ('z', 'x', 'y', 'w', 'z_min', 'r_min', 'nz', 'nr', 'dz',
                 'dr', 'deposition_array')

        def wrap(f):
            sig = inspect.signature(f)

            def g(*a, **kw):
                v = sig.bind(*a, **kw)
                v.apply_defaults()
                v = v.arguments
                if not all(n in v for n in names):
                    return f(*a, **kw)      # not the call we know
                arr = v['deposition_array']
                bf = arr.copy()
                r = f(*a, **kw)
                calls.append((v['z'].copy(), v['x'].copy(), v['y'].copy(),
                              v['w'].copy(), v['z_min'], v['nz'], v['nr'],
                              v['dz'], v['dr'], arr.copy(), v, bf))
                return r
            return g
        for m in mods:
            if hasattr(m, 'deposit_3d_distribution'):
                m.deposit_3d_distribution = wrap(m.deposit_3d_distribution)
        for i, rng in ctx.cases(ctx.n(20, 200)):
            nx, nr = int(rng.integers(20, 60)), int(rng.integers(15, 60))
            shape = ('linear', 'cubic')[i % 2]
            dens = float(10**rng.uniform(22, 24))
            with ctx.case(model=model, n_xi=nx, n_r=nr, shape=shape,
                          dens=dens):
                calls.clear()
                kw = dict(r_max=60e-6, xi_min=-60e-6, xi_max=40e-6, n_r=nr,
                          n_xi=nx, p_shape=shape, dz_fields=1e-4)
                if model == 'quasistatic_2d':
                    kw.update(ppc=int(rng.integers(1, 4)))
                else:
                    kw.update(beam_wakefields=True)
                st = E.PlasmaStage(2e-4, dens, model, n_out=1, **kw)
                bs = [make_bunch(bunch_arrays(
                    rng, 300, size=20e-6, sxi=30e-6, q=1e-12), name=f'b{k}')
                    for k in range(2)]
                st.track(bs, show_progress_bar=False)
                for c in calls:
                    z, x, y, wt, z_min, nz, n_r, dz, dr, arr, k2, bf = c
                    judge(ctx, z, x, y, wt, z_min, nz, n_r, dz, dr, arr,
                          k2.get('p_shape'), k2.get('use_ruyten'), bf)
                    ctx.event('probed_calls')
                if calls:
                    ctx.nontrivial([model, nx, nr, shape])
            # undriven plasma column: rho and chi are the density profile
            if model == 'quasistatic_2d':
                pc = float(rng.uniform(0, 5e8)) * (i % 3 == 0)
                ppc = int(rng.integers(1, 5))
                with ctx.case(model=model, undriven=True, n_xi=nx, n_r=nr,
                              shape=shape, pc=pc, ppc=ppc):
                    f = undriven(E, dens, nx, nr, shape, pc, ppc)
                    r = (np.arange(nr) + 0.5) * 60e-6 / nr
                    want = 1 + pc * r**2
                    for nm in ('rho', 'chi'):
                        a = getattr(f, nm)
                        ctx.close('plasma_rows_equal', np.max(np.abs(
                            a[2:-2, 2:-2] - a[nx // 2 + 2, 2:-2])), 0.3,
                            field=nm)
                        # the last cells hold what leaves the box; the
                        # shape function is not corrected on axis
                        ctx.close('plasma_profile', np.max(np.abs(
                            a[2:-2, 4:-5] / want[2:-3] - 1)),
                            0.3, field=nm)
                        ctx.close('plasma_front_profile', np.max(np.abs(
                            a[-4:-2, 4:-5] / want[2:-3] - 1)),
                            0.06 if ppc > 1 else 0.15, field=nm)
                        g = np.abs(a).sum() - np.abs(a[2:-2, 2:-2]).sum()
                        ctx.close('plasma_guard', g, 1e-9)
                        # (discrete particles are not an exact equilibrium: a small
                        # oscillation grows from the front)
                        # every macroparticle is there, in every slice
                        q = np.sum(a[2:-2, 2:-2], axis=1) / nr
                        rp = (np.arange(nr * ppc) + 0.5) / ppc
                        tot = np.sum((1 + pc * (rp * 60e-6 / nr)**2)) / (
                            ppc * nr)
                        ctx.close('plasma_charge', np.max(np.abs(
                            q / tot - 1)), 5e-2, field=nm)
                    ctx.nontrivial(['undriven', nx, nr, shape, ppc])
    return w


def undriven(E, dens, nx, nr, shape, pc, ppc):
    st = E.PlasmaStage(
        1e-5, dens, 'quasistatic_2d', n_out=1, r_max=60e-6, xi_min=-60e-6,
        xi_max=40e-6, n_r=nr, n_xi=nx, p_shape=shape, ppc=ppc,
        parabolic_coefficient=float(pc))
    b = make_bunch(dict(w=np.zeros(2), x=[1e-6, 2e-6], y=[0, 0.], xi=[0, 0.],
                        px=[0, 0], py=[0, 0], pz=[1e3, 1e3]), name='b')
    b.w[:] = 1e-30
    st.track(b, show_progress_bar=False)
    return st.fields[0]


SHARDS = {'kernel': w_kernel, 'uniform': w_uniform,
          'quasistatic': w_stage('quasistatic_2d'),
          'coldfluid': w_stage('cold_fluid_1d')}
