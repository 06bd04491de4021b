"""P10: no kernel touches memory outside its arrays, whatever the input."""
import numpy as np
import scipy.constants as ct
from common import W, imp, make_bunch, bunch_arrays
import wf

PROPERTY = 'P10'
RULE = ('The compiled kernels run under the numba bounds-check sanitizer '
        '(NUMBA_BOUNDSCHECK=1, no disk cache) while bunches with particles '
        'on, one ulp inside/outside and far outside every grid edge, on the '
        'axis, with NaN/inf/huge coordinates, of size 1 to 3000 and of size '
        'changing between pushes go through both r-z models, all analytic '
        'fields, both pushers, lasers and sub-grids, on the smallest to '
        'normal grids; any index outside an array stops the kernel and is '
        'reported. Particles with valid coordinates must stay unaffected by '
        'invalid ones outside the grid. Non-trivial: hostile particles or a '
        'minimal grid; distinct by configuration.')
ASSUMPTIONS = ['Bounds checks see accesses through array indexing, which is '
               'all these kernels use; negative indices within -n wrap.',
               'A refusal with an ordinary exception is not a violation.']
MIN_EVENTS = {'monitor:in_bounds': 80, 'hostile_particles': 2000,
              'monitor:resized': 10}
BUDGET = {'quick': 200., 'thorough': 1500.}
BAD = (IndexError, SystemError)


def guard(ctx, name, f, **info):
    """Run f; an out-of-bounds access is a violation, a refusal is not."""
    try:
        r = f()
        ctx.check('in_bounds', True)
        return r
    except BAD as e:
        ctx.check('in_bounds', False, where=name, error=repr(e)[:300], **info)
    except (ValueError, ZeroDivisionError, RuntimeError,
            FloatingPointError, np.linalg.LinAlgError, OverflowError) as e:
        ctx.event('refused')
        ctx.event('refused:' + name + ':' + repr(e)[:90])
    return None


def ulp(v, k):
    for _ in range(abs(k)):
        v = np.nextafter(v, np.inf if k > 0 else -np.inf)
    return float(v)


def hostile(rng, k, n, nan=True):
    """Particles on and around every edge of the grid."""
    r_max, lo, hi = k['r_max'], k['xi_min'], k['xi_max']
    dr, dz = r_max / k['n_r'], (hi - lo) / max(1, k['n_xi'] - 1)
    re = [0., ulp(0., 1), dr / 2, dr, dr * (k['n_r'] - .5), r_max,
          r_max + dr / 2, r_max + dr, r_max + 2 * dr, 10 * r_max]
    ze = [lo, hi, lo - dz, lo - dz / 2, hi + dz / 2, hi + dz, lo + dz,
          hi - dz, (lo + hi) / 2, lo - 2 * dz, hi + 2 * dz, 10 * hi - 9 * lo]
    R = np.array([ulp(re[int(rng.integers(len(re)))],
                      int(rng.integers(-2, 3))) if rng.random() < .7
                  else rng.uniform(0, 1.2 * r_max) for _ in range(n)])
    Z = np.array([ulp(ze[int(rng.integers(len(ze)))],
                      int(rng.integers(-2, 3))) if rng.random() < .7
                  else rng.uniform(lo - dz, hi + dz) for _ in range(n)])
    th = rng.choice([0., np.pi / 2, np.pi, -np.pi / 2, 1.], n)
    a = bunch_arrays(rng, n, q=1e-12)
    c, s = np.cos(th), np.sin(th)
    ax = rng.random(n) < .5
    c[ax], s[ax] = np.round(c[ax]), np.round(s[ax])
    a['x'], a['y'], a['xi'] = R * c, R * s, Z
    if nan:
        for key in ('x', 'y', 'xi', 'px'):
            m = rng.random(n) < .04
            a[key][m] = rng.choice([np.nan, np.inf, -np.inf, 1e300, -1e300],
                                   int(m.sum()))
    return a


def small_grid(rng, model):
    n_p, sd, k = wf.grid(rng, model)
    if rng.random() < .6:
        k['n_r'] = int(rng.integers(2, 9))
        k['n_xi'] = int(rng.integers(2, 9))
    if model == 'quasistatic_2d' and rng.random() < .5:
        k['r_max_plasma'] = float(k['r_max'] * rng.choice(
            [.3, .5, .999, 1., 1.001, 1.4]))
    return n_p, sd, k


def w_rz(model):
    def run(ctx):
        for i, rng in ctx.cases(ctx.n(14, 200) if model == 'quasistatic_2d'
                                else ctx.n(25, 300)):
            n_p, sd, k = small_grid(rng, model)
            las = wf.laser(rng, n_p, k) if rng.random() < .4 else None
            if las is not None:
                if rng.random() < .5:
                    k['laser_envelope_nxi'] = int(rng.integers(2, 40))
                    k['laser_envelope_nr'] = int(rng.integers(2, 40))
                k['laser_envelope_use_phase'] = bool(rng.integers(2))
                k['laser_envelope_substeps'] = int(rng.integers(1, 3))
            n = int(rng.choice([1, 2, 30, 300]))
            nan = rng.random() < .5
            with ctx.case(model=model, n=n, nan=nan, n_p=n_p,
                          laser=las is not None, **k):
                a = hostile(rng, k, n, nan)
                ctx.event('hostile_particles', n)
                b = make_bunch(a)
                st = wf.stage(model, n_p, k, las, length=1e-3,
                              dz_fields=4e-4)
                f = st.fields[0]
                with np.errstate(all='ignore'):
                    guard(ctx, model + '.update', lambda: f.update([b]))
                    if not hasattr(f, 'e_z'):
                        continue
                    for m in ('boris', 'rk4'):
                        guard(ctx, model + '.evolve', lambda: b.copy().evolve(
                            [f], 0., 1e-14, m))
                    guard(ctx, model + '.update2', lambda: f.update([b]))
                ctx.nontrivial([model, n, k])
    return run


def w_kernels(ctx):
    """Deposition and gathering directly, plus resized bunches."""
    fb = W.PlasmaStage(1e-3, 1e23, 'focusing_blowout', n_out=1).fields[0]
    ql = imp('wake_t.beamline_elements', 'FieldQuadrupole')(1e-3, 10., n_out=1).fields[0]
    for i, rng in ctx.cases(ctx.n(30, 400)):
        n_p, sd, k = small_grid(rng, 'cold_fluid_1d')
        n = int(rng.choice([1, 2, 100, 1000]))
        with ctx.case(n=n, **k):
            dep = imp('wake_t.particles.deposition',
                      'deposit_3d_distribution')
            gat = imp('wake_t.particles.interpolation',
                      'gather_main_fields_cyl_linear')
            a = hostile(rng, k, n)
            ctx.event('hostile_particles', n)
            nr, nx = k['n_r'], k['n_xi']
            dr, dx = k['r_max'] / nr, (k['xi_max'] - k['xi_min']) / (nx - 1)
            g = np.zeros((nx + 4, nr + 4))
            for sh in ('linear', 'cubic'):
                for rc in (True, False):
                    guard(ctx, 'deposit', lambda: dep(
                        a['xi'], a['x'], a['y'], a['w'], k['xi_min'], dr / 2,
                        nx, nr, dx, dr, g, p_shape=sh,
                        use_ruyten=rc), shape=sh)
            F = rng.standard_normal((3, nx + 4, nr + 4))
            o = [np.zeros(n) for _ in range(6)]
            guard(ctx, 'gather', lambda: gat(
                F[0], F[1], F[2], k['xi_min'], k['xi_max'], dr / 2,
                k['r_max'] - dr / 2, dx, dr, a['x'], a['y'], a['xi'], *o))
            # bunches that lose or gain particles between pushes
            b = make_bunch(bunch_arrays(rng, n))
            for step in range(3):
                m = ('boris', 'rk4')[int(rng.integers(2))]
                guard(ctx, 'push', lambda: b.evolve([fb, ql], 0., 1e-13, m))
                n2 = int(rng.choice([1, 7, 500, 3000]))
                c = bunch_arrays(rng, n2)
                b.set_phase_space(*[c[q] for q in ('x', 'y', 'xi', 'px', 'py',
                                                   'pz')])
                b.w = c['w']
                d = make_bunch(c)
                for m in ('boris', 'rk4'):
                    b2, d2 = b, d
                    if guard(ctx, 'resized', lambda: (
                            b2.evolve([fb, ql], 0., 1e-13, m), 1)) is None:
                        break
                    d2.evolve([fb, ql], 0., 1e-13, m)
                    ctx.check('resized', all(np.array_equal(
                        getattr(b2, q), getattr(d2, q)) for q in
                        ('x', 'y', 'xi', 'px', 'py', 'pz')), n2=n2, pusher=m)
            ctx.nontrivial([i, n, nr, nx])


def w_track(ctx):
    """Whole elements with escaping particles."""
    for i, rng in ctx.cases(ctx.n(8, 80)):
        model = 'cold_fluid_1d'
        n_p, sd, k = wf.grid(rng, model)
        with ctx.case(n_p=n_p, **k):
            a = hostile(rng, k, 200, nan=False)
            a['px'] = 50 * rng.standard_normal(200)
            a['pz'] = np.abs(a['pz']) * rng.choice([1e-2, 1.], 200)
            ctx.event('hostile_particles', 200)
            las = wf.laser(rng, n_p, k) if rng.random() < .5 else None
            st = wf.stage(model, n_p, k, las, length=2e-3, dz_fields=5e-4,
                          dt_bunch=2e-4 / ct.c, n_out=2,
                          bunch_pusher=('rk4', 'boris')[i % 2])
            guard(ctx, 'track', lambda: st.track(
                make_bunch(a), show_progress_bar=False))
            ctx.nontrivial([i])


B = {'boundscheck': True}
SHARDS = {'quasistatic_2d': (w_rz('quasistatic_2d'), B),
          'cold_fluid_1d': (w_rz('cold_fluid_1d'), B),
          'kernels': (w_kernels, B), 'track': (w_track, B),
          'kernels_mt': (w_kernels, dict(B, threads=4))}
