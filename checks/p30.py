"""P30: a request is honoured as documented or refused with an error."""
import os
import numpy as np
import scipy.constants as ct
import wf
from common import W, imp, bunch_arrays, make_bunch, state, COMP

PROPERTY = 'P30'
RULE = ('For every option with a documented set of values (bunch pusher, '
        'wakefield model, plasma pusher, particle shape, ramp profile and '
        'type, laser polarization, transfer matrix order, bunch matrix type, '
        'time step, density and parabolic coefficient types, envelope '
        'substeps, openPMD species names, file formats and species) values '
        'outside of the set are generated (misspelt, other case, padded, '
        'truncated, other types) in random surrounding configurations with '
        'one or more bunches; next to each of them the same configuration '
        'with each allowed value. Observed: whether the request ends in an '
        'exception, and all arrays and attributes of the bunches before and '
        'after. Non-trivial: a wrong value that is close to an allowed one; '
        'distinct by option and value.')
ASSUMPTIONS = ['The type of the exception and its text are not judged.']
MIN_EVENTS = {'monitor:refused': 80, 'monitor:untouched': 60,
              'monitor:accepted': 60, 'monitor:none_is_auto': 4}
BUDGET = {'quick': 150., 'thorough': 900.}


def wrong(rng, allowed, extra=()):
    """A value outside of the allowed ones."""
    strs = [a for a in allowed if isinstance(a, str)]
    while True:
        k = int(rng.integers(8))
        v = None
        if strs and k < 6:
            s = strs[int(rng.integers(len(strs)))]
            i = int(rng.integers(len(s)))
            v = [s.upper(), s.capitalize(), s + ' ', s[:-1],
                 s[:i] + s[i + 1:], s + s[-1]][k]
        elif len(extra):
            v = extra[int(rng.integers(len(extra)))]
        else:
            v = 'none'
        if v not in allowed:
            return v


def snap(b):
    d = {k: v.tobytes() if isinstance(v, np.ndarray) else v
         for k, v in vars(b).items()
         if isinstance(v, (np.ndarray, float, int, str, type(None)))}
    # scratch arrays are no state of the bunch
    for k in list(d):
        if k not in list(COMP) + ['w', 'tags', 'prop_distance', 't_flight', 'name',
                            'z_injection', 'q_species', 'm_species', 'x_ref',
                            'theta_ref', 'tags']:
            d.pop(k)
    return d


def attempt(f):
    try:
        f()
        return None
    except Exception as e:     # any exception counts as a refusal
        return e


class Hang(Exception):
    pass


def guarded(b):
    """Bunch that ends a tracking that would never end."""
    cls = type(b)

    class G(cls):
        n_push = 0

        def evolve(self, fields, t, dt, *a, **k):
            self.n_push += 1
            if not np.isfinite(dt) or self.n_push > 20000:
                raise Hang(f'push {self.n_push} with step {dt}')
            return super().evolve(fields, t, dt, *a, **k)
    b.__class__ = G
    return b


def bunches(rng, nb=None, size=1e-6):
    nb = int(rng.integers(1, 3)) if nb is None else nb
    return [guarded(make_bunch(bunch_arrays(
        rng, int(rng.integers(3, 20)), size=size, xi_c=-j * 1e-5, sxi=2e-6,
        pz=float(10**rng.uniform(2, 4)), div=1e-3, spread=.01,
        q=float(rng.uniform(1e-13, 3e-12))), name=f'b{j}'))
        for j in range(nb)]


def one(B):
    return B[0] if len(B) == 1 else B


def trk(el, B, **kw):
    return el.track(one(B), show_progress_bar=False, **kw)


def grid(rng, n):
    sd = wf.skin_depth(n)
    return dict(xi_max=2 * sd, xi_min=-4 * sd, r_max=5 * sd,
                n_xi=int(rng.integers(20, 34)), n_r=int(rng.integers(12, 20)))


# every option: (name, allowed values, other wrong values,
#                f(rng, value, B) -> tracks/constructs)
def field_el(rng):
    k = int(rng.integers(3))
    L = float(10**rng.uniform(-4, -2))
    if k == 0:
        return lambda **kw: imp('wake_t.beamline_elements.field_quadrupole',
                                'FieldQuadrupole')(L, 100., **kw)
    if k == 1:
        return lambda **kw: imp('wake_t', 'ActivePlasmaLens')(L, 500., **kw)
    return lambda **kw: imp('wake_t', 'PlasmaStage')(
        L, 1e22, 'focusing_blowout', **kw)


def o_bunch_pusher(rng):
    mk = field_el(rng)
    return lambda v, B: trk(mk(bunch_pusher=v), B)


def o_wakefield(rng):
    n = float(10**rng.uniform(22, 23.5))
    g = grid(rng, n)
    P = dict(simple_blowout=dict(laser=imp('wake_t', 'GaussianPulse')(
        1e-5, a_0=2., w_0=2e-5, tau=1e-14)), focusing_blowout={}, quasistatic_2d=dict(g, ppc=1),
             cold_fluid_1d=dict(g, beam_wakefields=True))
    ramp = rng.random() < .3

    def f(v, B):
        kw = P.get(v, {}) if isinstance(v, str) or v is None else {}
        if ramp:
            trk(imp('wake_t', 'PlasmaRamp')(
                1e-4, plasma_dens_top=n, plasma_dens_down=n / 4,
                wakefield_model=v, **kw), B)
        else:
            trk(imp('wake_t', 'PlasmaStage')(1e-4, n, v, **kw), B)
    return f


def qs(rng, key):
    n = float(10**rng.uniform(22, 23.5))
    g = grid(rng, n)
    las = rng.random() < .5
    ext = rng.random() < .3

    def f(v, B):
        kw = dict(g, ppc=1)
        if las:
            kw['laser'] = imp('wake_t', 'GaussianPulse')(
                0., a_0=.3, w_0=2 * wf.skin_depth(n), tau=1e-14)
        kw[key] = v
        if ext:
            kw['external_fields'] = []
        el = imp('wake_t', 'PlasmaStage')(1e-4, n, 'quasistatic_2d', **kw)
        # also without any bunch, when only the laser drives the plasma
        if las and not B:
            el.track([], show_progress_bar=False)
        else:
            trk(el, B)
    return f


def o_plasma_pusher(rng):
    return qs(rng, 'plasma_pusher')


def o_p_shape(rng):
    if rng.random() < .3:
        n = float(10**rng.uniform(22, 23.5))
        g = grid(rng, n)
        return lambda v, B: trk(imp('wake_t', 'PlasmaStage')(
            1e-4, n, 'cold_fluid_1d', p_shape=v, beam_wakefields=True, **g),
            B)
    return qs(rng, 'p_shape')


def o_parabolic(rng):
    return qs(rng, 'parabolic_coefficient')


def o_substeps(rng):
    f = qs(rng, 'laser_envelope_substeps')
    n = 1e23
    g = grid(rng, n)

    def h(v, B):
        trk(imp('wake_t', 'PlasmaStage')(
            1e-4, n, str(rng.choice(['quasistatic_2d', 'cold_fluid_1d'])),
            laser_envelope_substeps=v, laser=imp('wake_t', 'GaussianPulse')(
                0., a_0=.3, w_0=3e-5, tau=1e-14), **g), B)
    return h


def o_density(rng):
    if rng.random() < .3:
        g = grid(rng, 1e23)
        return lambda v, B: trk(imp('wake_t', 'ActivePlasmaLens')(
            1e-4, 100., wakefields=True, density=v,
            wakefield_model='cold_fluid_1d', **g), B)
    return lambda v, B: trk(imp('wake_t', 'PlasmaStage')(
        1e-4, v, 'focusing_blowout'), B)


def o_ramp_profile(rng):
    t = str(rng.choice(['upramp', 'downramp']))
    return lambda v, B: trk(imp('wake_t', 'PlasmaRamp')(
        1e-3, profile=v, ramp_type=t, plasma_dens_top=1e23,
        plasma_dens_down=1e22), B)


def o_ramp_type(rng):
    p = str(rng.choice(['inverse_square', 'gaussian', 'exponential']))
    return lambda v, B: trk(imp('wake_t', 'PlasmaRamp')(
        1e-3, profile=p, ramp_type=v, plasma_dens_top=1e23,
        plasma_dens_down=1e22), B)


def o_polarization(rng):
    k = int(rng.integers(3))

    def f(v, B):
        a = dict(a_0=.5, w_0=2e-5, tau=2e-14, polarization=v)
        if k == 0:
            p = imp('wake_t', 'GaussianPulse')(0., **a)
        elif k == 1:
            p = imp('wake_t', 'LaguerreGaussPulse')(0., p=1, **a)
        else:
            p = imp('wake_t', 'FlattenedGaussianPulse')(0., N=3, **a)
        imp('wake_t', 'PlasmaStage')(
            1e-4, 1e23, 'cold_fluid_1d', laser=p, **grid(rng, 1e23)).track(
            one(B), show_progress_bar=False)
    return f


def o_sum(rng):
    """Pulses that cannot be added (value: what the second one has)."""
    def f(v, B):
        GP = imp('wake_t', 'GaussianPulse')
        a = dict(a_0=.5, w_0=2e-5, tau=2e-14)
        p = GP(0., l_0=.8e-6, **a) + GP(0., l_0=v[0], polarization=v[1], **a)
        imp('wake_t', 'PlasmaStage')(
            1e-4, 1e23, 'cold_fluid_1d', laser=p, **grid(rng, 1e23)).track(
            one(B), show_progress_bar=False)
    return f


def o_order(rng):
    k = int(rng.integers(4))

    def f(v, B):
        E = [lambda: W.Drift(.2, order=v), lambda: W.Quadrupole(
            .2, 2., order=v), lambda: W.Dipole(.2, .1, order=v),
            lambda: W.Sextupole(.2, 10., order=v)][k]
        E().track(B[0], show_progress_bar=False)
    return f


def o_matrix(rng):
    m = rng.normal(0, 1e-5, (6, 5))

    def f(v, B):
        b = imp('wake_t', 'ParticleBunch')(
            w=np.ones(5), bunch_matrix=m.copy(), matrix_type=v,
            gamma_ref=100.)
        if not np.all(np.isfinite(state(b))):
            raise AssertionError('no coordinates')
    return f


def o_dt(rng):
    mk = field_el(rng)
    return lambda v, B: trk(mk(dt_bunch=v), B)


def o_dt_list(rng):
    mk = field_el(rng)

    def f(v, B):
        trk(mk(dt_bunch=[1e-13] * (len(B) + v)), B)
    return f


def o_names(rng):
    mk = field_el(rng)

    def f(v, B):
        B = bunches(rng, len(v))
        for b, n in zip(B, v):
            b.name = n
        trk(mk(dt_bunch=1e-12), B, opmd_diag=True,
            diag_dir=os.path.join(os.getcwd(), 'dup'))
    return f


def o_format(rng):
    b0 = bunches(rng, 1)[0]

    def f(v, B):
        ut = imp('wake_t.utilities.bunch_saving', 'save_bunch_to_file')
        p = os.path.join(os.getcwd(), 'file_' + str(v).strip() + (
            '.h5' if v == 'openpmd' else ''))
        ut(B[0], v, p, **({'species_name': 'b'} if v == 'openpmd' else {}))
    return f


ALWAYS = dict(
    bunch_pusher=(('boris', 'rk4'), ('euler', None, 3), o_bunch_pusher, 1),
    wakefield=((None, 'simple_blowout', 'focusing_blowout', 'cold_fluid_1d',
                'quasistatic_2d'), ('quasistatic', 2, 'qs2d', 1.), o_wakefield,
               1),
    ramp_profile=(('inverse_square', 'gaussian', 'exponential'),
                  ('linear', None, 2), o_ramp_profile, 1),
    ramp_type=(('upramp', 'downramp'), ('ramp', None, 'up', 'down', True),
               o_ramp_type, 1),
    polarization=(('linear', 'circular'), (None, 'x', 'elliptical', 0),
                  o_polarization, 1),
    order=((1, 2), (0, 3, -1, 1.5, 'second', None, '2'), o_order, 1),
    matrix=(('standard', 'alternative'), (None, 'other', 2), o_matrix, 0),
    dt=((1e-13, 'auto'), ('fast', '1 fs', 'full', [], {}), o_dt, 1),
    dt_list=((0,), (1, -1, 2, 5), o_dt_list, 1),
    names=((('a', 'b'), ('a', 'b', 'ab'), ('aa', 'a', 'aaa', 'b')),
           (('a', 'a'), ('a', 'b', 'a'), ('elec', 'elec', 'd'),
            ('a', 'b', 'b'), ('a', 'b', 'c', 'a'), ('d', 'b', 'c', 'b')),
           o_names, 1),
    density=((1e23,), ('1e23', None, [1e23], {'n': 1e23}, (1e23, 1e22)),
             o_density, 1),
    format=(('astra', 'csrtrack', 'openpmd'), ('hdf5', 'txt', None),
            o_format, 1),
    sum=(((.8e-6, 'linear'),), ((.4e-6, 'linear'), (.8e-6, 'circular'),
                                (1.6e-6, 'circular')), o_sum, 1),
)
SLOW = dict(
    plasma_pusher=(('rk4', 'ab5'), ('boris', 'ab2', None, 4),
                   o_plasma_pusher, 1),
    p_shape=(('linear', 'cubic'), ('quadratic', 'ngp', 'tsc'), o_p_shape, 1),
    parabolic=((0., 1e8), ('0', [0.], None), o_parabolic, 1),
    substeps=((1, 2), (0, -1, -3), o_substeps, 1),
)
NEEDS_BUNCH = ('order', 'format', 'dt', 'dt_list', 'bunch_pusher', 'names')
STR_ONLY = ('order', 'dt', 'dt_list', 'names', 'density', 'sum', 'parabolic',
            'substeps')


def w(table, nq, nt):
    def f(ctx):
        opts = sorted(table)
        for i, rng in ctx.cases(ctx.n(nq, nt)):
            opt = opts[i % len(opts)]
            allowed, extra, build, judge = table[opt]
            if opt in STR_ONLY:
                v = extra[int(rng.integers(len(extra)))]
            else:
                v = wrong(rng, allowed, extra)
            nb = None
            if opt in ('p_shape', 'plasma_pusher', 'substeps', 'parabolic') \
                    and rng.random() < .4:
                nb = 0
            if opt in ('order', 'format'):
                nb = 1
            if opt == 'names':
                nb = 2
            seed = int(rng.integers(2**31))
            with ctx.case(option=opt, value=v, nb=nb, seed=seed):
                def setup():
                    r = np.random.default_rng(seed)
                    B = bunches(r, nb)
                    return build(r), B
                fn, B = setup()
                if opt == 'p_shape' and nb == 0:
                    fn = qs(np.random.default_rng(seed), 'p_shape')
                s0 = [snap(b) for b in B]
                e = attempt(lambda: fn(v, B) if B or opt not in NEEDS_BUNCH
                            else None)
                ctx.check('refused', e is not None and not isinstance(
                    e, Hang), option=opt, value=repr(v), error=repr(e)[:200])
                if opt != 'names':
                    for b, s in zip(B, s0):
                        t = snap(b)
                        ctx.check('untouched', t == s, option=opt, changed=[
                            k for k in s if t.get(k) != s[k]])
                # the same with what is allowed
                for a in allowed:
                    fn, B = setup()
                    e = attempt(lambda: fn(a, B))
                    ctx.check('accepted', e is None, option=opt,
                              value=repr(a), error=repr(e)[:300])
                ctx.event('option:' + opt)
                ctx.nontrivial([opt, repr(v)])
    return f


def w_none(ctx):
    """A time step of `None` is documented as the adaptive step."""
    for i, rng in ctx.cases(ctx.n(8, 200)):
        seed = int(rng.integers(2**31))
        kind = i % 3
        L = float(10**rng.uniform(-4, -2))
        with ctx.case(seed=seed, kind=kind, L=L):
            res = []
            for dt in ('auto', None):
                B = bunches(np.random.default_rng(seed), 2 if i % 2 else 1)
                if i % 2:
                    dt = [1e-12, dt]
                if kind == 0:
                    el = imp('wake_t', 'ActivePlasmaLens')(
                        L, 500., dt_bunch=dt)
                elif kind == 1:
                    el = imp('wake_t', 'PlasmaRamp')(
                        L, plasma_dens_top=1e23, plasma_dens_down=1e22,
                        dt_bunch=dt)
                else:
                    el = imp('wake_t', 'PlasmaStage')(
                        L, 1e23, 'focusing_blowout', dt_bunch=dt)
                e = attempt(lambda: trk(el, B))
                res.append((e, [state(b) for b in B],
                            [b.n_push for b in B]))
            (e1, s1, n1), (e2, s2, n2) = res
            ctx.check('none_is_auto', e1 is None and e2 is None
                      and n1 == n2 and all(
                          np.array_equal(a, b) for a, b in zip(s1, s2)),
                      errors=[repr(e1), repr(e2)], pushes=[n1, n2])
            ctx.nontrivial([kind, L])


SHARDS = {'options': w(ALWAYS, 91, 1500), 'models': w(SLOW, 24, 300),
          'none': w_none}
