"""P29: a field element does the same as the chain of its pieces."""
import numpy as np
import scipy.constants as ct
import wf
from common import W, imp, bunch_arrays, make_bunch, state, COMP

PROPERTY = 'P29'
RULE = ('Random field elements (quadrupole, plasma lens with and without '
        'wakefield, ion channel, ramps, cold-fluid and quasi-static stages '
        'with beam and/or laser) are tracked whole and as 2-4 consecutive '
        'pieces that cover the same density and field profiles, as a '
        'beamline or one after the other, with several bunches of different '
        'time steps, injection positions inside the element, previous '
        'propagation and outputs. All recorded snapshots, the bunches and '
        'the laser at the exit are compared. Non-trivial: the bunch changed '
        'its momentum; distinct by configuration.')
ASSUMPTIONS = [
    'Time steps and field periods divide the pieces (otherwise the '
    'discretisation differs); lengths are powers of two times the period, '
    'so that the comparison is free of rounding decisions.',
    'The simple and custom blowout models are defined from the entrance of '
    'their own element (dephasing) and are not cut.']
MIN_EVENTS = {'monitor:exit': 30, 'monitor:snapshot': 60,
              'monitor:placed': 30, 'monitor:laser': 3,
              'monitor:fields': 4, 'injected_inside': 5,
              'monitor:auto': 4, 'kind:quad': 3, 'kind:lens': 3,
              'kind:ion': 3, 'kind:fluid': 3, 'kind:qs': 3}
BUDGET = {'quick': 120., 'thorough': 1500.}


def pieces(rng):
    """Lengths in units of L/8."""
    opts = [(4, 4), (4, 2, 2), (2, 2, 4), (2, 4, 2), (2, 2, 2, 2),
            (4, 2, 1, 1)]
    return opts[int(rng.integers(len(opts)))]


def profile(rng, n, L):
    a, k, ph = rng.uniform(-.6, .6), rng.uniform(.5, 2), rng.uniform(0, 6)

    def f(z):
        return n * (1 + a * np.sin(k * 2 * np.pi * np.asarray(z) / L + ph)
                    * .7) * np.ones_like(z)
    return f


def shifted(f, z0):
    return lambda z: f(np.asarray(z) + z0)


class Ext:
    """External field fixed in the laboratory: depends on z = c t + z0."""
    def __init__(self, g, L):
        self.g, self.L = g, L

    def __call__(self, z0):
        AF = imp('wake_t.fields.analytical_field', 'AnalyticalField')
        c = ct.c

        def ex(x, y, xi, t, e, k):
            for i in range(x.shape[0]):
                e[i] += k[0] * (1 + .5 * np.sin(
                    6.28 * (c * t + k[1]) / k[2])) * (x[i] + .3 * y[i])
        return AF(e_x=ex, constants=[self.g * c, z0, self.L])


def build(cfg, kind, L, n_out, z0, las):
    d = cfg['dens']
    kw = dict(cfg['kw'])
    common = dict(dt_bunch=list(cfg['dt']) if len(cfg['dt']) > 1
                  else cfg['dt'][0], bunch_pusher=cfg['pusher'], n_out=n_out)
    if cfg['auto']:
        common['dt_bunch'] = 'auto'
    if kind == 'quad':
        return imp('wake_t', 'Quadrupole') if False else imp(
            'wake_t.beamline_elements.field_quadrupole', 'FieldQuadrupole')(
            L, cfg['g'], **common)
    if kind == 'lens':
        if cfg['wake']:
            return imp('wake_t', 'ActivePlasmaLens')(
                L, cfg['g'], wakefields=True, density=shifted(d, z0),
                wakefield_model='cold_fluid_1d', **common, **kw)
        return imp('wake_t', 'ActivePlasmaLens')(L, cfg['g'], **common)
    model = dict(ion='focusing_blowout', fluid='cold_fluid_1d',
                 qs='quasistatic_2d')[kind]
    if las is not None:
        kw['laser'] = las
    ext = [cfg['ext'](z0)] if cfg['ext'] is not None else []
    return imp('wake_t', 'PlasmaStage')(
        L, shifted(d, z0), model, external_fields=ext, **common, **kw)


def gen(rng, kind, auto=False):
    n = float(10**rng.uniform(22, 23.7))
    cfg = dict(pusher=('boris', 'rk4')[int(rng.integers(2))], auto=auto,
               wake=bool(rng.random() < .5), ext=None, las=None, kw={})
    unit = 2.**-int(rng.integers(12, 15))       # 1/4096 .. 1/16384 m
    L = 8 * unit
    if kind in ('quad', 'lens'):
        cfg['g'] = float(rng.uniform(-2000, 2000))
    cfg['dens'] = profile(rng, n, L)
    if rng.random() < .4 and kind in ('ion', 'fluid', 'qs'):
        cfg['ext'] = Ext(float(rng.uniform(-500, 500)), L)
    sd = wf.skin_depth(n)
    if kind in ('fluid', 'qs') or kind == 'lens' and cfg['wake']:
        cfg['kw'] = dict(
            xi_max=3 * sd, xi_min=-7 * sd, r_max=6 * sd,
            n_xi=int(rng.integers(30, 60)), n_r=int(rng.integers(16, 30)),
            dz_fields=unit / int(rng.choice([1, 2])))
        if kind == 'qs':
            # (one particle per cell would sit exactly on the grid nodes,
            # where the fields have a step: decided by rounding)
            cfg['kw']['ppc'] = 2
            cfg['kw']['plasma_pusher'] = ('rk4', 'ab5')[int(rng.integers(2))]
        else:
            cfg['kw']['beam_wakefields'] = True
        if kind != 'lens' and rng.random() < .5:
            cfg['las'] = dict(
                xi_c=0., a_0=float(rng.uniform(.2, 1.)), w_0=1.5 * sd,
                tau=float(sd / ct.c), z_foc=float(rng.uniform(-1, 1) * L))
            cfg['kw']['laser_envelope_substeps'] = int(rng.choice([1, 2]))
            if rng.random() < .4:
                cfg['kw']['laser_envelope_nxi'] = int(rng.integers(40, 90))
    bs = []
    nb = 1 if auto else int(rng.integers(1, 3))
    for j in range(nb):
        a = bunch_arrays(
            rng, int(rng.integers(5, 60)), size=.15 * sd,
            xi_c=(-.5 - 2.5 * j) * sd, sxi=.2 * sd,
            pz=float(10**rng.uniform(1.5, 3.5)), div=2e-3, spread=.02,
            q=float(rng.uniform(.01, .15) * n * sd**3 * ct.e))
        kw = dict(name=f'b{j}', prop_distance=float(
            rng.choice([0., rng.uniform(0, 3)])))
        if rng.random() < .2:
            kw.update(q_species=ct.e)
        if rng.random() < .35 and not auto:
            # the head passes the injection position inside the element
            kw['z_injection'] = kw['prop_distance'] + float(
                rng.uniform(.1, .95)) * L + a['xi'].max()
        bs.append((a, kw))
    cfg['dt'] = [unit / ct.c / int(rng.choice([2, 4, 8])) for _ in bs]
    return cfg, n, unit, bs


def as_lists(out, nb):
    return out if nb > 1 else [out]


def run(cfg, kind, unit, bs, parts, out_per_unit, how, rng):
    nb = len(bs)
    B = [make_bunch(a, **kw) for a, kw in bs]
    las = imp('wake_t', 'GaussianPulse')(**cfg['las']) if cfg['las'] else None
    els, z0 = [], 0.
    for m in parts:
        els.append(build(cfg, kind, m * unit, max(1, int(m * out_per_unit)),
                         z0, las))
        z0 += m * unit
    arg = B if nb > 1 else B[0]
    snaps = [[] for _ in B]
    if how == 'beamline' and nb == 1:
        o = imp('wake_t', 'Beamline')(els).track(arg, show_progress_bar=False)
        snaps[0] = list(o)
    else:
        for e in els:
            for j, o in enumerate(as_lists(
                    e.track(arg, show_progress_bar=False), nb)):
                snaps[j] += list(o)
    return B, snaps, las, els[-1]


def cmp(ctx, name, b1, b2, s0, tol, **wit):
    s1, s2 = state(b1), state(b2)
    if not (np.all(np.isfinite(s1)) and np.all(np.isfinite(s2))):
        ctx.check(name, np.array_equal(np.isfinite(s1), np.isfinite(s2)),
                  **wit)
        return
    for i, c in enumerate(COMP):
        sc = max(np.std(s0[i]), np.max(np.abs(s2[i] - s0[i])))
        if c[0] == 'p':
            sc = max(sc, 1e-3 * np.mean(np.abs(s0[5])))
        d = np.max(np.abs(s1[i] - s2[i]))
        ctx.close(name, d, tol * sc + 1e-12 * np.max(np.abs(s2[i])),
                  coord=c, **wit)


def w(kind, nq, nt):
    def f(ctx):
        for i, rng in ctx.cases(ctx.n(nq, nt)):
            auto = kind in ('quad', 'lens', 'ion') and i % 4 == 3
            cfg, n, unit, bs = gen(rng, kind, auto)
            if auto:
                cfg['wake'] = False
                cfg['kw'] = {}
            parts = pieces(rng)
            out = float(rng.choice([.125, .25, .5, 1.]))
            out = max(out, 1. / min(parts)) if out > .125 else out
            how = ('beamline', 'sequence')[int(rng.integers(2))]
            with ctx.case(kind=kind, auto=auto, n=n, unit=unit, parts=parts,
                          out=out, how=how, pusher=cfg['pusher'],
                          kw={k: v for k, v in cfg['kw'].items()},
                          las=cfg['las'], nb=len(bs), dt=cfg['dt'],
                          meta=[k for _, k in bs]):
                A, sA, lA, eA = run(cfg, kind, unit, bs, (8,), out, how, rng)
                C, sC, lC, eC = run(cfg, kind, unit, bs, parts, out, how, rng)
                ctx.event('kind:' + kind)
                tol = 1e-6
                if auto:
                    # pieces end (shortened) adaptive steps at other places
                    tol = .02 if cfg['pusher'] == 'boris' else 2e-3
                    for a, c, (d, _) in zip(A, C, bs):
                        cmp(ctx, 'auto', c, a, np.array(
                            [d[k] for k in COMP]), tol)
                        ctx.close('placed', abs(
                            a.prop_distance - c.prop_distance), 1e-12)
                    ctx.nontrivial([kind, 'auto', unit, n])
                    continue
                moved = False
                for j, (a, c, (d, kw)) in enumerate(zip(A, C, bs)):
                    s0 = np.array([d[k] for k in COMP])
                    moved |= bool(np.any(a.px != d['px']))
                    if 'z_injection' in kw:
                        ctx.event('injected_inside')
                    cmp(ctx, 'exit', c, a, s0, tol, bunch=j)
                    ctx.close('placed', max(
                        abs(a.prop_distance - c.prop_distance),
                        abs(a.prop_distance - kw['prop_distance']
                            - 8 * unit)), 1e-12 * (1 + abs(
                                kw['prop_distance'])))
                    # outputs at the same places
                    zA = [b.prop_distance - kw['prop_distance']
                          for b in sA[j]]
                    for b in sC[j]:
                        z = b.prop_distance - kw['prop_distance']
                        q = int(np.argmin([abs(z - y) for y in zA]))
                        if abs(z - zA[q]) < 1e-9:
                            cmp(ctx, 'snapshot', b, sA[j][q], s0, tol,
                                bunch=j, z=z)
                if cfg['las']:
                    a, c = lA.get_envelope(), lC.get_envelope()
                    ctx.close('laser', np.max(np.abs(a - c)),
                              1e-6 * np.max(np.abs(a)))
                    # with a laser the fields are updated at the exit
                    fa, fc = eA.fields[0], eC.fields[0]
                    for k in ('e_z', 'e_r', 'b_t'):
                        u, v = getattr(fa, k), getattr(fc, k)
                        ctx.close('fields', np.max(np.abs(u - v)), 1e-5
                                  * max(np.max(np.abs(u)), 1e-300), fld=k)
                if moved:
                    ctx.nontrivial([kind, unit, n])
    return f


SHARDS = {'quad': w('quad', 16, 400), 'lens': w('lens', 16, 300),
          'ion': w('ion', 20, 500), 'fluid': w('fluid', 14, 250),
          'qs': w('qs', 10, 160), 'qs2': w('qs', 8, 160)}
