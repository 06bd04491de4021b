"""P18: the laser pulse is carried exactly once through the beamline."""
import numpy as np
import scipy.constants as ct
import lasref
from common import W, imp, bunch_arrays, make_bunch

PROPERTY = 'P18'
RULE = ('Beamlines of 1-3 plasma stages/ramps that share a laser pulse, with '
        'random lengths, update periods that do not divide the length, '
        'substeps, subgrids, evolution switched on/off, density profiles and '
        'bunches. A recorder logs every evolution of the real pulse with its '
        'inputs; an offline checker replays the log with an independent '
        'envelope solver and checks that the evolved time adds up to the '
        'transit time, that density and susceptibility are those of the '
        'plasma at that position, and that the envelope is continuous across '
        'elements. Non-trivial: at least one evolution; distinct by '
        'configuration.')
ASSUMPTIONS = ['Envelope equation as in P16; profile as in P17.']
MIN_EVENTS = {'monitor:replay': 30, 'monitor:transit': 10,
              'monitor:density': 30, 'monitor:entrance': 10,
              'monitor:split': 3, 'monitor:frozen': 3,
              'monitor:grid_change_refused': 10, 'monitor:focus': 2,
              'subgrid': 3, 'substeps': 3}
BUDGET = {'quick': 140., 'thorough': 1500.}


def regrid(a, z0, z1, R, mz, mr):
    nz, nr = a.shape
    if (nz, nr) == (mz, mr):
        return a.copy()
    zi = np.linspace(0, nz - 1, mz)
    ri = (np.arange(mr) + .5) * nr / mr - .5
    i0 = np.clip((zi + 1e-12).astype(int), 0, nz - 2)
    j0 = np.clip(np.floor(ri + 1e-12).astype(int), 0, nr - 2)
    u, v = (zi - i0)[:, None], (ri - j0)[None, :]
    return ((1 - u) * (1 - v) * a[np.ix_(i0, j0)]
            + u * (1 - v) * a[np.ix_(i0 + 1, j0)]
            + (1 - u) * v * a[np.ix_(i0, j0 + 1)]
            + u * v * a[np.ix_(i0 + 1, j0 + 1)])


def gen(rng, n_st, low=False):
    sd_p = float(10**rng.uniform(22, 24))
    B = dict(xi_min=-float(rng.uniform(4, 8)) * 1e-5,
             xi_max=float(rng.uniform(2, 4)) * 1e-5,
             r_max=float(rng.uniform(6, 10)) * 1e-5,
             n_xi=int(rng.integers(24, 50)), n_r=int(rng.integers(16, 40)))
    las = dict(xi_c=0., a_0=float(rng.uniform(.05, 1.2)),
               w_0=float(rng.uniform(2e-5, 3e-5)),
               tau=float(rng.uniform(2e-14, 4e-14)),
               z_foc=float(rng.uniform(-1, 1) * 5e-4),
               polarization=('linear', 'circular')[int(rng.integers(2))])
    sub = {}
    if rng.random() < .4:
        sub['laser_envelope_nxi'] = int(rng.integers(20, 70))
    if rng.random() < .4:
        sub['laser_envelope_nr'] = int(rng.integers(14, 50))
    use_phase = bool(rng.random() < .7)
    sts = []
    for j in range(n_st):
        L = float(rng.uniform(1e-4, 1.5e-3))
        sts.append(dict(
            length=L, dz=float(L / rng.uniform(.6, 6)),
            sub=int(rng.choice([1, 1, 2, 3])),
            evolve=bool(rng.random() < .85),
            n=sd_p, prof=float(rng.uniform(-.5, .5)) * (rng.random() < .6),
            n_out=int(rng.integers(1, 4)),
            ramp=bool(rng.random() < .3)))
    if n_st > 1 and rng.random() < .5:
        # equal elements that differ only in the number of sub-steps
        for s in sts[1:]:
            s['length'], s['dz'] = sts[0]['length'], sts[0]['dz']
            s['sub'] = int(rng.choice([1, 2, 4]))
            s['evolve'] = sts[0]['evolve'] = True
    return B, las, sub, use_phase, sts


def element(model, B, las, sub, use_phase, s):
    kw = dict(B, laser=las, laser_evolution=s['evolve'],
              laser_envelope_substeps=s['sub'],
              laser_envelope_use_phase=use_phase, dz_fields=s['dz'], **sub)
    if model == 'quasistatic_2d':
        kw['ppc'] = 1
    dens = s['n']
    if s['prof']:
        dens = (lambda z, n=s['n'], p=s['prof'], L=s['length']:
                n * (1 + p * np.sin(3 * z / L)))
    if s['ramp']:
        def profile(z, decay_length, density_top, density_down,
                    position_down, n=s['n'], L=s['length']):
            return n * (1 + .3 * z / L)
        s['dens'] = lambda z, n=s['n'], L=s['length']: n * (
            1 + .3 * (L - z) / L)
        return imp('wake_t', 'PlasmaRamp')(
            s['length'], profile, 'upramp', model, n_out=s['n_out'],
            dt_bunch=s['length'] / 5 / ct.c, **kw)
    s['dens'] = dens if callable(dens) else (lambda z, n=s['n']: n)
    return imp('wake_t', 'PlasmaStage')(
        s['length'], dens, model, n_out=s['n_out'],
        dt_bunch=s['length'] / 5 / ct.c, **kw)


def w_history(model):
    def w(ctx):
        GP = imp('wake_t', 'GaussianPulse')
        for i, rng in ctx.cases(ctx.n(22, 250)):
            B, lp, sub, up, sts = gen(rng, int(rng.integers(1, 4)))
            if i % 5 == 4:
                sts[-1]['evolve'] = False
            with ctx.case(model=model, B=B, las=lp, sub=sub, use_phase=up,
                          stages=[dict(s) for s in sts]):
                las = GP(**lp)
                log = []
                real = las.evolve
                els = []
                cur = {}

                def rec(chi, n_p):
                    f = els[cur['i']].fields[0]
                    log.append(dict(
                        el=cur['i'], chi=np.array(chi), n_p=float(n_p),
                        fchi=f.chi[2:-2, 2:-2].copy()))
                    real(chi, n_p)
                    log[-1]['env'] = las.get_envelope().copy()
                las.evolve = rec
                for s in sts:
                    els.append(element(model, B, las, sub, up, s))
                bs = []
                if rng.random() < .5:
                    bs = [make_bunch(bunch_arrays(
                        rng, 50, size=1e-6, xi_c=-3e-5, sxi=3e-6, q=1e-12),
                        name='b')]
                nz = sub.get('laser_envelope_nxi', B['n_xi'])
                nr = sub.get('laser_envelope_nr', B['n_r'])
                Z, R = np.meshgrid(
                    np.linspace(B['xi_min'], B['xi_max'], nz),
                    (np.arange(nr) + .5) * B['r_max'] / nr, indexing='ij')
                ref = lasref.Ref(GP(**lp).envelope_function(Z, R, 0.),
                                 .8e-6, B['r_max'], B['xi_min'], B['xi_max'])
                box = (B['xi_min'], B['xi_max'], B['r_max'])
                last_dt = None
                for j, (el, s) in enumerate(zip(els, sts)):
                    cur['i'] = j
                    n0 = len(log)
                    el.track(bs, show_progress_bar=False)
                    mine = log[n0:]
                    m = int(np.ceil(s['length'] / s['dz'] * (1 - 1e-12)))
                    dt = s['length'] / m / ct.c
                    if not s['evolve']:
                        ctx.check('frozen', len(mine) == 0 and np.array_equal(
                            las.get_envelope(), regrid(
                                ref.a[:nz], *box, B['n_xi'], B['n_r']))
                            or np.allclose(las.get_envelope(), regrid(
                                ref.a[:nz], *box, B['n_xi'], B['n_r']),
                                rtol=1e-6, atol=1e-8 * lp['a_0']))
                        # the time step of this element is also set
                        if ref.steps > 0 and last_dt is not None and abs(
                                dt / s['sub'] / last_dt - 1) > 1e-9:
                            ref.steps = 0
                        last_dt = dt / s['sub']
                        continue
                    ctx.check('transit', len(mine) == m, got=len(mine),
                              want=m)
                    if last_dt is not None and dt / s['sub'] != last_dt:
                        ref.steps = 0
                    last_dt = dt / s['sub']
                    for q, ev in enumerate(mine):
                        z = q * dt * ct.c
                        want = s['dens'](z)
                        ctx.close('density', abs(ev['n_p'] / want - 1), 1e-9,
                                  step=q, z=z)
                        ctx.check('susceptibility', np.array_equal(
                            ev['chi'], ev['fchi']))
                        if q == 0:
                            ctx.check('entrance', ev['chi'].shape == (
                                B['n_xi'], B['n_r']) and np.all(
                                np.isfinite(ev['chi'])))
                        c = regrid(ev['chi'], *box, nz, nr)
                        a = ref.evolve(c, ev['n_p'], dt, s['sub'], up)
                        a = regrid(a, *box, B['n_xi'], B['n_r'])
                        ctx.close('replay', np.max(np.abs(
                            ev['env'] - a)), 1e-6 * lp['a_0'], el=j, step=q)
                    if sub:
                        ctx.event('subgrid')
                    if s['sub'] > 1:
                        ctx.event('substeps')
                if log:
                    ctx.nontrivial([model, lp['w_0']])
                # any change of the laser grid after the fact is refused
                k = ('xi_min', 'xi_max', 'r_max', 'n_xi', 'n_r')[
                    int(rng.integers(5))]
                B2 = dict(B)
                B2[k] = B[k] + 7 if k[0] == 'n' else B[k] * 1.13
                sub2 = dict(sub)
                if k == 'n_xi':
                    sub2.pop('laser_envelope_nxi', None)
                    B2[k] = nz + 7
                if k == 'n_r':
                    sub2.pop('laser_envelope_nr', None)
                    B2[k] = nr + 7
                try:
                    element(model, B2, las, sub2, up, dict(
                        sts[0], ramp=False)).track([],
                                                   show_progress_bar=False)
                    ctx.check('grid_change_refused', False, changed=k)
                except ValueError:
                    ctx.check('grid_change_refused', True)
    return w


def w_split(ctx):
    """Cutting an element in two changes nothing; propagation in tenuous
    plasma focuses the pulse where it should be at the exit."""
    GP = imp('wake_t', 'GaussianPulse')
    model = 'cold_fluid_1d'
    for i, rng in ctx.cases(ctx.n(14, 150)):
        B, lp, sub, up, _ = gen(rng, 1)
        n = float(10**rng.uniform(22, 24))
        dz = float(rng.uniform(5e-5, 2e-4))
        m1, m2 = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        st = int(rng.choice([1, 2]))
        with ctx.case(B=B, las=lp, sub=sub, n=n, dz=dz, m=[m1, m2], st=st):
            base = dict(sub=st, evolve=True, n=n, prof=0., n_out=1,
                        ramp=False, dz=dz)
            A = GP(**lp)
            element(model, B, A, sub, up, dict(
                base, length=dz * (m1 + m2))).track(
                [], show_progress_bar=False)
            C = GP(**lp)
            BL = imp('wake_t', 'Beamline')([
                element(model, B, C, sub, up, dict(base, length=dz * m))
                for m in (m1, m2)])
            BL.track([], show_progress_bar=False)
            a, c = A.get_envelope(), C.get_envelope()
            # a restarted (non-centred) step may be taken if rounding changes
            # the time step
            # (at most one restarted, first-order step)
            ctx.close('split', np.max(np.abs(a - c)), .1 * np.max(np.abs(a)))
            ctx.nontrivial(['split', dz])
    for i, rng in ctx.cases(ctx.n(6, 60)):
        w0 = float(rng.uniform(1.5e-5, 2.5e-5))
        zr = np.pi * w0**2 / .8e-6
        zf = float(rng.uniform(-.3, 1.) * zr)
        L = float(rng.uniform(.4, 1.2) * zr)
        dz = float(L / rng.uniform(20.5, 40))
        with ctx.case(w0=w0, zf=zf, L=L, dz=dz):
            P = GP(xi_c=0., a_0=.01, w_0=w0, tau=3e-14, z_foc=zf)
            B = dict(xi_min=-4e-5, xi_max=2.5e-5, r_max=6 * w0, n_xi=50,
                     n_r=130)
            els = []
            cut = rng.uniform(.2, .8)
            for ll in (L * cut, L * (1 - cut)):
                els.append(element(model, B, P, {}, True, dict(
                    length=ll, dz=dz, sub=1, evolve=True, n=1e18, prof=0.,
                    n_out=1, ramp=False)))
            imp('wake_t', 'Beamline')(els).track([], show_progress_bar=False)
            b = P.get_envelope()
            r = (np.arange(130) + .5) * 6 * w0 / 130
            j = np.argmax(np.abs(b[:, 0]))
            w = np.sqrt(2 * np.sum(np.abs(b[j])**2 * r**3)
                        / np.sum(np.abs(b[j])**2 * r))
            want = w0 * np.sqrt(1 + ((L - zf) / zr)**2)
            ctx.close('focus', abs(w / want - 1), .02, w=w, want=want)


SHARDS = {'fluid': w_history('cold_fluid_1d'),
          'quasistatic': w_history('quasistatic_2d'), 'split': w_split}
