"""P19: elements see the prescribed plasma density at the right place."""
import numpy as np
import scipy.constants as ct
from common import W, imp, make_bunch, bunch_arrays, relerr
import wf

PROPERTY = 'P19'
RULE = ('Random ramps (all presets, both directions, given or derived decay '
        'lengths, default and explicit positions, user callables) and density '
        'callables. The density actually acting is read off the focusing '
        'field gathered at random times and positions, off the wakefield '
        'grids of both r-z models at every field update during tracking '
        '(compared with a uniform stage of that density), and off the calls '
        'that user callables receive. Non-trivial: density varies by >20 % '
        'along the element; distinct by element parameters.')
ASSUMPTIONS = []
MIN_EVENTS = {'monitor:preset': 60, 'monitor:end_points': 40,
              'monitor:callable_args': 10, 'monitor:local': 30,
              'monitor:update_density': 20, 'monitor:refused': 5}
BUDGET = {'quick': 200., 'thorough': 1500.}


def gen_ramp(rng):
    L = float(10**rng.uniform(-3.5, -1.5))
    top = float(10**rng.uniform(22, 24.5))
    p = dict(profile=('inverse_square', 'exponential', 'gaussian')[
                 int(rng.integers(3))],
             ramp_type=('upramp', 'downramp')[int(rng.integers(2))],
             plasma_dens_top=top)
    mode = int(rng.integers(3))
    if mode == 0:
        p['decay_length'] = float(L * rng.uniform(.2, 3))
    else:
        p['plasma_dens_down'] = top / float(rng.uniform(1.3, 200))
        if mode == 1:
            p['position_down'] = float(L * rng.uniform(.3, 2))
    return L, p


def want(L, p, z):
    d = L - z if p['ramp_type'] == 'upramp' else z
    top = p['plasma_dens_top']
    s = p.get('decay_length')
    if s is None:
        pos = p.get('position_down', L)
        R = top / p['plasma_dens_down']
        if p['profile'] == 'inverse_square':
            return top * (1 + (np.sqrt(R) - 1) * d / pos)**-2
        if p['profile'] == 'exponential':
            return top * R**(-d / pos)
        return top * R**(-(d / pos)**2)
    u = d / s
    if p['profile'] == 'inverse_square':
        return top / (1 + 2 * u + u * u)
    return top * np.exp(-u if p['profile'] == 'exponential' else -u * u / 2)


def acting(f, z, t=0.):
    """Density from the focusing of an ion channel: E_x = e n x/(2 eps0)."""
    n = len(z)
    x = np.full(n, 2e-6)
    o = [np.zeros(n) for _ in range(6)]
    f.gather(x, 0.5 * x, z - ct.c * t, t, *o)
    a = o[0] * 2 * ct.epsilon_0 / (ct.e * x)
    b = o[1] * 2 * ct.epsilon_0 / (ct.e * .5 * x)
    return a, b


def w_presets(ctx):
    for i, rng in ctx.cases(ctx.n(60, 400)):
        L, p = gen_ramp(rng)
        with ctx.case(L=L, **p):
            r = W.PlasmaRamp(L, **p, n_out=1)
            f = r.fields[0]
            z = np.concatenate([rng.uniform(0, L, 20), [0., L]])
            w = want(L, p, z)
            for t in (0., float(rng.uniform(0, L) / ct.c), L / ct.c):
                a, b = acting(f, z, t)
                # rounding of c t + xi near the ends of the ramp
                ctx.close('preset', relerr(a / w, np.ones_like(w)), 1e-9)
                ctx.close('preset', relerr(b / w, np.ones_like(w)), 1e-9)
            # documented meaning of the end points
            e = acting(f, np.array([L if p['ramp_type'] == 'upramp' else 0.]))
            ctx.close('end_points', abs(e[0][0] / p['plasma_dens_top'] - 1),
                      1e-10)
            if 'plasma_dens_down' in p:
                d = p.get('position_down', L)
                zz = L - d if p['ramp_type'] == 'upramp' else d
                e = acting(f, np.array([zz]))
                ctx.close('end_points',
                          abs(e[0][0] / p['plasma_dens_down'] - 1), 1e-9)
            # steeper towards the low-density side in the right direction
            up = p['ramp_type'] == 'upramp'
            zs = np.linspace(0, L, 30)
            dn = np.diff(acting(f, zs)[0])
            ctx.check('direction', bool(np.all(dn >= 0) if up
                                        else np.all(dn <= 0)))
            if np.ptp(w) > .2 * max(w):
                ctx.nontrivial([L, p])


def w_callables(ctx):
    """User-defined ramp and density callables, stages of number density."""
    for i, rng in ctx.cases(ctx.n(16, 160)):
        L, p = gen_ramp(rng)
        n0 = p['plasma_dens_top']
        with ctx.case(L=L, **p):
            rec = []

            def fun(z, decay_length=None, density_top=None, density_down=None,
                    position_down=None):
                rec.append((np.array(z), decay_length, density_top,
                            density_down, position_down))
                return n0 * (1 + .5 * np.cos(3 * np.asarray(z) / L))
            q = dict(p, profile=fun)
            r = W.PlasmaRamp(L, **q, n_out=1)
            z = rng.uniform(0, L, 15)
            del rec[:]
            a, _ = acting(r.fields[0], z)
            d = L - z if p['ramp_type'] == 'upramp' else z
            ctx.check('callable_args', len(rec) > 0)
            for c in rec:
                ctx.check('callable_args', c[1:] == (
                    p.get('decay_length'), n0, p.get('plasma_dens_down'),
                    p.get('position_down', L)), got=str(c[1:]))
                ctx.close('callable_args', relerr(c[0], d, L), 1e-12)
            ctx.close('local', relerr(
                a, n0 * (1 + .5 * np.cos(3 * d / L))), 1e-10)
            # stage with a user-defined density: function of its own z
            s = W.PlasmaStage(L, lambda z: n0 * (1 + .7 * np.sin(5 * z / L)),
                              'focusing_blowout', n_out=1)
            for t in (0., float(rng.uniform(0, L) / ct.c)):
                a, b = acting(s.fields[0], z, t)
                ctx.close('local', relerr(
                    a, n0 * (1 + .7 * np.sin(5 * z / L))), 1e-9)
            s = W.PlasmaStage(L, n0, 'focusing_blowout', n_out=1)
            a, b = acting(s.fields[0], z - 3 * L, 2 * L / ct.c)
            ctx.close('local', relerr(a, np.full(15, n0)), 1e-12)
            ctx.nontrivial([L, p])
            for bad in (lambda: W.PlasmaRamp(L, **dict(p, profile='nope')),
                        lambda: W.PlasmaStage(L, 'nope', 'focusing_blowout'),
                        lambda: W.PlasmaStage(L, n0, 'nope')):
                try:
                    bad()
                    ctx.check('refused', False)
                except ValueError:
                    ctx.check('refused', True)


def w_wakefields(model):
    """Every update of an r-z wakefield uses the density at the front of the
    window (z = c t from the entrance of its own element)."""
    def run(ctx):
        for i, rng in ctx.cases(ctx.n(8, 60) if model == 'quasistatic_2d'
                                else ctx.n(14, 80)):
            n_p, sd, k = wf.grid(rng, model)
            k.pop('parabolic_coefficient', None)
            L = float(rng.uniform(2, 8) * 1e-3)
            las = wf.laser(rng, n_p, k) if rng.random() < .4 else None
            bm = wf.beam(rng, n_p, k, k['xi_min'] * .4 + .6 * k['xi_max'],
                         k['xi_min'] * .2 + .8 * k['xi_max'],
                         float(rng.uniform(.05, .5)))
            k['dz_fields'] = L / float(rng.uniform(2.3, 5.7))
            if model != 'quasistatic_2d':
                k['beam_wakefields'] = True
            pc = None
            if model == 'quasistatic_2d' and rng.random() < .5:
                pc0 = float(rng.uniform(.01, .1)) / sd**2
                pc = (lambda z: pc0 * (1 + .8 * np.sin(4 * z / L)))
                k['parabolic_coefficient'] = pc
            if las is not None:
                k['laser_evolution'] = False
            ramp = bool(rng.integers(2))
            rp = gen_ramp(rng)[1]
            sc = n_p / rp['plasma_dens_top']
            rp['plasma_dens_top'] = n_p
            if 'plasma_dens_down' in rp:
                rp['plasma_dens_down'] *= sc
            if 'position_down' in rp:
                rp['position_down'] = float(L * rng.uniform(.5, 2))
            if 'decay_length' in rp:
                rp['decay_length'] = float(L * rng.uniform(.3, 3))
            with ctx.case(model=model, n_p=n_p, L=L, ramp=ramp, rp=rp,
                          pc=pc is not None, laser=las is not None,
                          **{a: b for a, b in k.items()
                             if not callable(b)}):
                kw = dict(k)
                if las is not None:
                    kw['laser'] = W.GaussianPulse(**las)
                if ramp:
                    el = W.PlasmaRamp(L, **rp, wakefield_model=model,
                                      n_out=1, dt_bunch=L / ct.c / 3, **kw)
                    dens = (lambda z: want(L, rp, z))
                else:
                    dens = (lambda z: n_p * (
                        1 - .5 * np.sin(2.5 * z / L)))
                    el = W.PlasmaStage(L, dens, model, n_out=1,
                                       dt_bunch=L / ct.c / 3, **kw)
                f = el.fields[0]
                log = []
                orig = f.calculate_field

                def spy(bunches, orig=orig, log=log, f=f):
                    pre = [b.copy() for b in bunches]
                    orig(bunches)
                    log.append((pre, {n: getattr(f, n)[2:-2, 2:-2].copy()
                                      for n in wf.NAMES}))
                f.calculate_field = spy
                b = wf.bunches([bm])[0]
                # rigid bunch: positions fixed by its energy
                b.pz[:] = 1e9
                b.px[:] = 0
                b.py[:] = 0
                el.track(b)
                T, dt = L / ct.c, k['dz_fields'] / ct.c
                if las is not None:
                    N = int(np.ceil(T / dt * (1 - 1e-12)))
                    times = [j * T / N for j in range(N + 1)]
                else:
                    times = list(np.arange(0, T * (1 - 1e-12), dt))
                ctx.check('n_updates', len(log) == len(times),
                          got=len(log), want=len(times))
                seen = []
                for j, t in enumerate(times):
                    z = ct.c * t
                    kc = dict(k)
                    if pc is not None:
                        kc['parabolic_coefficient'] = float(pc(z))
                    g = wf.fields(model, float(dens(z)), kc, las, log[j][0])
                    # how much rounding in z is amplified (plasma chaos)
                    h = wf.fields(model, float(dens(z)) * (1 + 1e-13), kc,
                                  las, log[j][0])
                    seen.append(float(dens(z)))
                    for n in wf.NAMES:
                        w = getattr(g, n)[2:-2, 2:-2]
                        top = max(np.max(np.abs(w)), 1e-300)
                        amp = np.max(np.abs(
                            getattr(h, n)[2:-2, 2:-2] - w)) / top
                        if not amp < 1e-5:
                            ctx.event('chaotic')
                            continue
                        ctx.close('update_density', relerr(
                            log[j][1][n], w, top), 1e-6 + 1000 * amp,
                            field=n, update=j)
                    ctx.event('updates')
                if max(seen) > 1.2 * min(seen):
                    ctx.nontrivial([model, i])
    return run


SHARDS = {'presets': w_presets, 'presets2': w_presets,
          'callables': w_callables,
          'cold_fluid_1d': w_wakefields('cold_fluid_1d'),
          'quasistatic_2d': w_wakefields('quasistatic_2d')}
