"""P14: the wakefield depends only on the physical drivers."""
import numpy as np
import scipy.constants as ct
import wf
from common import W, imp

PROPERTY = 'P14'
RULE = ('Metamorphic pairs of real field computations: permuted, rotated, '
        'split (into bunches or into lighter macroparticles), merged and '
        're-ordered bunches, species/weight trade-off, ballast particles '
        'without charge or outside the box, shifted boxes, density-scaled '
        'problems, polarisation and carrier phase of the laser, no driver at '
        'all; both r-z models. Non-trivial: wake above 1e-3 of the '
        'wave-breaking field; distinct by configuration and relation.')
ASSUMPTIONS = ['Rows where the model amplifies a 1e-11 change of the drivers '
               'to more than 1e-8 are not compared.']
MIN_EVENTS = {'monitor:' + n: 12 for n in (
    'permute', 'rotate', 'split_bunch', 'split_particles', 'ballast',
    'species', 'shift', 'scaling')}
MIN_EVENTS['monitor:no_driver'] = 2
MIN_EVENTS['monitor:polarization'] = 6
BUDGET = {'quick': 150., 'thorough': 1500.}


def w_model(model):
    def w(ctx):
        for i, rng in ctx.cases(ctx.n(36, 500)):
            n_p, sd, k = wf.grid(rng, model)
            if 'ppc' in k:
                k['ppc'] = int(rng.choice([2, 4]))
            L = k['xi_max'] - k['xi_min']
            las = wf.laser(rng, n_p, k) if rng.random() < .6 else None
            with ctx.case(model=model, n_p=n_p, las=las, **k):
                bm = [wf.beam(rng, n_p, k, k['xi_max'] - .9 * L,
                              k['xi_max'] - .1 * L, rng.uniform(.05, .4),
                              sp=ct.e * rng.choice([-1, 1]))
                      for _ in range(int(rng.integers(1, 3)))]

                def run(bb=bm, n_p=n_p, k=k, las=las):
                    return wf.fields(model, n_p, k, las, wf.bunches(bb))

                def mod(f):
                    return [dict(a=f(dict(b['a'])), sp=b['sp']) for b in bm]
                ref = run()
                sen = run(mod(lambda a: dict(a, w=a['w'] * (1 + 1e-11))),
                          las=las and dict(las, a_0=las['a_0'] * (1 + 1e-11)))
                E0 = ct.m_e * ct.c**2 / ct.e / sd
                SC = {n: np.max(np.abs(wf.core(ref, n))) + 1e-300
                      for n in wf.NAMES}
                SC['b_t'] = max(SC['b_t'], 1e-3 * E0 / ct.c)
                SC['e_r'] = max(SC['e_r'], 1e-3 * E0)
                lo = k['n_xi']
                for row in range(k['n_xi'] - 1, -1, -1):
                    s = max(np.max(np.abs(wf.core(ref, n)[row] - wf.core(
                        sen, n)[row])) / SC[n] for n in wf.NAMES)
                    if not s < 1e-8:
                        break
                    lo = row
                lo = min(lo + 2, k['n_xi'] - 4)
                ctx.event('rows_compared', k['n_xi'] - lo)
                ctx.event('rows_total', k['n_xi'])

                def same(name, got, f=1., tol=1e-6):
                    for n in wf.NAMES:
                        fac = f if n in ('e_z', 'e_r', 'b_t') else 1.
                        d = np.abs(wf.core(got, n) / fac
                                   - wf.core(ref, n))[lo:]
                        ctx.close(name, np.max(d) / SC[n], tol, field=n)

                # order of the particles
                same('permute', run(mod(lambda a: (lambda p: {
                    c: a[c][p] for c in a})(rng.permutation(len(a['x']))))))
                # azimuth
                th = rng.uniform(0, 6.28)

                def rot(a):
                    t = th + rng.uniform(0, 6.28, len(a['x'])) * (i % 2)
                    x, y = a['x'], a['y']
                    return dict(a, x=x * np.cos(t) - y * np.sin(t),
                                y=x * np.sin(t) + y * np.cos(t))
                same('rotate', run(mod(rot)))
                # several bunches instead of one, in any order
                parts = []
                for b in bm:
                    m = rng.random(len(b['a']['x'])) < .5
                    parts += [dict(a={c: v[m] for c, v in b['a'].items()},
                                   sp=b['sp']),
                              dict(a={c: v[~m] for c, v in b['a'].items()},
                                   sp=b['sp'])]
                parts = [parts[j] for j in rng.permutation(len(parts))
                         if len(parts[j]['a']['x'])]
                same('split_bunch', run(parts))
                # lighter macroparticles
                fr = rng.uniform(.1, .9)
                same('split_particles', run(mod(lambda a: {
                    c: np.concatenate([v * fr, v * (1 - fr)]) if c == 'w'
                    else np.concatenate([v, v]) for c, v in a.items()})))
                # momenta are no source
                same('momenta', run(mod(lambda a: dict(
                    a, pz=a['pz'] * 3., px=-a['px'], py=0 * a['py']))))
                # no charge / out of the box

                def ballast(a):
                    m = 20
                    z = np.concatenate([
                        rng.uniform(k['xi_min'], k['xi_max'], m),
                        k['xi_max'] + L * rng.uniform(1e-6, 2, m),
                        k['xi_min'] - L * rng.uniform(1e-6, 2, m),
                        rng.uniform(k['xi_min'], k['xi_max'], m)])
                    x = np.concatenate([
                        rng.uniform(-1, 1, 3 * m) * k['r_max'],
                        k['r_max'] * rng.uniform(1.0001, 3, m)])
                    wt = np.concatenate([np.zeros(m), np.full(
                        3 * m, np.sum(a['w']))])
                    add = dict(w=wt, x=x, y=0 * x, xi=z, px=0 * x, py=0 * x,
                               pz=1e3 + 0 * x)
                    return {c: np.concatenate([v, add[c]])
                            for c, v in a.items()}
                same('ballast', run(mod(ballast)))
                # only the charge counts
                nu = float(rng.uniform(.5, 3))
                same('species', run([dict(
                    a=dict(b['a'], w=b['a']['w'] / nu), sp=b['sp'] * nu)
                    for b in bm]))
                # the box moves with everything in it
                s = float(rng.uniform(-3, 3) * L)
                k2 = dict(k, xi_min=k['xi_min'] + s, xi_max=k['xi_max'] + s)
                l2 = las and dict(las, xi_c=las['xi_c'] + s)
                same('shift', run(mod(lambda a: dict(a, xi=a['xi'] + s)),
                                  k=k2, las=l2), tol=1e-5)
                # density scaling
                g = float(10**rng.uniform(-1, 1))
                k3 = dict(k)
                for c in ('r_max', 'xi_min', 'xi_max', 'r_max_plasma'):
                    if c in k3:
                        k3[c] = k3[c] * g
                if 'parabolic_coefficient' in k3:
                    k3['parabolic_coefficient'] /= g**2
                l3 = las and dict(las, xi_c=las['xi_c'] * g,
                                  w_0=las['w_0'] * g, tau=las['tau'] * g,
                                  l_0=.8e-6 * g)
                same('scaling', run(mod(lambda a: dict(
                    a, x=a['x'] * g, y=a['y'] * g, xi=a['xi'] * g,
                    w=a['w'] * g)), n_p=n_p / g**2, k=k3, las=l3), f=1 / g,
                    tol=1e-5)
                if las is not None:
                    other = dict(linear='circular', circular='linear')[
                        las['polarization']]
                    fac = np.sqrt(2.) if other == 'linear' else np.sqrt(.5)
                    same('polarization', run(las=dict(
                        las, polarization=other, a_0=las['a_0'] * fac,
                        cep_phase=float(rng.uniform(0, 6)))))
                if np.max(np.abs(wf.core(ref, 'e_z'))) > 1e-3 * E0:
                    ctx.nontrivial([model, n_p])
            if i < 6:
                with ctx.case(model=model, no_driver=True, n_p=n_p, **k):
                    f = wf.fields(model, n_p, k, None, [])
                    E0 = ct.m_e * ct.c**2 / ct.e / sd
                    # QS: the discretised plasma is not an exact equilibrium
                    tol = 1e-12 if model == 'cold_fluid_1d' else .02
                    for n, sc in (('e_z', E0), ('e_r', E0),
                                  ('b_t', E0 / ct.c)):
                        a = wf.core(f, n)
                        ctx.close('no_driver', np.max(np.abs(a)), tol * sc,
                                  field=n)
    return w


SHARDS = {'qs': w_model('quasistatic_2d'), 'cf': w_model('cold_fluid_1d')}
