"""P27: a tracking depends on its inputs only, not on what ran before."""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import numpy as np
import scipy.constants as ct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'lib'))
from common import W, imp, make_bunch, bunch_arrays, state, COMP
import vf  # noqa

PROPERTY = 'P27'
RULE = ('Random elements and beamlines of every type and model are tracked '
        'several times in one process: fresh objects, the same element '
        'object again (with another bunch, other energy, other number of '
        'particles or bunches in between), after unrelated simulations, after '
        'a tracking that failed, in other order, with another state of the '
        'random generators, and in a new process; a monitor compares all '
        'outputs bit by bit, the public settings of the elements and the '
        'random state before and after. Non-trivial: the element was used '
        'before with a different bunch; distinct by configuration.')
ASSUMPTIONS = ['A laser pulse is carried along on purpose (P18), so elements '
               'that are used again get a new pulse.',
               'The CSR calculator is reset before a new CSR lattice, as its '
               'documentation requires.',
               'One thread (P11 covers threads).']
MIN_EVENTS = {'monitor:fresh_twice': 20, 'monitor:reused': 25,
              'monitor:after_others': 20, 'monitor:settings': 25,
              'monitor:rng_state': 25, 'monitor:after_failure': 15,
              'monitor:process': 6, 'monitor:shared_field': 20}
BUDGET = {'quick': 200., 'thorough': 1800.}
SETTINGS = ('length', 'n_out', 'dt_bunch', 'bunch_pusher', 'gamma_ref',
            'theta', 'k1', 'k2', 'order', 'foc_strength', 'density',
            'wakefield_model', 'csr_on')


def gen(rng, group):
    if group == 'cheap':
        kind = str(rng.choice(['drift', 'dipole', 'quad', 'sext', 'csr',
                               'lens', 'fquad', 'blowout', 'custom',
                               'ramp', 'beamline']))
    elif group == 'fluid':
        kind = str(rng.choice(['fluid', 'fluid_ramp', 'fluid_lens',
                               'fluid_laser']))
    else:
        kind = str(rng.choice(['qs', 'qs', 'qs_laser', 'qs_lens']))
    L = float(rng.uniform(1e-3, 1e-2))
    d = dict(kind=kind, L=L, n_out=int(rng.integers(1, 4)),
             pusher=('boris', 'rk4')[int(rng.integers(2))],
             dt=float(L / ct.c / rng.uniform(2, 9)),
             auto=bool(rng.random() < .5), nf=float(rng.uniform(1.3, 6)),
             th=float(rng.uniform(.02, .2)), k=float(rng.normal() * 4),
             gref=None if rng.random() < .6 else float(
                 rng.uniform(300, 900)),
             n=float(10**rng.uniform(22.5, 23.5)), seed=int(
                 rng.integers(2**31)), nb=1)
    if kind in ('lens', 'fquad', 'blowout', 'fluid', 'qs'):
        d['nb'] = int(rng.integers(1, 3))
    if rng.random() < .3:   # one time step per bunch
        d['dtl'] = [(d['dt'], 'auto', None)[int(rng.integers(3))]
                    for _ in range(d['nb'])]
    return d


def build(d):
    k, L = d['kind'], d['L']
    dt = 'auto' if d['auto'] else d['dt']
    dt = list(d['dtl']) if 'dtl' in d else dt
    tm = dict(n_out=d['n_out'], gamma_ref=d['gref'])
    fe = dict(n_out=d['n_out'], bunch_pusher=d['pusher'])
    rz = dict(xi_max=3e-5, xi_min=-9e-5, r_max=7e-5, n_xi=24, n_r=14,
              dz_fields=L / d['nf'], **fe)
    if k == 'drift':
        return W.Drift(10 * L, **tm)
    if k == 'dipole':
        return W.Dipole(10 * L, d['th'], **tm)
    if k == 'quad':
        return W.Quadrupole(10 * L, d['k'], **tm)
    if k == 'sext':
        return W.Sextupole(10 * L, d['k'] * 10, **tm)
    if k == 'csr':
        return W.Beamline([
            W.Dipole(20 * L, d['th'], csr_on=True, n_out=d['n_out']),
            W.Drift(5 * L, csr_on=True, n_out=1)])
    if k == 'lens':
        return W.ActivePlasmaLens(L, 400., dt_bunch=dt, **fe)
    if k == 'fquad':
        return imp('wake_t.beamline_elements', 'FieldQuadrupole')(
            L, 30., dt_bunch=dt, **fe)
    if k == 'blowout':
        return W.PlasmaStage(L, d['n'], 'focusing_blowout', dt_bunch=dt, **fe)
    if k == 'custom':
        return W.PlasmaStage(L, d['n'], 'custom_blowout', dt_bunch=dt,
                             lon_field=-1e9, lon_field_slope=1e13,
                             foc_strength=1e5, xi_fields=0.,
                             laser=W.GaussianPulse(0., .5, 2e-5, 3e-14), **fe)
    if k == 'ramp':
        return W.PlasmaRamp(L, 'inverse_square', 'downramp',
                            'focusing_blowout', decay_length=L / 3,
                            plasma_dens_top=d['n'], dt_bunch=dt, **fe)
    if k == 'beamline':
        return W.Beamline([
            W.Drift(5 * L, n_out=1), W.ActivePlasmaLens(
                L, 300., dt_bunch=dt, **fe),
            W.Dipole(10 * L, d['th'], n_out=2),
            W.PlasmaStage(L, d['n'], 'focusing_blowout', dt_bunch=dt, **fe)])
    las = dict(xi_c=0., a_0=1.2, w_0=2.5e-5, tau=3e-14)
    if k == 'fluid':
        return W.PlasmaStage(L, d['n'], 'cold_fluid_1d', dt_bunch=dt,
                             beam_wakefields=True, **rz)
    if k == 'fluid_ramp':
        return W.PlasmaRamp(L, 'exponential', 'upramp', 'cold_fluid_1d',
                            decay_length=L / 3, plasma_dens_top=d['n'],
                            dt_bunch=dt, beam_wakefields=True, **rz)
    if k in ('fluid_lens', 'qs_lens'):
        kw = dict(rz)
        m = 'cold_fluid_1d' if k[0] == 'f' else 'quasistatic_2d'
        if m[0] == 'c':
            kw['beam_wakefields'] = True
        else:
            kw['ppc'] = 1
        return W.ActivePlasmaLens(L, 300., wakefields=True, density=d['n'],
                                  wakefield_model=m, dt_bunch=dt, **kw)
    if k == 'qs':
        return W.PlasmaStage(L, d['n'], 'quasistatic_2d', dt_bunch=dt, ppc=1,
                             **rz)
    m = 'cold_fluid_1d' if k[0] == 'f' else 'quasistatic_2d'
    if m[0] == 'q':
        rz['ppc'] = 1
    return W.PlasmaStage(L, d['n'], m, dt_bunch=dt,
                         laser=W.GaussianPulse(**las), **rz)


def arrays(d, other=False):
    rng = np.random.default_rng(d['seed'] + other)
    out = []
    for j in range(d['nb']):
        a = bunch_arrays(rng, int(rng.integers(20, 300)), size=3e-6,
                         xi_c=-2e-5 * j, sxi=2e-6, q=2e-12,
                         pz=float(rng.uniform(300, 900)))
        out.append(a)
    return out


def run(d, el=None, other=False):
    el = build(d) if el is None else el
    bs = [make_bunch(a, name=f'b{j}')
          for j, a in enumerate(arrays(d, other))]
    if d['kind'] == 'csr':
        # documented as needed to start a new, independent calculation
        imp('wake_t.physics_models.collective_effects.csr',
            'reset_csr_calculator')()
    out = el.track(bs if d['nb'] > 1 else bs[0], show_progress_bar=False)
    flat = []
    for o in out:
        flat += o if isinstance(o, list) else [o]
    R = [state(b) for b in bs] + [state(o) for o in flat]
    R += [np.array([b.prop_distance, b.x_ref, b.theta_ref], float)
          for b in bs + flat]
    return R


def same(a, b):
    return len(a) == len(b) and all(
        p.shape == q.shape and np.array_equal(p, q, equal_nan=True)
        for p, q in zip(a, b))


def worst(a, b):
    try:
        # each coordinate relative to its own size
        return max(float(np.max(np.max(np.abs(p - q), axis=-1) / (
            np.max(np.abs(q), axis=-1) + 1e-300)))
            for p, q in zip(a, b) if p.size)
    except ValueError:
        return 'shape'


def settings(el):
    els = getattr(el, 'elements', None) or [el]
    return [[repr(getattr(e, s, None)) for s in SETTINGS]
            + [[id(f) for f in getattr(e, 'fields', [])]] for e in els] + [
        [id(e) for e in els]]


class Stop(Exception):
    pass


def fails(el, bs, d, k):
    """Track until the k-th output or push, where it is made to fail."""
    n = [0]

    def count(real, *a, **kw):
        n[0] += 1
        if n[0] > k:
            raise Stop()
        return real(*a, **kw)
    real = bs[0].evolve
    bs[0].evolve = lambda *a, **kw: count(real, *a, **kw)
    tmp = tempfile.mkdtemp(prefix='p27_')
    diag = imp('wake_t.diagnostics', 'OpenPMDDiagnostics')(write_dir=tmp)
    diag.write_diagnostics = lambda *a, **kw: count(lambda *p, **q: None)
    if d['kind'] == 'csr':
        imp('wake_t.physics_models.collective_effects.csr',
            'reset_csr_calculator')()
    try:
        el.track(bs if d['nb'] > 1 else bs[0], opmd_diag=diag,
                 show_progress_bar=False)
        return False
    except Stop:
        return True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def w_group(group, nq, nt):
    def w(ctx):
        known = []
        for i, rng in ctx.cases(ctx.n(nq, nt)):
            d = gen(rng, group)
            oth = gen(rng, group)
            with ctx.case(d=d, other=oth['kind']):
                np.random.seed(1)
                r0 = run(d)
                s0 = np.random.get_state()[1].copy()
                np.random.seed(77 + i)
                before = np.random.get_state()
                r1 = run(d)
                after = np.random.get_state()
                ctx.check('fresh_twice', same(r0, r1), diff=worst(r0, r1))
                np.random.seed(1)
                ctx.check('rng_state', np.array_equal(
                    before[1], after[1]) and before[2] == after[2]
                    and np.array_equal(s0, np.random.get_state()[1]))
                las = 'laser' in d['kind']
                el = build(d)
                st = settings(el)
                if not las:
                    # used with another bunch first
                    run(d, el, other=True)
                    run(oth)
                    r2 = run(d, el)
                    ctx.check('reused', same(r0, r2), diff=worst(r0, r2))
                    r3 = run(d, el)
                    ctx.check('reused', same(r0, r3), diff=worst(r0, r3),
                              third=1)
                else:
                    run(d, el)
                ctx.check('settings', settings(el) == st,
                          before=st, after=settings(el))
                run(oth)
                pre = build(oth)  # built but not used
                r4 = run(d)
                del pre
                ctx.check('after_others', same(r0, r4), diff=worst(r0, r4))
                # a tracking that fails in the middle
                if not las:
                    el2 = build(d)
                    st2 = settings(el2)
                    bs = [make_bunch(a, name=f'b{j}')
                          for j, a in enumerate(arrays(d, True))]
                    if fails(el2, bs, d, int(rng.integers(0, 3))):
                        ctx.event('failed_' + d['kind'])
                        ctx.check('settings', settings(el2) == st2,
                                  failed=1)
                        r5 = run(d, el2)
                        ctx.check('after_failure', same(r0, r5),
                                  diff=worst(r0, r5))
                known.append((d, r0))
                ctx.nontrivial([d['kind'], d['L']])
        if ctx.only is None and known:
            sel = known[-6:] if group == 'cheap' else known[-4:]
            with ctx.case(what='new process', kinds=[k[0]['kind']
                                                     for k in sel]):
                tmp = tempfile.mkdtemp(prefix='p27_')
                try:
                    p = os.path.join(tmp, 'in.json')
                    # other order in the new process
                    json.dump([k[0] for k in sel][::-1], open(p, 'w'))
                    env = dict(os.environ, PYTHONHASHSEED='123')
                    c = subprocess.run(
                        [sys.executable, os.path.abspath(__file__), p],
                        env=env, capture_output=True, text=True, timeout=600)
                    if c.returncode:
                        raise RuntimeError(c.stderr[-2000:])
                    res = pickle.load(open(p + '.out', 'rb'))[::-1]
                    for (d, r0), r in zip(sel, res):
                        # the RK4 kernel is compiled with fast-math: its
                        # rounding depends on what was compiled before it
                        e = worst(r0, r) if len(r0) == len(r) else 'length'
                        if isinstance(e, str):
                            e = np.inf
                        ctx.close('process', e, 1e-9 if group == 'cheap'
                                  else 1e-7, kind=d['kind'], d=d)
                        ctx.event('process_bitwise', int(same(r0, r)))
                finally:
                    shutil.rmtree(tmp)
    return w


def user_field(d):
    NF = imp('wake_t.fields.numerical_field', 'NumericalField')
    AF = imp('wake_t.fields.analytical_field', 'AnalyticalField')

    class Wake(NF):
        def _calculate_field(self, bunches):
            self.k = 1e6 * (1 + self.t * ct.c / 1e-2) + sum(
                float(np.sum(b.x)) for b in bunches)

        def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
            ex -= self.k * ct.c * x * 1e-3
            ez += self.k

    def fx(x, y, xi, t, out, c):
        for i in range(x.shape[0]):
            out[i] -= c[0] * x[i]
    if d['what'] == 'analytic':
        return AF(e_x=fx, constants=[1e12])
    if d['what'] == 'user':
        return Wake(dt_update=d['dt_f'], force_even_updates=d['even'])
    n = d['n']
    cls = imp('wake_t.physics_models.plasma_wakefields',
              'NonLinearColdFluidWakefield' if d['what'] == 'fluid' else
              'Quasistatic2DWakefield')
    kw = dict(beam_wakefields=True) if d['what'] == 'fluid' else dict(ppc=1)
    return cls(lambda z: np.ones_like(z) * n, xi_max=3e-5, xi_min=-9e-5,
               r_max=7e-5, n_xi=24, n_r=14, dz_fields=d['dt_f'] * ct.c, **kw)


def shared_run(d, L, f, other):
    b = make_bunch(arrays(d, other)[0], name='b')
    kw = dict(n_out=2, bunch_pusher=d['pusher'], dt_bunch=d['dt'])
    if d['stage']:
        el = W.PlasmaStage(L, d['n'], f, **kw)
    else:
        el = imp('wake_t.beamline_elements', 'FieldElement')(
            L, fields=[f], **kw)
    out = el.track(b, show_progress_bar=False)
    return [state(b)] + [state(o) for o in out]


def w_shared(ctx):
    """One field object is used by several elements."""
    for i, rng in ctx.cases(ctx.n(12, 200)):
        L = float(rng.uniform(1e-3, 1e-2))
        d = dict(what=('user', 'fluid', 'user', 'qs', 'user',
                       'analytic')[i % 6], L=L, nb=1,
                 L1=float(L * rng.uniform(.4, 2.5)),
                 dt_f=float(L / ct.c * rng.uniform(.1, .7)),
                 even=bool(i % 4 != 2), pusher=('boris', 'rk4')[i // 2 % 2],
                 dt=float(L / ct.c / rng.uniform(5, 20)),
                 stage=bool(rng.random() < .5),
                 n=float(10**rng.uniform(22.5, 23.5)),
                 seed=int(rng.integers(2**31)))
        with ctx.case(d=d):
            r0 = shared_run(d, L, user_field(d), False)
            f = user_field(d)
            shared_run(d, d['L1'], f, True)
            r1 = shared_run(d, L, f, False)
            ctx.check('shared_field', same(r0, r1), diff=worst(r0, r1))
            shared_run(d, d['L1'] * .7, f, True)
            r2 = shared_run(d, L, f, False)
            ctx.check('shared_field', same(r0, r2), diff=worst(r0, r2))
            ctx.nontrivial([d['what'], L])


SHARDS = {'shared': w_shared,
          'cheap': w_group('cheap', 8, 150),
          'cheap2': w_group('cheap', 8, 150),
          'fluid': w_group('fluid', 8, 120),
          'quasistatic': w_group('qs', 8, 100)}

if __name__ == '__main__':
    import warnings
    warnings.filterwarnings('ignore')
    sys.path.insert(0, vf.REPO)
    with open(sys.argv[1]) as f:
        todo = json.load(f)
    with open(sys.argv[1] + '.out', 'wb') as f:
        pickle.dump([run(d) for d in todo], f)
