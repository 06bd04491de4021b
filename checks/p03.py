"""P03: snapshots are complete, placed where requested, and independent."""
import numpy as np
import scipy.constants as ct
import sched
from common import (W, imp, bunch_arrays, make_bunch, state, state_err, COMP)

PROPERTY = 'P03'
RULE = ('Random element (field based with 0-2 recording fields, or transfer '
        'map drift/dipole/quadrupole/sextupole/custom), random number of '
        'outputs, bunches with random species, tags, names and reference '
        'frame. Every snapshot is compared with an independently computed '
        'state, with its siblings (memory sharing) and after deliberately '
        'overwriting the others. Non-trivial: >= 2 snapshots; distinct by '
        'configuration.')
ASSUMPTIONS = ['Snapshot positions compared to 1e-6 of the element length.']
MIN_EVENTS = {'snapshot': 500, 'monitor:csr_state': 100, 'monitor:no_shared_memory': 500}
TOL = 1e-6
ARR = COMP + ('w',)


def same_bunch(ctx, name, snap, ref, **w):
    """Every property a user can read on a bunch survives in its snapshot."""
    for a in ('name', 'q_species', 'm_species', 't_flight', 'z_injection'):
        ctx.check(f'{name}:{a}', getattr(snap, a) == getattr(ref, a),
                  got=getattr(snap, a), want=getattr(ref, a), **w)
    if ref.tags is None:
        ctx.check(f'{name}:tags', snap.tags is None, **w)
    else:
        ctx.check(f'{name}:tags', snap.tags is not None and
                  np.array_equal(snap.tags, ref.tags), **w)
    ctx.check(f'{name}:w', np.array_equal(snap.w, ref.w), **w)


def independent(ctx, bunches, snaps):
    """No snapshot shares memory with another one or with the live bunch."""
    objs = list(bunches) + [s for l in snaps for s in l]
    arrs = []
    for o in objs:
        for a in ARR + ('tags',):
            v = getattr(o, a)
            if v is not None:
                arrs.append((id(o), a, v))
    for i in range(len(arrs)):
        for j in range(i + 1, len(arrs)):
            if arrs[i][0] == arrs[j][0]:
                continue
            if arrs[i][1] != arrs[j][1]:
                continue
            ctx.check('no_shared_memory',
                      not np.shares_memory(arrs[i][2], arrs[j][2]),
                      array=arrs[i][1])
    flat = [s for l in snaps for s in l]
    if not flat:
        return
    # behavioural version: clobber the live bunch, snapshots stay
    keep = [np.array([getattr(s, a) for a in ARR]) for s in flat]
    for b in bunches:
        for a in ARR:
            getattr(b, a)[...] = -7.25
        b.prop_distance = -1
    for s, k in zip(flat, keep):
        ctx.check('frozen_when_bunch_changes', np.array_equal(
            np.array([getattr(s, a) for a in ARR]), k))
    for a in ARR:
        getattr(flat[0], a)[...] = 3.5
    for s, k in zip(flat[1:], keep[1:]):
        ctx.check('frozen_when_sibling_changes', np.array_equal(
            np.array([getattr(s, a) for a in ARR]), k))


def decorate(rng, b, i=0):
    b.tags = np.arange(len(b.x)) * 3 + i if rng.random() < 0.7 else None
    b.t_flight = float(rng.uniform(0, 1e-9))
    b.z_injection = float(rng.uniform(-1, -0.5)) if rng.random() < .5 else None
    sp = [(-ct.e, ct.m_e), (ct.e, ct.m_e), (ct.e, ct.m_p)][
        int(rng.integers(0, 3))]
    b.q_species, b.m_species = sp


def w_field(ctx):
    for i, rng in ctx.cases(ctx.n(100, 2000)):
        cfg = sched.gen_config(rng, n_part=(1, 6))
        while not cfg['bunches']:
            cfg = sched.gen_config(rng, n_part=(1, 6))
        with ctx.case(**cfg):
            log = sched.Log()
            B, F = sched.rec_bunch_cls(log), sched.rec_field_cls(log)
            L, T = cfg['L'], cfg['L'] / ct.c
            bunches, dts, orig = [], [], []
            for k, c in enumerate(cfg['bunches']):
                b = B(**bunch_arrays(rng, c['n'],
                                     pz=float(10**rng.uniform(.5, 4))),
                      prop_distance=c['pd0'], name=f'b{k}')
                b.idx = k
                decorate(rng, b, k)
                b.x_ref = float(rng.choice([0, 1e-3]))
                b.theta_ref = float(rng.choice([0, 1e-2]))
                bunches.append(b)
                orig.append((state(b).copy(), b.copy(), b.x_ref, b.theta_ref))
                dts.append('auto' if c['dt'] is None else c['dt'])
            meta = [make_meta(b) for b in bunches]
            auto = sched.auto_function(cfg)
            fields = []
            for k, c in enumerate(cfg['fields']):
                f = F(dt_update=c['dt'], force_even_updates=c['even'])
                f.idx = k
                fields.append(f)
            el = imp('wake_t.beamline_elements', 'FieldElement')(
                length=L, dt_bunch=dts, bunch_pusher=cfg['pusher'],
                n_out=cfg['n_out'], fields=fields, auto_dt_bunch=auto,
                push_bunches_before_diags=cfg['before'])
            out = el.track(bunches if len(bunches) > 1 or rng.random() < .5
                           else bunches[0], show_progress_bar=False)
            if len(bunches) == 1:
                out = [out]
            ctx.check('one_list_per_bunch', len(out) == len(bunches))
            n = cfg['n_out']
            for k, (b, snaps) in enumerate(zip(bunches, out)):
                ctx.event('snapshot', len(snaps))
                c = cfg['bunches'][k]
                ctx.check('number_of_snapshots', len(snaps) == n + 1,
                          n=len(snaps), want=n + 1, bunch=k)
                s0 = orig[k][0]
                g = np.sqrt(1 + s0[3]**2 + s0[4]**2 + s0[5]**2)
                ctx.check('first_is_input', np.array_equal(
                    state(snaps[0]), s0), bunch=k)
                ctx.check('last_is_exit', np.array_equal(
                    state(snaps[-1]), state(b)), bunch=k)
                ctx.close('last_prop_distance', abs(
                    snaps[-1].prop_distance - c['pd0'] - L) / L, TOL)
                pushes = [e['t'] + e['dt'] for e in log.ev
                          if e['kind'] == 'push' and e['b'] == k]
                for j, s in enumerate(snaps):
                    d = s.prop_distance - c['pd0']
                    want = L * j / n
                    if cfg['before']:
                        ctx.close('position', abs(d - want) / L, TOL,
                                  bunch=k, j=j)
                    else:
                        # as of the last completed push before that time (a
                        # push at that time, up to rounding, may be in)
                        err = min(abs(d - max(
                            [p for p in pushes if p <= want / ct.c + e * T],
                            default=0.) * ct.c) for e in (-TOL, TOL))
                        ctx.close('position', err / L, TOL, bunch=k, j=j)
                    r = s0.copy()
                    r[0] += s0[3] / g * d
                    r[1] += s0[4] / g * d
                    r[2] += (s0[5] / g - 1) * d
                    sc = np.max(np.abs(r), axis=1) + np.max(np.abs(s0),
                                                            axis=1)
                    ctx.close('state_at_position',
                              state_err(state(s), r, sc), 1e-9, j=j)
                    same_bunch(ctx, 'kept', s, meta[k], j=j, bunch=k)
                    ctx.check('kept:reference', s.x_ref == orig[k][2] and
                              s.theta_ref == orig[k][3])
            independent(ctx, bunches, out)
            if n + 1 >= 2:
                ctx.nontrivial(cfg)


class make_meta:
    """Plain record of the non-phase-space attributes of a bunch."""

    def __init__(self, b):
        for a in ('name', 'q_species', 'm_species', 't_flight',
                  'z_injection'):
            setattr(self, a, getattr(b, a))
        self.tags = None if b.tags is None else np.array(b.tags)
        self.w = np.array(b.w)


def gen_tm(rng, L, n_out, kind, scale=1., order=2, g=None):
    p = dict(theta=0., k1=0., k2=0.)
    if kind == 'dipole':
        p['theta'] = float(rng.uniform(-0.3, 0.3))
    elif kind == 'quad':
        p['k1'] = float(rng.uniform(-4, 4) / L**2)
    elif kind == 'sext':
        p['k2'] = float(rng.uniform(-100, 100) / L**3)
    elif kind == 'any':
        p = dict(theta=float(rng.uniform(-.2, .2)),
                 k1=float(rng.uniform(-4, 4) / L**2),
                 k2=float(rng.uniform(-50, 50) / L**3))
    return p


def build_tm(kind, p, L, n_out, g=None, order=2, **kw):
    E = imp('wake_t.beamline_elements')
    kw = dict(kw, gamma_ref=g, n_out=n_out, order=order)
    if kind == 'drift':
        return E.Drift(length=L, **kw)
    if kind == 'dipole':
        return E.Dipole(length=L, theta=p['theta'], **kw)
    if kind == 'quad':
        return E.Quadrupole(length=L, k1=p['k1'], **kw)
    if kind == 'sext':
        return E.Sextupole(length=L, k2=p['k2'], **kw)
    return E.TMElement(length=L, theta=p['theta'], k1=p['k1'], k2=p['k2'],
                       **kw)


KINDS = ('drift', 'dipole', 'quad', 'sext', 'any')


def w_tm(ctx):
    for i, rng in ctx.cases(ctx.n(150, 3000)):
        kind = KINDS[i % 5]
        L = float(10**rng.uniform(-2, 0.5))
        n = int(rng.integers(1, 9))
        n_out = None if rng.random() < 0.15 else n
        order = int(rng.choice([1, 2]))
        ini = bool(rng.random() < 0.4)
        g = None if rng.random() < .5 else 1003.
        p = gen_tm(rng, L, n, kind)
        xr, tr = (0., 0.) if rng.random() < .5 else (
            float(rng.uniform(-.1, .1)), float(rng.uniform(-.1, .1)))
        with ctx.case(kind=kind, L=L, n_out=n_out, order=order, initial=ini,
                      gamma_ref=g, x_ref=xr, theta_ref=tr, **p):
            a = bunch_arrays(rng, int(rng.integers(2, 8)), pz=1000.)
            a['x'] = a['x'] + xr
            a['px'] = a['px'] + a['pz'] * np.tan(tr)
            b = make_bunch(a, name='b0', prop_distance=0.2)
            decorate(rng, b)
            b.x_ref, b.theta_ref = xr, tr
            meta = make_meta(b)
            s0 = state(b).copy()
            out = build_tm(kind, p, L, n_out, g, order).track(
                b, out_initial=ini, show_progress_bar=False)
            ctx.event('snapshot', len(out))
            want = (n if n_out is not None else 0) + ini
            ctx.check('number_of_snapshots', len(out) == want, n=len(out),
                      want=want)
            off = 0
            if ini:
                ctx.check('first_is_input', np.array_equal(state(out[0]), s0))
                ctx.check('first_prop_distance',
                          out[0].prop_distance == 0.2)
                off = 1
            ctx.close('final_prop_distance',
                      abs(b.prop_distance - 0.2 - L) / L, 1e-12)
            for j, s in enumerate(out):
                same_bunch(ctx, 'kept', s, meta, j=j)
            same_bunch(ctx, 'live', b, meta)
            if n_out is not None:
                ctx.close('last_is_exit', state_err(
                    state(out[-1]), state(b)), 1e-13)
                ctx.check('last_reference', out[-1].x_ref == b.x_ref and
                          out[-1].theta_ref == b.theta_ref)
            for j in range(n if n_out is not None else 0):
                s = out[off + j]
                d = L * (j + 1) / n
                ctx.close('position', abs(s.prop_distance - 0.2 - d) / L,
                          1e-9, j=j)
                # the same bunch through the first part of the element only
                b2 = make_bunch(a, name='b0', prop_distance=0.2)
                b2.x_ref, b2.theta_ref = xr, tr
                p2 = dict(p, theta=p['theta'] * (j + 1) / n)
                build_tm(kind, p2, d, j + 1, g, order).track(
                    b2, show_progress_bar=False)
                sc = np.max(np.abs(state(b2)), axis=1) + 1e-9
                ctx.close('state_at_position', state_err(
                    state(s), state(b2), sc), 1e-8, j=j)
                ctx.close('reference_at_position', abs(s.x_ref - b2.x_ref)
                          + abs(s.theta_ref - b2.theta_ref), 1e-9)
            independent(ctx, [b], [out])
            if len(out) >= 2:
                ctx.nontrivial([kind, L, n_out, order, ini])


def w_csr(ctx):
    """With CSR and next to no charge: as without CSR, whatever the number
    of CSR steps between the outputs."""
    C = imp('wake_t.physics_models.collective_effects.csr')
    for i, rng in ctx.cases(ctx.n(60, 1000)):
        kind = KINDS[(0, 1, 1, 2, 4)[i % 5]]
        L = float(10**rng.uniform(-1.5, .5))
        n_out = None if i % 3 == 0 else int(rng.integers(1, 7))
        # number of CSR steps per output (or in all)
        k = int(rng.choice([1, 2, 3, 7, 14, 19, 23, 28])) if n_out is None \
            else int(rng.integers(1, 9))
        k += float(rng.choice([0., -.4, 1e-9]))
        step = L / (n_out or 1) / k
        ini = bool(rng.random() < .3)
        p = gen_tm(rng, L, 1, kind)
        p['k2'] = 0.
        with ctx.case(kind=kind, L=L, n_out=n_out, k=k, initial=ini, **p):
            a = bunch_arrays(rng, 30, pz=1000., q=1e-22)
            C.reset_csr_calculator()
            C.set_csr_settings(csr_step=step, csr_traj_step=step / 3,
                               n_bins=50)
            try:
                res = []
                for on in (True, False):
                    b = make_bunch(a, name='b0', prop_distance=0.2)
                    out = build_tm(kind, p, L, n_out, 1001., 1,
                                   csr_on=on).track(
                        b, out_initial=ini, show_progress_bar=False)
                    res.append(list(out) + [b])
            finally:
                C.set_csr_settings()
                C.reset_csr_calculator()
            ctx.check('csr_number_of_snapshots', len(res[0]) == len(res[1]),
                      n=len(res[0]), want=len(res[1]))
            ctx.event('snapshot', len(res[0]))
            if len(res[0]) != len(res[1]):
                continue
            for s, t in zip(*res):
                ctx.close('csr_position', abs(
                    s.prop_distance - t.prop_distance) / L, 1e-9)
                sc = np.max(np.abs(state(t)), axis=1) + 1e-9
                ctx.close('csr_state', state_err(state(s), state(t), sc),
                          1e-6)
                ctx.close('csr_reference', abs(s.x_ref - t.x_ref)
                          + abs(s.theta_ref - t.theta_ref), 1e-9)
            if k > 1.5:
                ctx.nontrivial(['csr', kind, L, n_out])


def w_copy(ctx):
    """Copying a bunch at any point of its life."""
    for i, rng in ctx.cases(ctx.n(60, 1000)):
        n = int(rng.integers(1, 20))
        with ctx.case(n=n):
            b = make_bunch(bunch_arrays(rng, n), name='cc',
                           prop_distance=float(rng.uniform(0, 3)))
            decorate(rng, b)
            b.x_ref = float(rng.uniform(-1, 1))
            b.theta_ref = float(rng.uniform(-1, 1))
            if rng.random() < 0.5:
                z = b.z_injection
                b.evolve([], 0., 1e-12, str(rng.choice(['boris', 'rk4'])))
                b.z_injection = z
            c = b.copy()
            ctx.event('snapshot')
            ctx.check('copy:state', np.array_equal(state(c), state(b)))
            same_bunch(ctx, 'copy', c, make_meta(b))
            for a in ('prop_distance', 'x_ref', 'theta_ref'):
                ctx.check('copy:' + a, getattr(c, a) == getattr(b, a))
            # the copy can be evolved on its own, with the same result
            c2 = c.copy()
            for o in (b, c2):
                o.evolve([], 1e-12, 2e-12, 'rk4')
            ctx.check('copy:evolves_alike', np.array_equal(
                state(b), state(c2)))
            independent(ctx, [b], [[c, c2]])
            ctx.nontrivial(i)


def w_beamline(ctx):
    """A beamline returns the snapshots of its elements, in order."""
    for i, rng in ctx.cases(ctx.n(40, 600)):
        m = int(rng.integers(1, 5))
        spec = []
        for k in range(m):
            kind = str(rng.choice(KINDS + ('field', 'lens')))
            spec.append(dict(kind=kind, L=float(rng.uniform(0.01, 0.5)),
                             n=int(rng.integers(1, 4)),
                             p=gen_tm(rng, 1., 1, kind)))
        with ctx.case(spec=spec):
            a = bunch_arrays(rng, 5, pz=1000.)

            def build(s):
                if s['kind'] == 'field':
                    return imp('wake_t.beamline_elements', 'FieldElement')(
                        length=s['L'], dt_bunch=s['L'] / ct.c / 7,
                        n_out=s['n'])
                if s['kind'] == 'lens':
                    return W.ActivePlasmaLens(s['L'] / 10, 100., n_out=s['n'])
                return build_tm(s['kind'], s['p'], s['L'], s['n'])
            b1, b2 = make_bunch(a, name='b'), make_bunch(a, name='b')
            out = W.Beamline([build(s) for s in spec]).track(
                b1, show_progress_bar=False)
            ref = []
            for s in spec:
                ref.extend(build(s).track(b2, show_progress_bar=False))
            ctx.event('snapshot', len(out))
            ctx.check('beamline:number', len(out) == len(ref), n=len(out),
                      want=len(ref))
            for j, (x, y) in enumerate(zip(out, ref)):
                ctx.check('beamline:snapshot', np.array_equal(
                    state(x), state(y)), j=j)
                ctx.close('beamline:prop_distance', abs(
                    x.prop_distance - y.prop_distance), 1e-12)
            ctx.check('beamline:exit', np.array_equal(state(b1), state(b2)))
            tot = sum(s['L'] / 10 if s['kind'] == 'lens' else s['L']
                      for s in spec)
            ctx.close('beamline:length', abs(b1.prop_distance - tot) / tot,
                      TOL)
            pds = [s.prop_distance for s in out]
            ctx.check('beamline:monotonic', all(
                q >= p - 1e-9 for p, q in zip(pds, pds[1:])))
            independent(ctx, [b1], [out])
            ctx.nontrivial(spec)


SHARDS = {'csr': w_csr, 'field': w_field, 'tm': w_tm, 'copy': w_copy,
          'beamline': w_beamline}
