"""Recording bunches / fields / diagnostics and a generator of tracking
configurations, used by the schedule, snapshot and bookkeeping monitors."""
import numpy as np
import scipy.constants as ct
from common import W, imp, bunch_arrays, state


class Log:
    def __init__(self):
        self.ev = []

    def add(self, kind, **kw):
        kw['kind'] = kind
        self.ev.append(kw)


def rec_bunch_cls(log):
    """ParticleBunch that logs every push it receives."""
    class RecBunch(W.ParticleBunch):
        def evolve(self, fields, t, dt, *a, **kw):
            before = state(self)
            pd = self.prop_distance
            auto = self.auto_f(self) if self.auto_f is not None else None
            super().evolve(fields, t, dt, *a, **kw)
            log.add('push', b=self.idx, t=float(t), dt=float(dt),
                    pd0=pd, pd1=self.prop_distance, before=before,
                    after=state(self), auto=auto)
    RecBunch.auto_f = None
    RecBunch.idx = -1
    return RecBunch


def rec_field_cls(log):
    NumericalField = imp('wake_t.fields.numerical_field', 'NumericalField')

    class RecField(NumericalField):
        idx = -1
        amp = 0.

        def _initialize_properties(self, bunches):
            log.add('init', f=self.idx, t=float(self.t))

        def _evolve_properties(self, bunches):
            log.add('evolve', f=self.idx, t=float(self.t),
                    dt=float(self.dt_update))

        def _calculate_field(self, bunches):
            log.add('update', f=self.idx, t=float(self.t),
                    pd=[float(b.prop_distance) for b in bunches],
                    nb=len(bunches))

        def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
            log.add('gather', f=self.idx, t=float(t))
            ez += self.amp
    return RecField


def patch_diag(log, tmpdir):
    d = W.OpenPMDDiagnostics if hasattr_wake('OpenPMDDiagnostics') else imp(
        'wake_t.diagnostics', 'OpenPMDDiagnostics')
    diag = d(write_dir=tmpdir)

    def write(*a, **kw):
        t = a[0] if a else kw.get('time', kw.get('t'))
        log.add('diag', t=float(t))

    orig = diag.increase_z_pos

    def inc(dist):
        log.add('zpos', dist=float(dist))
        orig(dist)
    diag.write_diagnostics = write
    diag.increase_z_pos = inc
    return diag


def hasattr_wake(n):
    import wake_t
    return hasattr(wake_t, n)


def gen_dt(rng, T):
    """Time step for a transit time T, biased to the awkward values."""
    kind = rng.choice(['frac', 'exact', 'over', 'equal', 'near', 'tiny',
                       'huge', 'auto', 'auto_state'])
    if kind == 'frac':
        v = T * rng.uniform(0.03, 0.97)
    elif kind == 'exact':
        v = T / int(rng.integers(2, 40))
    elif kind == 'over':
        v = T * rng.uniform(1.01, 3)
    elif kind == 'equal':
        v = T
    elif kind == 'near':
        v = T / int(rng.integers(1, 9)) * (1 + rng.choice([-1, 1]) * 10.**-int(
            rng.integers(3, 16)))
    elif kind == 'tiny':
        v = T / int(rng.integers(100, 400))
    elif kind == 'huge':
        v = T * 1e6
    else:
        v = None
    return str(kind), v


def gen_config(rng, max_bunches=3, max_fields=2, n_part=(1, 8)):
    """One random tracking configuration (plain data)."""
    L = float(10.**rng.uniform(-5, 1))
    T = L / ct.c
    nb = int(rng.integers(0, max_bunches + 1))
    cfg = dict(L=L, n_out=int(rng.choice([1, 1, 2, 3, 4, 5, 7, 10, 13])),
               pusher=str(rng.choice(['boris', 'rk4'])),
               before=bool(rng.random() < 0.6),
               via=str(rng.choice(['element', 'element', 'stage', 'tracker'])),
               bunches=[], fields=[])
    for i in range(nb):
        kind, v = gen_dt(rng, T)
        cfg['bunches'].append(dict(
            kind=kind, dt=v, auto0=float(T * 10.**rng.uniform(-1.6, .2)),
            autok=float(rng.choice([0., 0.5, 3., -0.5, -0.9])),
            n=int(rng.integers(n_part[0], n_part[1] + 1)),
            pd0=float(rng.choice([0., 0., 0.3, 12.]))))
    for i in range(int(rng.integers(0, max_fields + 1))):
        k = rng.choice(['frac', 'exact', 'over', 'equal', 'tiny'])
        v = dict(frac=T * rng.uniform(0.03, 0.97),
                 exact=T / int(rng.integers(2, 30)),
                 over=T * rng.uniform(1.01, 2), equal=T,
                 tiny=T / int(rng.integers(50, 90)))[str(k)]
        cfg['fields'].append(dict(dt=float(v), even=bool(rng.random() < 0.5)))
    if cfg['n_out'] == 1 and nb and rng.random() < 0.15:
        cfg['n_out'] = int(rng.integers(15, 40))
    return cfg


def auto_function(cfg):
    """Adaptive step that really depends on the state of the bunch."""
    T = cfg['L'] / ct.c
    bs = cfg['bunches']

    def auto(b):
        c = bs[b.idx]
        s = (b.prop_distance - c['pd0']) / cfg['L']
        f = c['auto0'] * (1 + c['autok'] * s)
        return max(f, T / 60)
    return auto


def run_config(cfg, rng, log, tmpdir=None, amp=0.):
    """Build the objects of a configuration, track, return what came out."""
    B, F = rec_bunch_cls(log), rec_field_cls(log)
    L, T = cfg['L'], cfg['L'] / ct.c
    bunches, dts = [], []
    for i, c in enumerate(cfg['bunches']):
        a = bunch_arrays(rng, c['n'], pz=float(10**rng.uniform(0.5, 4)))
        b = B(**a, prop_distance=c['pd0'], name=f'b{i}')
        b.idx = i
        bunches.append(b)
        dts.append('auto' if c['dt'] is None else c['dt'])
    auto = auto_function(cfg)
    for b, c in zip(bunches, cfg['bunches']):
        if c['dt'] is None:
            b.auto_f = auto
    fields = []
    for i, c in enumerate(cfg['fields']):
        f = F(dt_update=c['dt'], force_even_updates=c['even'])
        f.idx = i
        f.amp = amp
        fields.append(f)
    if cfg.get('used_before') and fields:
        # the same field objects have served an element of another length
        imp('wake_t.beamline_elements', 'FieldElement')(
            length=L * cfg['used_before'], dt_bunch=[], fields=fields,
            n_out=1).track([], show_progress_bar=False)
        log.ev.clear()
    initial = [state(b).copy() for b in bunches]
    diag = patch_diag(log, tmpdir) if tmpdir else None
    if cfg['via'] == 'tracker':
        Tracker = imp('wake_t.tracking.tracker', 'Tracker')
        tr = Tracker(
            t_final=T, bunches=bunches, dt_bunches=dts, fields=fields,
            n_diags=cfg['n_out'], opmd_diags=diag, auto_dt_bunch_f=auto,
            bunch_pusher=cfg['pusher'],
            push_bunches_before_diags=cfg['before'], show_progress_bar=False)
        out = tr.do_tracking()
    else:
        if cfg['via'] == 'element':
            el = imp('wake_t.beamline_elements', 'FieldElement')(
                length=L, dt_bunch=dts, bunch_pusher=cfg['pusher'],
                n_out=cfg['n_out'], fields=fields, auto_dt_bunch=auto,
                push_bunches_before_diags=cfg['before'])
        else:
            el = W.PlasmaStage(
                length=L, density=1e23, wakefield_model=None,
                bunch_pusher=cfg['pusher'], dt_bunch=dts,
                push_bunches_before_diags=cfg['before'], n_out=cfg['n_out'],
                external_fields=fields)
            el.auto_dt_bunch = auto
        out = el.track(bunches, opmd_diag=diag if diag else False,
                       show_progress_bar=False)
        if len(bunches) == 1:
            out = [out]
    return bunches, fields, out, initial
