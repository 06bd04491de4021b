"""P23: the openPMD output is a faithful record of the simulation."""
import os
import shutil
import tempfile
import numpy as np
import scipy.constants as ct
from common import W, imp, make_bunch, bunch_arrays, state, COMP

PROPERTY = 'P23'
RULE = ('Random beamlines of field elements (plasma lens, field quadrupole, '
        'blowout, cold fluid and quasi-static stages with and without laser), '
        'and transfer-map elements, with 1-3 bunches of several species, '
        'tracked with openPMD output as beamline, element by element with a '
        'shared or a new writer, or with output off. All files are read back '
        'raw (h5py) and every record compared with the returned snapshots, '
        'with the fields gathered at the nodes at the moment of writing and '
        'with the laser envelope. Non-trivial: at least two elements or a '
        'grid field; distinct by beamline.')
ASSUMPTIONS = ['Transfer-map elements take one bunch.']
MIN_EVENTS = {'monitor:files': 20, 'monitor:time': 100,
              'monitor:particles': 150, 'monitor:species_attrs': 150,
              'monitor:grid': 30, 'monitor:E_B': 30, 'monitor:rho': 30,
              'monitor:laser': 8, 'monitor:passive': 15,
              'monitor:duplicate_refused': 4, 'previous_output': 5, 'monitor:location': 15}
BUDGET = {'quick': 150., 'thorough': 1500.}
SPECIES = ((-ct.e, ct.m_e), (ct.e, ct.m_e), (ct.e, ct.m_p),
           (2 * ct.e, 4 * ct.m_p))


def gen_el(rng, kind, model):
    L = float(rng.uniform(1e-3, 1e-2))
    n_out = int(rng.integers(1, 4))
    if kind != 'tm' and rng.random() < .2:
        n_out = 0
    d = dict(kind=kind, L=L, n_out=n_out)
    if kind == 'tm':
        d.update(tm=('Drift', 'Quadrupole', 'Dipole')[int(rng.integers(3))],
                 n_out=None if rng.random() < .35 else n_out,
                 L=float(rng.uniform(.05, .5)))
    if kind == 'stage':
        d.update(n=float(10**rng.uniform(22.5, 23.5)), model=model,
                 n_xi=int(rng.integers(12, 30)), n_r=int(rng.integers(8, 20)),
                 laser=bool(rng.random() < .6), pol=(
                     'linear', 'circular')[int(rng.integers(2))],
                 l_0=float(rng.uniform(.6e-6, 1.2e-6)),
                 sub=bool(rng.random() < .4),
                 prof=float(rng.uniform(-.4, .4)),
                 nup=float(rng.uniform(.7, 5)))
    return d


def build(d, rng_l=None):
    L, n = d['L'], d['n_out']
    dt = L / ct.c / 3.7
    if d['kind'] == 'tm':
        kw = dict(Drift={}, Quadrupole=dict(k1=3.), Dipole=dict(theta=.1))[
            d['tm']]
        return getattr(W, d['tm'])(L, n_out=n, **kw)
    if d['kind'] == 'lens':
        return W.ActivePlasmaLens(L, 300., dt_bunch=dt, n_out=n)
    if d['kind'] == 'quad':
        return imp('wake_t.beamline_elements', 'FieldQuadrupole')(
            L, 20., dt_bunch=dt, n_out=n)
    if d['kind'] == 'blowout':
        return W.PlasmaStage(L, 1e22, 'focusing_blowout', dt_bunch=dt,
                             n_out=n)
    kw = dict(xi_max=3e-5, xi_min=-1e-4, r_max=9e-5, n_xi=d['n_xi'],
              n_r=d['n_r'], dz_fields=L / d['nup'], dt_bunch=dt, n_out=n)
    if d['model'] == 'quasistatic_2d':
        kw['ppc'] = 1
    if d['laser']:
        kw['laser'] = W.GaussianPulse(
            0., a_0=.8, w_0=3e-5, tau=3e-14, l_0=d['l_0'],
            polarization=d['pol'])
        if d['sub']:
            kw.update(laser_envelope_nxi=d['n_xi'] * 2,
                      laser_envelope_nr=d['n_r'] + 3)
    dens = (lambda z, n=d['n'], p=d['prof'], L=L: n * (1 + p * z / L))
    return W.PlasmaStage(L, dens, d['model'], **kw)


# record: (openPMD unitDimension, macroWeighted, weightingPower)
SPEC_ATTRS = [
    ('position', [1, 0, 0, 0, 0, 0, 0], 0, 0.),
    ('positionOffset', [1, 0, 0, 0, 0, 0, 0], 0, 0.),
    ('momentum', [1, 1, -1, 0, 0, 0, 0], 0, 1.),
    ('charge', [0, 0, 1, 1, 0, 0, 0], 0, 1.),
    ('mass', [0, 1, 0, 0, 0, 0, 0], 0, 1.),
    ('weighting', None, 1, 1.)]
MESH_DIM = dict(E=[1, 1, -3, -1, 0, 0, 0], B=[0, 1, -2, -1, 0, 0, 0],
                rho=[-3, 0, 1, 1, 0, 0, 0])


def attr(o, k):
    v = o.attrs[k]
    if isinstance(v, bytes):
        v = v.decode()
    return v


def read(o):
    """Array of a record component, also if stored as a constant."""
    import h5py
    if isinstance(o, h5py.Dataset):
        return o[()] * float(np.ravel(o.attrs.get('unitSI', 1.))[0])
    return float(np.ravel(o.attrs['value'])[0]) * float(
        np.ravel(o.attrs.get('unitSI', 1.))[0])


def spy(diag, rec):
    real = diag.write_diagnostics

    def write(time, dt, species_list=[], fields=[]):
        e = []
        for f in fields:
            if not hasattr(f, 'n_xi'):
                continue
            xi = np.linspace(f.xi_min, f.xi_max, f.n_xi)
            r = (np.arange(f.n_r) + .5) * f.r_max / f.n_r
            Z, R = np.meshgrid(xi, r * (1 - 1e-13), indexing='ij')
            Z = np.clip(Z.ravel(), f.xi_min, f.xi_max)
            A = [np.zeros(Z.size) for _ in range(6)]
            f.gather(R.ravel(), np.zeros(Z.size), Z, 0., *A)
            A = [a.reshape(f.n_xi, f.n_r) for a in A]
            las = getattr(f, 'laser', None)
            e.append(dict(
                A=A, rho=f.rho[2:-2, 2:-2].copy(), n_p=f.n_p, xi=xi, r=r,
                laser=None if las is None else las.get_envelope().copy(),
                pol=las and las.polarization, l_0=las and las.l_0))
        rec.append(e)
        return real(time, dt, species_list, fields)
    diag.write_diagnostics = write


def n_files(e):
    """Outputs of an element: field elements add one at the entrance."""
    return (e['n_out'] or 0) + (1 if e['kind'] != 'tm' and e['n_out'] else 0)


def judge(ctx, d, els, snaps, rec, names, z0=0.):
    """d: directory; snaps[j]: list per bunch of snapshots of element j."""
    import h5py
    h5 = os.path.join(d, 'hdf5')
    files = sorted(os.listdir(h5)) if os.path.exists(h5) else []
    want = sum(n_files(e) for e in els)
    if not ctx.check('files', files == [
            f'data{i:08d}.h5' for i in range(want)], got=files, want=want):
        return
    i, s0 = 0, z0
    for e, sn in zip(els, snaps):
        if e['kind'] == 'tm':
            pos = [] if not e['n_out'] else [
                e['L'] * (k + 1) / e['n_out'] for k in range(e['n_out'])]
        else:
            pos = [e['L'] * k / e['n_out'] for k in range(n_files(e))]
        for k, p in enumerate(pos):
            with h5py.File(os.path.join(d, 'hdf5', files[i]), 'r') as f:
                ok = list(f['data'].keys()) == [str(i)]
                ctx.check('files', ok, got=list(f['data'].keys()))
                it = f['data'][str(i)]
                t = float(it.attrs['time']) * float(it.attrs['timeUnitSI'])
                tt = (s0 + p) / ct.c
                ctx.close('time', abs(t - tt), 1e-6 * e['L'] / ct.c
                          / max(1, e['n_out']) + 1e-12 * tt, el=e['kind'],
                          got=t * ct.c, want=s0 + p)
                ctx.close('dt', abs(float(it.attrs['dt']) / (
                    e['L'] / e['n_out'] / ct.c) - 1), 1e-9)
                P = it[attr(f, 'particlesPath')]
                ctx.check('particles', sorted(P.keys()) == sorted(
                    s[k].name for s in sn), got=sorted(P.keys()))
                for s in sn:
                    b = s[k]
                    g = P[b.name]
                    ok = True
                    for c, v in zip('xyz', (b.x, b.y, b.xi)):
                        ok &= np.array_equal(read(g['position'][c]), v)
                    ctx.check('particles', ok, what='position', el=e, k=k)
                    err = 0.
                    for c, v in zip('xyz', (b.px, b.py, b.pz)):
                        v = v * b.m_species * ct.c
                        err = max(err, np.max(np.abs(
                            read(g['momentum'][c]) - v)
                            / (np.abs(v) + 1e-300)))
                    ctx.close('particles', err, 1e-14, what='momentum')
                    ctx.check('particles', np.array_equal(
                        read(g['weighting']), b.w), what='weights')
                    ctx.check('species_attrs', read(
                        g['charge']) == b.q_species and read(
                        g['mass']) == b.m_species)
                    ctx.close('offset', max(
                        abs(read(g['positionOffset']['z']) - (s0 + p)),
                        abs(read(g['positionOffset']['x'])),
                        abs(read(g['positionOffset']['y']))),
                        1e-6 * e['L'] + 1e-12 * s0, s0=s0, p=p)
                    # what a reader needs to turn the records into one real
                    # particle in SI units: dimension, whether the record is
                    # already summed over the macroparticle, and its power
                    for q, dim, mw, wp in SPEC_ATTRS:
                        a = g[q].attrs
                        ctx.check('species_attrs', (dim is None or np.allclose(
                            a['unitDimension'], dim))
                            and int(a['macroWeighted']) == mw
                            and float(a['weightingPower']) == wp, record=q,
                            got={k: a[k] for k in a.keys()})
                r = rec[i]
                m = attr(f, 'meshesPath')
                if not r:
                    ctx.check('grid', m not in it or len(it[m]) == 0
                              or e['kind'] == 'tm')
                for fr in r:
                    M = it[m]
                    dr, dz = fr['r'][1] - fr['r'][0], fr['xi'][1] - fr[
                        'xi'][0]
                    for nm in M.keys():
                        a = M[nm].attrs
                        off = np.array(a['gridGlobalOffset'])
                        o = M[nm]
                        lab = [x.decode() if isinstance(x, bytes) else x
                               for x in a['axisLabels']]
                        cell = np.array(
                            (o['r'] if nm in 'EB' else o).attrs['position'])
                        ok = (np.allclose(a['gridSpacing'], [dr, dz],
                                          rtol=1e-9)
                              and lab == ['r', 'z']
                              and abs(off[0] + cell[0] * dr
                                      - fr['r'][0]) < 1e-9 * dr
                              and abs(off[1] + cell[1] * dz
                                      - (s0 + p + fr['xi'][0])) < 1e-9 * (
                                          abs(s0 + p) + dz)
                              and float(np.ravel(a['gridUnitSI'])[0]) == 1.)
                        ctx.check('grid', ok, nm=nm, off=off, cell=cell,
                                  s0=s0, p=p, xi0=fr['xi'][0])
                    for nm, dim in MESH_DIM.items():
                        ctx.check('grid', np.allclose(
                            M[nm].attrs['unitDimension'], dim)
                            and attr(M[nm], 'geometry') == 'thetaMode',
                            nm=nm, got=M[nm].attrs['unitDimension'])
                    A = fr['A']
                    Z = np.zeros_like(A[0])
                    # at (x=r, y=0): e_x = E_r, b_y = B_theta
                    for nm, trip in (('E', (A[0], Z, A[2])),
                                     ('B', (Z, A[4], Z))):
                        for c, v in zip('rtz', trip):
                            got = read(M[nm][c])
                            sc = max(np.max(np.abs(A[0])),
                                     np.max(np.abs(A[2])), 1.) / (
                                         1. if nm == 'E' else ct.c)
                            if got.shape != (1,) + v.T.shape:
                                ctx.check('E_B', False, shape=got.shape)
                                continue
                            ctx.close('E_B', np.max(np.abs(
                                got[0] - v.T)) / sc, 1e-9, nm=nm + c)
                    got = read(M['rho'])[0]
                    w = -ct.e * fr['n_p'] * fr['rho'].T
                    ctx.close('rho', np.max(np.abs(got - w)) / (
                        np.max(np.abs(w)) + 1e-300), 1e-12)
                    if fr['laser'] is None:
                        ctx.check('laser', not any(
                            q in M for q in ('a', 'a_mod', 'a_phase')))
                        continue
                    a = fr['laser'].T
                    x = M['a'][()]
                    if x.dtype.names:
                        x = x['r'] + 1j * x['i']
                    ok = (np.array_equal(x[0], a)
                          and np.allclose(M['a_mod'][0], np.abs(a),
                                          rtol=1e-12)
                          and np.allclose(M['a_phase'][0], np.angle(a))
                          and attr(M['a_mod'], 'polarization') == fr['pol']
                          and abs(float(M['a'].attrs['angularFrequency'])
                                  / (2 * np.pi * ct.c / fr['l_0']) - 1)
                          < 1e-12)
                    ctx.check('laser', ok)
            i += 1
        s0 += e['L']


def run(ctx, rng, els, n_b):
    par = []
    for j in range(n_b):
        q, m = SPECIES[0 if j == 0 else int(rng.integers(4))]
        par.append((bunch_arrays(
            rng, int(rng.integers(3, 40)), size=3e-6, xi_c=-4e-5 * j,
            sxi=3e-6, q=1e-12), dict(
            q_species=q, m_species=m, name=f'beam{j}' if rng.random() < .7
            else f'sp_{int(rng.integers(1000))}_{j}')))
    mode = ('beamline', 'beamline_true', 'shared', 'each')[
        int(rng.integers(4))]
    with ctx.case(els=els, n_b=n_b, mode=mode, names=[p[1]['name']
                                                      for p in par]):
        def fresh():
            return [make_bunch(a, **k) for a, k in par]
        tmp = tempfile.mkdtemp(prefix='p23_')
        cwd = os.getcwd()
        OD = imp('wake_t.diagnostics', 'OpenPMDDiagnostics')
        try:
            wd = os.path.join(tmp, 'cwd')
            os.makedirs(wd)
            os.chdir(wd)
            out = os.path.join(tmp, 'out', 'here')
            bs = fresh()
            obj = [build(e) for e in els]
            arg = bs if n_b > 1 or rng.random() < .5 and all(
                e['kind'] != 'tm' for e in els) else bs[0]
            snaps, rec = [], []
            if rng.random() < .35:
                # the folder has the output of a previous simulation
                ctx.event('previous_output')
                b0 = fresh()
                a0 = b0 if isinstance(arg, list) else b0[0]
                if mode == 'each':
                    for j, e in enumerate(els):
                        build(e).track(a0, opmd_diag=OD(
                            write_dir=os.path.join(out, str(j))),
                            show_progress_bar=False)
                else:
                    W.Beamline([build(e) for e in els]).track(
                        a0, opmd_diag=OD(write_dir=out),
                        show_progress_bar=False)
            if mode in ('beamline', 'beamline_true'):
                diag = OD(write_dir=out)
                kw = dict(opmd_diag=diag)
                if mode == 'beamline':
                    spy(diag, rec)
                else:
                    # the writer is created inside: log through the class
                    kw = dict(opmd_diag=True, diag_dir=out)
                    init = OD.__init__

                    def patched(self, *a, **k):
                        init(self, *a, **k)
                        spy(self, rec)
                    OD.__init__ = patched
                try:
                    flat = W.Beamline(obj).track(
                        arg, show_progress_bar=False, **kw)
                finally:
                    if mode == 'beamline_true':
                        OD.__init__ = init
                pos = 0
                for e in els:
                    if n_b == 1:
                        m = n_files(e)
                        snaps.append([flat[pos:pos + m]])
                        pos += m
                    else:
                        snaps.append(flat[pos:pos + n_b])
                        pos += n_b
                ctx.check('beamline_list', pos == len(flat), n=len(flat))
                judge(ctx, out, els, snaps, rec, None)
            else:
                diag = OD(write_dir=out)
                spy(diag, rec)
                for j, (e, o) in enumerate(zip(els, obj)):
                    if mode == 'each':
                        rec = []
                        diag = OD(write_dir=os.path.join(out, str(j)))
                        spy(diag, rec)
                    sn = o.track(arg, opmd_diag=diag,
                                 show_progress_bar=False)
                    sn = [sn] if n_b == 1 else sn
                    snaps.append(sn)
                    if mode == 'each' and sum(len(s) for s in sn):
                        judge(ctx, os.path.join(out, str(j)), [e], [sn], rec,
                              None)
                if mode == 'shared':
                    judge(ctx, out, els, snaps, rec, None)
            ctx.check('location', os.listdir(wd) == [], got=os.listdir(wd))
            # writing does not influence the simulation
            b2 = fresh()
            W.Beamline([build(e) for e in els]).track(
                b2 if isinstance(arg, list) else b2[0],
                show_progress_bar=False)
            ctx.check('passive', all(
                np.array_equal(state(p), state(q)) for p, q in zip(bs, b2)))
            w = [o for o, e in zip(obj, els) if n_files(e)]
            if n_files(els[0]) == 0 and w:
                ctx.event('silent_first_element')
            if n_b > 1 and w:
                b3 = fresh()
                b3[-1].name = b3[0].name
                try:
                    w[0].track(b3, opmd_diag=True, diag_dir=os.path.join(
                        tmp, 'dup'), show_progress_bar=False)
                    ctx.check('duplicate_refused', False)
                except ValueError:
                    ctx.check('duplicate_refused', True)
            if len(els) > 1 or els[0]['kind'] == 'stage':
                ctx.nontrivial([els[0]['L']])
        finally:
            os.chdir(cwd)
            shutil.rmtree(tmp)


def w_mixed(ctx):
    for i, rng in ctx.cases(ctx.n(11, 200)):
        n_b = 1 if i % 2 == 0 else int(rng.integers(2, 4))
        kinds = ['lens', 'quad', 'blowout'] + (['tm', 'tm']
                                               if n_b == 1 else [])
        els = [gen_el(rng, str(rng.choice(kinds)), None)
               for _ in range(int(rng.integers(1, 5)))]
        if i % 3 == 2:
            # nothing is written in the first element
            els[0]['n_out'] = None if els[0]['kind'] == 'tm' else 0
        run(ctx, rng, els, n_b)


def w_model(model):
    def w(ctx):
        for i, rng in ctx.cases(ctx.n(10, 150)):
            n_b = int(rng.integers(1, 4))
            els = []
            for j in range(int(rng.integers(1, 4))):
                k = 'stage' if rng.random() < .6 or j == 0 else str(
                    rng.choice(['lens', 'tm'] if n_b == 1 else ['lens']))
                els.append(gen_el(rng, k, model))
            rng.shuffle(els)
            run(ctx, rng, els, n_b)
    return w


SHARDS = {'mixed': w_mixed, 'mixed2': w_mixed, 'fluid': w_model('cold_fluid_1d'),
          'quasistatic': w_model('quasistatic_2d')}
