"""P24: bunches survive being saved to and read from files."""
import os
import shutil
import tempfile
import numpy as np
import scipy.constants as ct
from common import W, imp, make_bunch, bunch_arrays, state

PROPERTY = 'P24'
RULE = ('Random bunches (1-2000 macroparticles with different weights, '
        'several species, names, far from or at the origin) are written in '
        'all formats and read back; written files are also read raw. Bunches '
        'are read back from the openPMD output of trackings, single- and '
        'multi-species, at any position of the beamline. Monitors compare '
        'phase space, weights, species, name and propagation distance and '
        'that saving does not touch the bunch. Non-trivial: more than one '
        'macroparticle with different weights; distinct by bunch.')
ASSUMPTIONS = ['ASTRA and CSRtrack files carry a reference particle with the '
               'average of the bunch, which stays the first particle when '
               'read, and 13 digits.',
               'ASTRA: electrons and positrons, CSRtrack: electrons.']
MIN_EVENTS = {'monitor:phase_space': 90, 'monitor:species': 90,
              'monitor:names': 60, 'monitor:untouched': 60,
              'monitor:prop_distance': 60, 'monitor:ambiguous': 10,
              'monitor:from_output': 15, 'monitor:default_names': 10}
BUDGET = {'quick': 120., 'thorough': 1200.}
SP = ((-ct.e, ct.m_e), (ct.e, ct.m_e), (ct.e, ct.m_p), (-ct.e, ct.m_p),
      (2 * ct.e, 6.6e-27))


def compare(ctx, mon, got, ref, z0, tol, first=0, **info):
    """got: read bunch, ref: dict of true arrays with absolute z."""
    n = len(ref['w'])
    if not ctx.check(mon, len(got.x) == n + first, n=len(got.x), want=n,
                     **info):
        return
    err = 0.
    for c in ('x', 'y', 'px', 'py', 'pz', 'w'):
        g, r = getattr(got, c)[first:], ref[c]
        err = max(err, np.max(np.abs(g - r)) / (np.max(np.abs(r)) + 1e-300))
    ctx.close(mon, err, tol, **info)
    # along z: relative positions kept, average moved to zero
    d = got.xi[first:] - ref['z']
    s = np.max(np.abs(ref['z'])) + 1e-300
    ctx.close(mon, np.max(np.abs(d - d[0])) / s, 3 * tol + 4e-16, z=1, **info)
    ctx.close(mon, abs(np.average(got.xi, weights=got.w)) / s, 1e-9 * tol
              + 1e-14, centre=1, **info)


def w_formats(ctx):
    save = imp('wake_t.utilities.bunch_saving', 'save_bunch_to_file')
    read = imp('wake_t.utilities.bunch_generation', 'get_from_file')
    for i, rng in ctx.cases(ctx.n(180, 1500)):
        fmt = ('openpmd', 'astra', 'csrtrack')[i % 3]
        n = int(rng.choice([1, 2, 3, 50, 700, 2000])) if fmt == 'openpmd' \
            else int(rng.choice([2, 3, 50, 700]))
        q, m = SP[int(rng.integers(5))] if fmt == 'openpmd' else (
            SP[int(rng.integers(2))] if fmt == 'astra' else SP[0])
        a = bunch_arrays(rng, n, size=float(10**rng.uniform(-7, -4)),
                         xi_c=float(rng.normal()) * 10.**rng.uniform(-6, 1),
                         sxi=float(10**rng.uniform(-7, -5)),
                         pz=float(10**rng.uniform(.5, 4)),
                         q=float(10**rng.uniform(-14, -9)))
        nm = None if rng.random() < .3 else f'n{int(rng.integers(999))}'
        sp = None if rng.random() < .5 else f's{int(rng.integers(999))}'
        rn = None if rng.random() < .5 else f'r{int(rng.integers(999))}'
        pd = bool(rng.random() < .5)
        ext = bool(rng.random() < .5)
        with ctx.case(fmt=fmt, n=n, q=q, m=m, name=nm, species_name=sp,
                      read_name=rn, preserve=pd, ext=ext):
            b = make_bunch(a, q_species=q, m_species=m, name=nm,
                           prop_distance=1.7)
            before, w0, name0 = state(b), b.w.copy(), b.name
            tmp = tempfile.mkdtemp(prefix='p24_')
            try:
                suf = dict(openpmd='.h5', astra='.ini', csrtrack='.fmt1')[fmt]
                full = os.path.join(tmp, 'bunch' + suf)
                path = full if ext or fmt == 'astra' else full[:-len(suf)]
                kw = dict(species_name=sp) if sp else {}
                save(b, fmt, path, **kw)
                ctx.check('untouched', np.array_equal(state(b), before)
                          and np.array_equal(b.w, w0) and b.name == name0
                          and b.prop_distance == 1.7)
                ctx.check('file', os.listdir(tmp) == ['bunch' + suf],
                          got=os.listdir(tmp))
                g = read(full, fmt, preserve_prop_dist=pd, name=rn)
                first = 0 if fmt == 'openpmd' else 1
                tol = 1e-14 if fmt == 'openpmd' else 3e-12
                ref = dict(x=a['x'], y=a['y'], z=a['xi'], px=a['px'],
                           py=a['py'], pz=a['pz'], w=a['w'])
                compare(ctx, 'phase_space', g, ref, 0., tol, first, fmt=fmt)
                ctx.check('species', g.q_species == q and g.m_species == m)
                if rn is not None:
                    want = rn
                elif fmt == 'openpmd':
                    want = sp or name0
                else:
                    want = None
                ctx.check('names', g.name == want if want is not None
                          else isinstance(g.name, str), got=g.name,
                          want=want)
                za = np.average(a['xi'], weights=a['w'])
                wp = za if pd else 0.
                ctx.close('prop_distance', abs(g.prop_distance - wp),
                          1e-11 * np.max(np.abs(a['xi'])) + (
                              0. if fmt == 'openpmd' else
                              1e-11 * abs(za)))
                if fmt == 'openpmd':
                    try:
                        read(full, fmt, species_name='not_there')
                        ctx.check('unknown_refused', False)
                    except (KeyError, ValueError, AssertionError):
                        ctx.check('unknown_refused', True)
                if n > 1:
                    ctx.nontrivial([fmt, a['w'][0]])
            finally:
                shutil.rmtree(tmp)
    for i, rng in ctx.cases(ctx.n(24, 100)):
        with ctx.case(what='default names'):
            a = bunch_arrays(rng, 3)
            bs = [make_bunch(a, name=None if rng.random() < .7 else 'given')
                  for _ in range(6)]
            un = [b.name for b in bs if b.name != 'given']
            cp = bs[0].copy()
            more = make_bunch(a)
            ctx.check('default_names', len(set(un)) == len(un)
                      and cp.name == bs[0].name and more.name not in un)


def w_output(ctx):
    """Read back the openPMD output of trackings."""
    read = imp('wake_t.utilities.bunch_generation', 'get_from_file')
    for i, rng in ctx.cases(ctx.n(20, 150)):
        nb = 1 + i % 3
        L = [float(rng.uniform(1e-3, .3)) for _ in range(2)]
        no = [int(rng.integers(1, 4)) for _ in range(2)]
        with ctx.case(n_bunches=nb, L=L, n_out=no):
            sp = [SP[int(rng.integers(5))] for _ in range(nb)]
            bs = [make_bunch(bunch_arrays(
                rng, int(rng.integers(2, 60)), xi_c=1e-4 * j, sxi=1e-5),
                name=f'b{j}', q_species=s[0], m_species=s[1])
                for j, s in enumerate(sp)]
            tmp = tempfile.mkdtemp(prefix='p24_')
            try:
                FE = imp('wake_t.beamline_elements', 'FieldElement')
                els = [FE(l, l / ct.c / 2.5, n_out=o, fields=[])
                       for l, o in zip(L, no)]
                out = W.Beamline(els).track(
                    bs if nb > 1 else bs[0], opmd_diag=True, diag_dir=tmp,
                    show_progress_bar=False)
                if nb == 1:
                    sn = [out]
                else:
                    sn = [out[j] + out[nb + j] for j in range(nb)]
                z = [L[0] * k / no[0] for k in range(no[0] + 1)] + [
                    L[0] + L[1] * k / no[1] for k in range(no[1] + 1)]
                for k, zk in enumerate(z):
                    f = os.path.join(tmp, 'hdf5', f'data{k:08d}.h5')
                    for j in range(nb):
                        s = sn[j][k]
                        g = read(f, 'openpmd', preserve_prop_dist=True,
                                 species_name=s.name if nb > 1
                                 or rng.random() < .5 else None)
                        ref = dict(x=s.x, y=s.y, z=s.xi + zk, px=s.px,
                                   py=s.py, pz=s.pz, w=s.w)
                        compare(ctx, 'from_output', g, ref, zk, 1e-14)
                        ctx.check('species', g.q_species == sp[j][0]
                                  and g.m_species == sp[j][1]
                                  and g.name == s.name)
                        ctx.close('prop_distance', abs(
                            g.prop_distance - zk - np.average(
                                s.xi, weights=s.w)), 1e-12 + 1e-6 * zk)
                    if nb > 1:
                        try:
                            read(f, 'openpmd')
                            ctx.check('ambiguous', False)
                        except ValueError:
                            ctx.check('ambiguous', True)
                ctx.nontrivial(['out', L])
            finally:
                shutil.rmtree(tmp)


SHARDS = {'formats': w_formats, 'output': w_output}
