"""P26: the bunch analysis reports the moments of the bunch."""
import os
import shutil
import tempfile
import numpy as np
import scipy.constants as ct
from common import W, imp, make_bunch, bunch_arrays, state

PROPERTY = 'P26'
RULE = ('Random correlated bunches with unequal weights, offsets and chirps, '
        'of both charge signs, analysed alone, as lists (any order and '
        'length, also snapshots of a tracking) and with several slicings; '
        'every reported value is recomputed from the particles. Parameter '
        'files are written and read back. Non-trivial: unequal weights and '
        'correlations; distinct by bunch.')
ASSUMPTIONS = ['Emittances are computed by the library in single precision '
               'and with a sample-size correction; the tolerance covers '
               'both.']
MIN_EVENTS = {'monitor:moments': 300, 'monitor:slices': 60,
              'monitor:list': 30, 'monitor:params_file': 20,
              'monitor:bunch_file': 20, 'monitor:untouched': 30,
              'monitor:tracked': 4}
BUDGET = {'quick': 120., 'thorough': 1200.}
KEYS = ('prop_dist', 'theta_x', 'theta_y', 'x_avg', 'y_avg', 'sigma_x',
        'sigma_y', 'sigma_z', 'alpha_x', 'alpha_y', 'beta_x', 'beta_y',
        'gamma_x', 'gamma_y', 'emitt_x', 'emitt_y', 'avg_slice_emitt_x',
        'avg_slice_emitt_y', 'avg_ene', 'rel_ene_spread',
        'avg_slice_rel_ene_spread', 'i_peak', 'q_tot')


def gen(rng, n):
    a = bunch_arrays(rng, n, size=float(10**rng.uniform(-6, -4)),
                     xi_c=float(rng.normal() * 1e-4),
                     sxi=float(10**rng.uniform(-6, -4)),
                     pz=float(10**rng.uniform(1.5, 4)),
                     q=float(10**rng.uniform(-13, -9)),
                     div=float(10**rng.uniform(-4, -2)))
    sx, sp = np.std(a['x']), np.std(a['px'])
    a['px'] = a['px'] + rng.normal() * sp / sx * a['x'] + rng.normal() * sp
    a['py'] = a['py'] + rng.normal() * np.std(a['py']) / np.std(
        a['y']) * a['y'] + rng.normal() * sp
    a['x'] = a['x'] + rng.normal() * sx
    a['y'] = a['y'] + rng.normal() * sx
    # centroid and angle wiggling along the bunch: what a slice shows depends
    # on its length
    u = (a['xi'] - np.mean(a['xi'])) / np.std(a['xi'])
    for c in 'xy':
        if rng.random() < .7:
            f = rng.uniform(.5, 4, 2)
            a[c] = a[c] + 2 * sx * np.sin(f[0] * u + rng.normal())
            a['p' + c] = a['p' + c] + 2 * sp * np.sin(
                f[1] * u + rng.normal())
    a['pz'] = a['pz'] * (1 + .03 * rng.normal() * (
        a['xi'] - np.mean(a['xi'])) / np.std(a['xi']))
    return a


def mine(a, q, pd, n_sl, len_sl):
    w = a['w']
    av = lambda v, s=slice(None): np.sum(v[s] * w[s]) / np.sum(w[s])  # noqa
    sd = lambda v, s=slice(None): np.sqrt(  # noqa
        av((v - av(v, s))**2, s))
    g = np.sqrt(1 + a['px']**2 + a['py']**2 + a['pz']**2)

    def emit(u, v, s=slice(None)):
        du, dv = u - av(u, s), v - av(v, s)
        d = av(du**2, s) * av(dv**2, s) - av(du * dv, s)**2
        return np.sqrt(max(d, 0.))
    r = dict(prop_dist=pd, x_avg=av(a['x']), y_avg=av(a['y']),
             sigma_x=sd(a['x']), sigma_y=sd(a['y']), sigma_z=sd(a['xi']),
             avg_ene=av(g), rel_ene_spread=sd(g) / av(g),
             q_tot=np.sum(w) * q, theta_x=av(a['px']) / av(g),
             theta_y=av(a['py']) / av(g))
    for c in 'xy':
        x, p = a[c], a['p' + c]
        xp = p / a['pz']
        e = emit(x, xp)
        r['emitt_' + c] = emit(x, p)
        r['beta_' + c] = sd(x)**2 / e
        r['alpha_' + c] = -(av(x * xp) - av(x) * av(xp)) / e
        r['gamma_' + c] = sd(xp)**2 / e
    z = a['xi']
    if len_sl is not None:
        n_sl = int(np.round((z.max() - z.min()) / len_sl))
    ed = np.linspace(z.min(), z.max(), n_sl + 1)
    k = np.clip(np.searchsorted(ed, z, 'left') - 1, 0, n_sl - 1)
    W_, S, EX, EY, Q = [np.zeros(n_sl) for _ in range(5)]
    for j in range(n_sl):
        s = k == j
        if not np.any(s):
            continue
        W_[j] = np.sum(w[s])
        S[j] = sd(g, s) / av(g, s)
        EX[j], EY[j] = emit(a['x'], a['px'], s), emit(a['y'], a['py'], s)
        Q[j] = np.sum(w[s]) * abs(q)
    r['avg_slice_rel_ene_spread'] = np.sum(S * W_) / np.sum(W_)
    r['avg_slice_emitt_x'] = np.sum(EX * W_) / np.sum(W_)
    r['avg_slice_emitt_y'] = np.sum(EY * W_) / np.sum(W_)
    r['i_peak'] = np.max(Q) * ct.c / (ed[1] - ed[0])
    r['_q'] = np.max(w) * abs(q) * ct.c / (ed[1] - ed[0])
    return r


def compare(ctx, got, a, ref, n_sl):
    n = len(a['w'])
    ctx.check('keys', sorted(got) == sorted(KEYS), got=sorted(got))
    for c in KEYS:
        w, g = ref[c], float(got[c])
        tol = 1e-9 * abs(w)
        if c in ('x_avg', 'y_avg'):
            tol = 1e-9 * ref['sigma_' + c[0]]
        if c.startswith('theta'):
            tol = 1e-9 * abs(w) + 1e-12
        if c[:2] in ('al', 'be', 'ga', 'em'):
            al = ref['alpha_' + c[-1]]
            # single precision, and 1/(1-1/n_eff)
            tol = (3. / n + 1e-4 * (1 + al**2)) * (
                abs(w) + (1 if c[0] == 'a' else 0))
        mon = 'moments'
        if c.startswith('avg_slice'):
            mon = 'slices'
            tol = abs(w) * ((0. if 'ene' in c else .02) + 6. * n_sl / n)
        if c == 'i_peak':
            mon, tol = 'slices', ref['_q'] * 2.01 + 1e-9 * w
        ctx.close(mon, abs(g - w), tol, key=c, got=g, want=w)


def w_all(ctx):
    A = imp('wake_t.diagnostics.bunch_analysis')
    for i, rng in ctx.cases(ctx.n(90, 500)):
        nb = int(rng.integers(1, 5))
        n_sl = int(rng.choice([5, 10, 20]))
        use_len = bool(rng.random() < .3)
        default = i % 6 == 5
        if default:
            n_sl, use_len = 50, False
        with ctx.case(n_bunches=nb, n_slices=n_sl, use_len=use_len):
            arr, bs, qs = [], [], []
            for j in range(nb):
                a = gen(rng, int(rng.integers(2000, 6000)))
                q = (-ct.e, ct.e)[int(rng.integers(2))]
                b = make_bunch(a, q_species=q,
                               prop_distance=float(rng.uniform(0, 9)))
                arr.append(a)
                bs.append(b)
                qs.append(q)
            st = [state(b) for b in bs]
            kw = {} if default else dict(n_slices=n_sl)
            if use_len:
                kw = dict(n_slices=3, len_slice=float(
                    (arr[0]['xi'].max() - arr[0]['xi'].min()) / n_sl * 1.01))
                if rng.random() < .5:
                    kw.pop('n_slices')
                bs, arr, qs, st = bs[:1], arr[:1], qs[:1], st[:1]
            single = []
            for a, b, q in zip(arr, bs, qs):
                got = A.analyze_bunch(b, **kw)
                single.append(got)
                ref = mine(a, q, b.prop_distance, n_sl,
                           kw.get('len_slice'))
                compare(ctx, got, a, ref, n_sl)
            lst = A.analyze_bunch_list(bs, **kw)
            ctx.check('list', sorted(lst) == sorted(KEYS) and all(
                np.array_equal(np.asarray(lst[k], float), np.array(
                    [s[k] for s in single], float)) for k in KEYS))
            ctx.check('untouched', all(np.array_equal(
                state(b), s) for b, s in zip(bs, st)))
            tmp = tempfile.mkdtemp(prefix='p26_')
            try:
                d = os.path.join(tmp, 'new', 'dir')
                par = lst if rng.random() < .5 else single[0]
                A.save_parameters_to_file(par, d, 'par')
                back = A.read_parameters_from_file(os.path.join(d, 'par.h5'))
                ctx.check('params_file', sorted(back) == sorted(par) and all(
                    np.array_equal(np.asarray(back[k]), np.asarray(par[k]))
                    for k in par))
                import h5py
                A.save_bunch_to_file(bs[0], d, 'bunch')
                with h5py.File(os.path.join(d, 'bunch.h5'), 'r') as f:
                    ctx.check('bunch_file', all(np.array_equal(
                        f[c][()], getattr(bs[0], c)) for c in (
                            'x', 'y', 'xi', 'px', 'py', 'pz', 'q'))
                        and f.attrs['prop_dist'] == bs[0].prop_distance)
            finally:
                shutil.rmtree(tmp)
            ctx.nontrivial([arr[0]['w'][0]])
    for i, rng in ctx.cases(ctx.n(5, 60)):
        with ctx.case(what='tracked'):
            a = gen(rng, 3000)
            b = make_bunch(a)
            b.px -= np.average(b.px, weights=b.w)
            L = float(rng.uniform(.1, 1))
            out = W.Drift(L, n_out=5).track(b, out_initial=True,
                                            show_progress_bar=False)
            r = A.analyze_bunch_list(out, n_slices=10)
            # free drift: size follows from the initial Twiss parameters
            ctx.close('tracked', np.max(np.abs(
                np.asarray(r['prop_dist']) - np.linspace(0, L, 6))), 1e-9)
            e0 = r['sigma_y'][0]**2 / r['beta_y'][0]
            want = np.sqrt(e0 * (
                r['beta_y'][0] - 2 * r['alpha_y'][0] * r['prop_dist']
                + r['gamma_y'][0] * r['prop_dist']**2))
            ctx.close('tracked', np.max(np.abs(
                r['sigma_y'] / want - 1)), .03)


SHARDS = {'analysis': w_all}
