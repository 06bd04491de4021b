"""Random wakefield configurations for both r-z models."""
import numpy as np
import scipy.constants as ct
from common import imp, bunch_arrays, make_bunch

NAMES = ('e_z', 'e_r', 'b_t', 'rho', 'chi')


def skin_depth(n):
    return ct.c / np.sqrt(n * ct.e**2 / (ct.m_e * ct.epsilon_0))


def grid(rng, model, mild=True):
    n_p = float(10**rng.uniform(22.5, 24.5))
    sd = skin_depth(n_p)
    k = dict(r_max=float(rng.uniform(3, 7)) * sd,
             n_r=int(rng.integers(18, 40)), n_xi=int(rng.integers(40, 90)),
             p_shape=('linear', 'cubic')[int(rng.integers(2))])
    k['xi_max'] = float(rng.uniform(-1, 3)) * sd
    k['xi_min'] = k['xi_max'] - float(rng.uniform(6, 12)) * sd
    if model == 'quasistatic_2d':
        k['ppc'] = int(rng.integers(1, 4))
        k['plasma_pusher'] = ('rk4', 'ab5')[int(rng.integers(2))]
        if rng.random() < .3:
            k['parabolic_coefficient'] = float(rng.uniform(0, .1) / sd**2)
            if rng.random() < .3:
                k['parabolic_coefficient'] = float(
                    -rng.uniform(.1, .55) / k['r_max']**2)
        if rng.random() < .3:
            k['r_max_plasma'] = float(k['r_max'] * rng.uniform(.5, .95))
    else:
        k['beam_wakefields'] = True
    return n_p, sd, k


def laser(rng, n_p, k, pos=(.15, .3), a=(.3, 1.5)):
    sd = skin_depth(n_p)
    L = k['xi_max'] - k['xi_min']
    return dict(xi_c=float(k['xi_max'] - L * rng.uniform(*pos)),
                a_0=float(rng.uniform(*a)),
                w_0=float(k['r_max'] * rng.uniform(.25, .5)),
                tau=float(sd * rng.uniform(.7, 1.5) / ct.c),
                polarization=('linear', 'circular')[int(rng.integers(2))])


def beam(rng, n_p, k, lo, hi, strength, n=None, sp=-ct.e):
    """Particles uniformly inside (lo, hi) in xi."""
    sd = skin_depth(n_p)
    n = n or int(rng.integers(100, 600))
    s_r = sd * rng.uniform(.3, .8)
    Q = strength * ct.e * n_p * 2 * np.pi * s_r**2 * (hi - lo)
    a = bunch_arrays(rng, n, size=s_r, q=Q)
    a['xi'] = rng.uniform(lo, hi, n)
    return dict(a=a, sp=sp)


def bunches(beams):
    return [make_bunch(b['a'], q_species=b['sp'], name=f'b{j}')
            for j, b in enumerate(beams)]


def stage(model, n_p, k, las=None, length=1e-3, **kw):
    kw = dict(k, **kw)
    if las is not None:
        kw['laser'] = imp('wake_t', 'GaussianPulse')(**las)
    st = dict((n, kw.pop(n)) for n in ('dt_bunch', 'bunch_pusher', 'n_out')
              if n in kw)
    st.setdefault('n_out', 1)
    return imp('wake_t', 'PlasmaStage')(length, n_p, model, **st, **kw)


def fields(model, n_p, k, las, bs, **kw):
    f = stage(model, n_p, k, las, **kw).fields[0]
    f.update(bs)
    return f


def core(f, n):
    return getattr(f, n)[2:-2, 2:-2].copy()
