"""Shared workload pieces.  wake_t is imported lazily, in the worker only."""
import numpy as np
import scipy.constants as ct


class _Lazy:
    """Attribute access imports wake_t (or a submodule path) on demand."""

    def __init__(self, path='wake_t'):
        self._path = path

    def __getattr__(self, name):
        import importlib
        mod = importlib.import_module(self._path)
        return getattr(mod, name)


W = _Lazy('wake_t')


def imp(path, name=None):
    import importlib
    m = importlib.import_module(path)
    return m if name is None else getattr(m, name)


def bunch_arrays(rng, n, size=1e-6, xi_c=0., sxi=1e-6, pz=1000., spread=0.01,
                 div=1e-3, q=1e-12):
    """Generic random phase space with no symmetry."""
    p = pz * (1 + spread * rng.standard_normal(n))
    return dict(
        w=q / ct.e / n * rng.uniform(0.5, 1.5, n),
        x=size * rng.standard_normal(n), y=size * rng.standard_normal(n),
        xi=xi_c + sxi * rng.standard_normal(n),
        px=div * pz * rng.standard_normal(n),
        py=div * pz * rng.standard_normal(n), pz=p)


def make_bunch(a, cls=None, **kw):
    cls = cls or W.ParticleBunch
    return cls(**{k: np.array(v, dtype=float) for k, v in a.items()}, **kw)


COMP = ('x', 'y', 'xi', 'px', 'py', 'pz')


def state(b):
    return np.array([getattr(b, c) for c in COMP], dtype=float)


def gamma(b):
    return np.sqrt(1 + b.px**2 + b.py**2 + b.pz**2)


def relerr(a, b, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.
    s = scale if scale is not None else np.max(np.abs(b))
    d = np.max(np.abs(a - b))
    if not np.isfinite(d):
        return np.inf
    return d / s if s > 0 else (0. if d == 0 else np.inf)


def state_err(s1, s2, scales=None):
    """Largest difference, each coordinate relative to its own scale."""
    s1, s2 = np.asarray(s1), np.asarray(s2)
    if s1.shape != s2.shape:
        return np.inf
    e = 0.
    for i in range(s1.shape[0]):
        sc = scales[i] if scales is not None else np.max(np.abs(s2[i]))
        e = max(e, relerr(s1[i], s2[i], sc if sc > 0 else 1.))
    return e
