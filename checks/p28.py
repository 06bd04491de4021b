"""P28: phase-space representations of a bunch are equivalent."""
import numpy as np
import scipy.constants as ct
from common import W, imp, make_bunch, bunch_arrays, state, COMP, gamma

PROPERTY = 'P28'
RULE = ('Random bunches (low to high energy, both charge signs, unequal '
        'weights) converted to every matrix form of the package and back, '
        'from any reference energy and rotated by any angle; each matrix is '
        'also recomputed from its documented definition, and the particles, '
        'weights, charge and energies compared. Non-trivial: different '
        'weights and momenta; distinct by bunch.')
ASSUMPTIONS = ['Forward moving particles (pz > 0), which the reduced forms '
               'assume.']
MIN_EVENTS = {'monitor:standard': 60, 'monitor:alternative': 60,
              'monitor:ocelot': 60, 'monitor:rotation': 60,
              'monitor:charge': 60, 'monitor:reposition': 60,
              'monitor:constructor': 60}
ORD = ('x', 'px', 'y', 'py', 'xi', 'pz')


def err(b, a, tol_p=None):
    e = 0.
    g = np.max(a['pz'])
    for c in COMP:
        s = g if c[0] == 'p' else np.max(np.abs(a[c]))
        e = max(e, np.max(np.abs(np.asarray(getattr(b, c)) - a[c])) / s)
    return e


def w_all(ctx):
    M = imp('wake_t.utilities.bunch_manipulation')
    PB = W.ParticleBunch
    for i, rng in ctx.cases(ctx.n(400, 3000)):
        n = int(rng.integers(2, 200))
        pz = float(10**rng.uniform(0, 4))
        a = bunch_arrays(rng, n, pz=pz, spread=.1, div=.05, size=1e-5)
        q, m = ((-ct.e, ct.m_e), (ct.e, ct.m_e), (2 * ct.e, 6.6e-27))[
            int(rng.integers(3))]
        gr = float(np.sqrt(1 + pz**2) * rng.uniform(.5, 1.5) + .2)
        ang = float(rng.uniform(-1, 1))
        with ctx.case(n=n, pz=pz, q=q, gamma_ref=gr, angle=ang):
            b = make_bunch(a, q_species=q, m_species=m)
            kw = dict(q_species=q, m_species=m)
            P = np.array([a[c] for c in ORD])
            g = gamma(b)
            ga = np.sum(g * a['w']) / np.sum(a['w'])
            # standard form
            S = b.get_6D_matrix()
            ctx.check('standard', np.array_equal(S, P))
            ctx.check('standard', np.array_equal(
                b.get_6D_matrix_with_charge(), np.vstack([P, a['w'] * q])))
            S[:] = 7.
            ctx.check('standard', err(b, a) == 0., what='aliasing')
            c = PB(a['w'].copy(), bunch_matrix=P.copy(), **kw)
            ctx.check('constructor', err(c, a) == 0. and np.array_equal(
                c.w, a['w']))
            c = make_bunch(bunch_arrays(rng, n), **kw)
            c.set_phase_space_from_matrix(P.copy())
            ctx.check('standard', err(c, a) == 0.)
            c = make_bunch(bunch_arrays(rng, n), **kw)
            c.set_phase_space(*[a[k].copy() for k in COMP])
            ctx.check('standard', err(c, a) == 0.)
            # with charge
            c = make_bunch(bunch_arrays(rng, n), **kw)
            B = b.get_bunch_matrix()
            ctx.check('charge', np.array_equal(B, np.array(
                [a[k] for k in COMP] + [a['w'] * q])))
            c.set_bunch_matrix(B.copy())
            ctx.check('charge', err(c, a) == 0. and np.allclose(
                c.w, a['w'], rtol=1e-12))
            ctx.check('charge', np.allclose(b.q, a['w'] * q, rtol=1e-14))
            f = float(rng.uniform(.1, 9))
            c.q = b.q * f
            ctx.close('charge', np.max(np.abs(c.w / a['w'] / f - 1)), 1e-12)
            c.q = -b.q  # only the magnitude counts
            ctx.close('charge', np.max(np.abs(c.w / a['w'] - 1)), 1e-12)
            # alternative form
            A, g0 = b.get_alternative_6D_matrix()
            pk = np.sqrt(g**2 - 1)
            D = np.array([a['x'], a['px'] / pk, a['y'], a['py'] / pk,
                          a['xi'], (g - ga) / ga])
            ctx.close('alternative', abs(g0 / ga - 1), 1e-12)
            ctx.close('alternative', np.max(np.abs(A - D) / (
                np.max(np.abs(D), axis=1, keepdims=True) + 1e-300)), 1e-9)
            e_tol = 1e-7 * (1 + 1 / pz)**2
            c = PB(a['w'].copy(), bunch_matrix=A.copy(),
                   matrix_type='alternative', gamma_ref=g0, **kw)
            ctx.close('constructor', err(c, a), e_tol)
            D[5] = (g - gr) / gr
            c = PB(a['w'].copy(), bunch_matrix=D.copy(),
                   matrix_type='alternative', gamma_ref=gr, **kw)
            ctx.close('constructor', err(c, a), e_tol)
            # transfer-map form
            for ref in (None, gr):
                O, gg = M.convert_to_ocelot_matrix(
                    P.copy(), a['w'], *(() if ref is None else (ref,)))
                r = ga if ref is None else ref
                br = np.sqrt(1 - r**-2)
                D2 = np.array([a['x'], a['px'] / (r * br), a['y'],
                               a['py'] / (r * br), -a['xi'],
                               (g - r) / (r * br)])
                ctx.close('ocelot', abs(gg / r - 1), 1e-12)
                ctx.close('ocelot', np.max(np.abs(O - D2) / np.max(
                    np.abs(D2), axis=1, keepdims=True)), 1e-9)
                back = M.convert_from_ocelot_matrix(O, gg)
                c.set_phase_space_from_matrix(back)
                ctx.close('ocelot', err(c, a), e_tol)
            # rotations
            R = M.rotation_matrix_xz(ang)
            Q = R @ P
            ctx.close('rotation', np.max(np.abs(
                R @ M.rotation_matrix_xz(-ang) - np.eye(6))), 1e-12)
            sc = np.max(np.abs(P), axis=1)
            ctx.close('rotation', max(
                np.max(np.abs(Q[0]**2 + Q[4]**2 - P[0]**2 - P[4]**2)) / max(
                    sc[0], sc[4])**2,
                np.max(np.abs(Q[1]**2 + Q[5]**2 - P[1]**2 - P[5]**2))
                / sc[5]**2, np.max(np.abs(Q[2:4] - P[2:4]))), 1e-12)
            # a particle flying along z flies at +angle towards +x
            v = R @ np.array([0, 0, 0, 0, 1., 1.])
            ctx.close('rotation', np.max(np.abs(v - [
                np.sin(ang), np.sin(ang), 0, 0, np.cos(ang),
                np.cos(ang)])), 1e-12)
            # repositioning
            x0 = float(rng.normal())
            b.reposition_xi(x0)
            sh = x0 - np.sum(a['xi'] * a['w']) / np.sum(a['w'])
            ctx.close('reposition', np.max(np.abs(
                b.xi - a['xi'] - sh)), 1e-13)
            ctx.check('reposition', all(np.array_equal(
                getattr(b, k), a[k]) for k in COMP if k != 'xi'))
            b.increase_prop_distance(.7)
            b.increase_prop_distance(.2)
            ctx.close('reposition', abs(b.prop_distance - .9), 1e-12)
            ctx.nontrivial([a['w'][0]])


SHARDS = {'conversions': w_all}
