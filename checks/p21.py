"""P21: transfer-map lattices compose, in the frame of the reference orbit."""
import contextlib
import io
import numpy as np
from common import W, imp, make_bunch, bunch_arrays, state, COMP
import tmref
from checks import p20

PROPERTY = 'P21'
RULE = ('Random lattices of 1-7 transfer-map elements (drifts, bends of both '
        'signs, quadrupoles, sextupoles, combined functions; fixed or average '
        'reference energy; orders 1 and 2; random outputs), tracked as a '
        'beamline or element by element from any initial reference frame. '
        'Every output is compared with an independent composition of the '
        'element maps placed along the geometric reference orbit; elements '
        'cut in pieces, closed chicanes are compared with '
        'the whole. Non-trivial: the lattice contains a bend and another '
        'magnet; distinct by lattice.')
ASSUMPTIONS = ['No CSR here (P22).']
MIN_EVENTS = {'monitor:coords': 100, 'monitor:frame': 100,
              'monitor:split': 30, 'monitor:chicane': 8, 'monitor:verbose': 10,
              'monitor:average_gamma': 20}


def build(kind, p, g, order, n_out):
    return p20.element(kind, p, gamma_ref=g, order=order, n_out=n_out)


class Ref:
    """Canonical coordinates along the reference orbit + geometry."""

    def __init__(self, b):
        self.x, self.a, self.s = b.x_ref, b.theta_ref, b.prop_distance
        self.w = b.w.copy()
        c, sn = np.cos(self.a), np.sin(self.a)
        X = b.x - self.x
        # local momenta/positions (m c units)
        self.u = np.array([c * X - sn * b.xi, c * b.px - sn * b.pz, b.y, b.py,
                           sn * X + c * b.xi, sn * b.px + c * b.pz])

    def gamma(self):
        u = self.u
        return np.sqrt(1 + u[1]**2 + u[3]**2 + u[5]**2)

    def step(self, p, g, order, l):
        """Advance by l inside an element with parameters p."""
        p0 = np.sqrt(g**2 - 1)
        u, gam = self.u, self.gamma()
        Z = np.array([u[0], u[1] / p0, u[2], u[3] / p0, -u[4],
                      (gam - g) / p0])
        R, T = tmref.maps(p['length'], -p['theta'], p['k1'], p['k2'], g, z=l)
        Z1 = R @ Z
        if order == 2:
            Z1 = Z1 + np.einsum('ijk,jn,kn->in', T, Z, Z)
        px, py, gam = Z1[1] * p0, Z1[3] * p0, g + p0 * Z1[5]
        self.u = np.array([Z1[0], px, Z1[2], py, -Z1[4],
                           np.sqrt(gam**2 - 1 - px**2 - py**2)])
        h = p['theta'] / p['length']
        if h == 0:
            self.x += l * np.sin(self.a)
        else:
            self.x += (np.cos(self.a) - np.cos(self.a + h * l)) / h
        self.a += h * l
        self.s += l

    def lab(self):
        c, sn = np.cos(self.a), np.sin(self.a)
        u = self.u
        return np.array([self.x + c * u[0] + sn * u[4], u[2],
                         c * u[4] - sn * u[0],
                         c * u[1] + sn * u[5], u[3],
                         c * u[5] - sn * u[1]])


def compare(ctx, b, ref, what):
    want, got = ref.lab(), state(b)
    if not np.max(np.abs(ref.u[[0, 2, 4]])) < .05:
        # the beam has blown up: rounding is amplified without bound
        ctx.event('blown_up')
        return
    sc = np.maximum(np.max(np.abs(want), axis=1), 1e-12)
    sc[[0, 2]] = max(sc[0], sc[2], 1e-4)
    sc[1] = max(sc[1], 1e-6)
    sc[3:] = np.max(np.abs(want[3:]))
    ctx.close('coords', np.max(np.abs(got - want) / sc[:, None]), 2e-8,
              what=what)
    ctx.close('frame', max(abs(b.x_ref - ref.x), abs(b.theta_ref - ref.a),
                           abs(b.prop_distance - ref.s) / (1 + ref.s)), 1e-10,
              got=[b.x_ref, b.theta_ref, b.prop_distance],
              want=[ref.x, ref.a, ref.s])


def small_bunch(rng, g, n=None):
    n = n or int(rng.integers(1, 30))
    a = bunch_arrays(rng, n, size=1e-4, sxi=1e-5, pz=np.sqrt(g * g - 1),
                     spread=.01, div=1e-4)
    return make_bunch(a)


def w_lattices(ctx):
    for i, rng in ctx.cases(ctx.n(240, 2000)):
        g0 = float(10**rng.uniform(1, 4))
        n_el = int(rng.integers(1, 8))
        lat = []
        small = float(10**rng.uniform(-4, -1)) if i % 4 == 3 else 1.
        for _ in range(n_el):
            kind = p20.KINDS[int(rng.integers(len(p20.KINDS)))]
            p, _g = p20.gen(rng, kind)
            p['length'] = float(rng.uniform(.05, .6))
            p['theta'] *= small
            p['k1'] = float(np.clip(p['k1'], -20, 20))
            p['k2'] = float(np.clip(p['k2'], -100, 100))
            gr = None if rng.random() < .5 else g0 * float(
                rng.uniform(.97, 1.03))
            lat.append((kind, p, gr, int(rng.integers(1, 3)),
                        [None, 1, int(rng.integers(2, 5))][
                            int(rng.integers(3))]))
        with ctx.case(g0=g0, lattice=[(a, c, d, e) for a, b, c, d, e in lat]):
            b = small_bunch(rng, g0)
            if rng.random() < .4:
                # arrives from an earlier part of the lattice
                b.x_ref = float(rng.uniform(-.1, .1))
                b.theta_ref = float(rng.uniform(-.5, .5)) * small
                r = Ref(b)
                r.a, r.x = b.theta_ref, b.x_ref
                r.u = np.array([b.x, b.px, b.y, b.py, b.xi, b.pz])
                l = r.lab()
                b.set_phase_space(*[np.array(v) for v in l])
            b.prop_distance = float(rng.uniform(0, 3))
            ref = Ref(b)
            els = [build(*e[:2], *e[2:]) for e in lat]
            want = []
            for kind, p, gr, order, n_out in lat:
                g = gr
                if g is None:
                    g = float(np.sum(ref.gamma() * ref.w) / np.sum(ref.w))
                    ctx.check('average_gamma', True)
                N = n_out or 1
                for _ in range(N):
                    ref.step(p, g, order, p['length'] / N)
                    if n_out is not None:
                        c = Ref.__new__(Ref)
                        c.__dict__.update(ref.__dict__)
                        want.append(c)
            mode = int(rng.integers(3))
            if mode == 0:
                outs = W.Beamline(els).track(b, show_progress_bar=False)
            elif mode == 1:
                outs = []
                for e in els:
                    outs += e.track(b, show_progress_bar=False)
            else:
                # progress output must not matter
                with contextlib.redirect_stdout(io.StringIO()):
                    try:
                        outs = W.Beamline(els).track(b)
                        ctx.check('verbose', True)
                    except Exception as e:
                        ctx.check('verbose', False, error=repr(e))
                        continue
            compare(ctx, b, ref, 'final')
            ctx.check('n_outputs', len(outs) == len(want), got=len(outs),
                      want=len(want))
            for o, r in zip(outs, want):
                compare(ctx, o, r, 'output')
            th = any(e[1]['theta'] for e in lat)
            if th and len({e[0] for e in lat}) > 1:
                ctx.nontrivial([i, n_el])


def w_relations(ctx):
    for i, rng in ctx.cases(ctx.n(40, 600)):
        g = float(10**rng.uniform(1, 4))
        kind = p20.KINDS[int(rng.integers(len(p20.KINDS)))]
        p, _ = p20.gen(rng, kind)
        p['k2'] = float(np.clip(p['k2'], -50, 50))
        with ctx.case(kind=kind, gamma=g, **p):
            b0 = small_bunch(rng, g, 20)
            TM = imp('wake_t.beamline_elements', 'TMElement')

            def cut(n, order, how):
                b = b0.copy()
                if how == 'n_out':
                    TM(**p, gamma_ref=g, order=order, n_out=n).track(
                        b, show_progress_bar=False)
                else:
                    q = dict(p, length=p['length'] / n, theta=p['theta'] / n)
                    els = [TM(**q, gamma_ref=g, order=order)
                           for _ in range(n)]
                    W.Beamline(els).track(b, show_progress_bar=False)
                return b
            n = int(rng.integers(2, 7))
            # first order: exact group property
            w = cut(1, 1, 'n_out')
            sc = np.maximum(np.max(np.abs(state(w)), axis=1), 1e-12)
            for how in ('n_out', 'pieces'):
                d = cut(n, 1, how)
                ctx.close('split', np.max(
                    np.abs(state(d) - state(w)) / sc[:, None]), 1e-9, how=how)
                ctx.close('split_frame', max(
                    abs(d.x_ref - w.x_ref), abs(d.theta_ref - w.theta_ref),
                    abs(d.prop_distance - w.prop_distance)), 1e-10)
            # second order: equal up to third order in the coordinates, and
            # the same whether cut by outputs or in pieces
            a, c = cut(n, 2, 'n_out'), cut(n, 2, 'pieces')
            ctx.close('split', np.max(
                np.abs(state(a) - state(c)) / sc[:, None]), 1e-9, how='2nd')
            # the reference orbit of a chicane of four bends closes
            th = float(rng.uniform(.02, .6) * rng.choice([-1, 1]))
            L, D = float(rng.uniform(.1, .4)), float(rng.uniform(.1, .6))
            B = lambda s: W.Dipole(L, theta=s * th, gamma_ref=g)
            dr = lambda: W.Drift(D, gamma_ref=g)
            bb = b0.copy()
            W.Beamline([B(1), dr(), B(-1), dr(), B(-1), dr(), B(1)]).track(
                bb, show_progress_bar=False)
            ctx.close('chicane', max(abs(bb.x_ref), abs(bb.theta_ref)),
                      1e-12)
            on = make_bunch({k: v[:1] for k, v in dict(
                w=b0.w, x=0 * b0.x, y=0 * b0.x, xi=0 * b0.x, px=0 * b0.x,
                py=0 * b0.x, pz=0 * b0.x + np.sqrt(g * g - 1)).items()})
            # the reference particle stays on the reference orbit
            W.Beamline([B(1), dr(), B(-1)]).track(
                on, show_progress_bar=False)
            ctx.close('chicane', max(abs(on.x[0] - on.x_ref), abs(on.y[0]),
                                     abs(on.xi[0]), abs(on.px[0]) / g), 1e-12)
            ctx.close('chicane', abs(on.x_ref - (
                2 * L / th * (1 - np.cos(th)) + D * np.sin(th))), 1e-12)
            ctx.nontrivial([kind, i])


SHARDS = {'lattices': w_lattices, 'relations': w_relations}
