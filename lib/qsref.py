"""Independent quasi-static r-z plasma solver (numpy, dense linear algebra).

Implements the equations of P. Baxevanis and G. Stupakov, PRAB 21, 071301
(2018): a column of charged rings evolved from the front to the back of the
box.  Used as an oracle for the recorded fields of the real solver."""
import numpy as np
import scipy.constants as ct


def skin_depth(n):
    return ct.c / np.sqrt(n * ct.e**2 / (ct.m_e * ct.epsilon_0))


def bil(a, zc, r, dr, odd):
    """Bilinear interpolation at slice coordinate zc (in cells); a has no
    guard cells.  Returns the values and which points are covered."""
    n_xi, n_r = a.shape
    ext = np.concatenate([(-1 if odd else 1) * a[:, :1], a], axis=1)
    rc = r / dr + 0.5
    ok = rc <= n_r
    i = int(np.clip(np.floor(zc + 1e-9), 0, n_xi - 2))
    u = zc - i
    j = np.clip(np.floor(rc).astype(int), 0, n_r - 1)
    v = rc - j
    lo = (1 - u) * ext[i] + u * ext[i + 1]
    return (1 - v) * lo[j] + v * lo[j + 1], ok


class Column:
    def __init__(s, r_max, r_plasma, pc, dr, ppc):
        s.dp = dr / ppc
        n = int(np.round(r_plasma / s.dp))
        s.R = n * s.dp
        s.pc = pc
        s.r = (np.arange(n) + 0.5) * s.dp
        s.q = s.dp * s.r * (1 + pc * s.r**2)
        s.pr = np.zeros(n)

    # ion + electron potential enclosed
    def dpsi(s, r, s1, s2):
        R, pc = s.R, s.pc
        rr = np.minimum(r, R)
        ion = rr**2 / 4 + pc * rr**4 / 16
        ion = ion + (R**2 / 2 + pc * R**4 / 4) * np.log(
            np.maximum(r, R) / R)
        return s1 * np.log(r) - s2 - ion

    def drpsi(s, r, s1):
        rr = np.minimum(r, s.R)
        return (s1 - rr**2 / 2 - s.pc * rr**4 / 4) / r

    def at_particles(s, r, pr, a2, na2, b0):
        """psi, its derivatives, gamma, pz and b_theta at the particles."""
        o = np.argsort(r, kind='stable')
        R_, P_, Q_ = r[o], pr[o], s.q[o]
        n = len(R_)
        s1, s2 = np.cumsum(Q_), np.cumsum(Q_ * np.log(R_))
        mid = (R_[1:] + R_[:-1]) / 2
        right = np.append(mid, R_[-1] + s.dp / 2)
        left = np.insert(mid, 0, 0.)
        pr_ = s.dpsi(right, s1, s2)
        dr_ = s.drpsi(right, s1)
        pl = np.zeros(n)
        dl = np.zeros(n)
        pl[1:] = pr_[:-1]
        dl[1:] = dr_[:-1]
        f = (R_ - left) / (right - left)
        psi = pl + (pr_ - pl) * f
        dpsi = dl + (dr_ - dl) * f
        last = max(right[-1], s.R)
        psi = psi - s.dpsi(np.array([last]), s1[-1:], s2[-1:])[0]
        psi = np.maximum(psi, -0.90)
        k = Q_ * P_ / (R_ * (1 + psi))
        s3 = np.cumsum(k)
        xr, xl = -s3, np.insert(-s3[:-1], 0, 0.)
        dx = xl + (xr - xl) * f + s3[-1]
        if right[-1] > s.R:
            dx = dx - s.drpsi(right[-1:], s1[-1:])[0] * P_[-1] / (
                1 + psi[-1])
        dx = np.clip(dx, -3., 3.)
        A2, N2, B0 = a2[o], na2[o], b0[o]
        g = (1 + P_**2 + A2 + (1 + psi)**2) / (2 * (1 + psi))
        pz = (1 + P_**2 + A2 - (1 + psi)**2) / (2 * (1 + psi))
        a, b, a0 = s.ab(R_, P_, Q_, g, psi, dpsi, dx, B0, N2)
        # b_theta at the particles
        rb = np.append(mid, (2 * R_[-1] + s.dp / 2) / 2)
        br = a * rb + b / rb
        bl = np.insert(br[:-1], 0, 0.)
        fb = (R_ - left) / (rb - left)
        bt = np.clip(bl + (br - bl) * fb, -3., 3.)
        inv = np.empty(n, int)
        inv[o] = np.arange(n)
        return dict(o=o, inv=inv, psi=psi[inv], dpsi=dpsi[inv], dx=dx[inv],
                    g=g[inv], pz=pz[inv], bt=bt[inv])

    @staticmethod
    def ab(r, p, q, g, psi, dpsi, dx, b0, na2):
        """Coefficients of b_theta = a_i r + b_i/r between the rings; the
        field is regular on axis and has no a_N r outside (dense solve)."""
        n = len(r)
        h = 1 + psi
        A = q / (r * h)
        B = q * (-g * dpsi / (r * h**2) + p**2 * dpsi / (r * h**3)
                 + p * dx / (r * h**2) + p**2 / (r**2 * h**2)
                 + b0 / (r * h) + na2 / (2 * r * h**2))
        C = q * (p**2 / (r * h**2) - (g / h - 1) / r)
        # unknowns scaled with r so that the matrix is well conditioned:
        # a_i r_i and b_i / r_i
        M = np.zeros((2 * n + 1, 2 * n + 1))
        y = np.zeros(2 * n + 1)
        # x = [a0, b1, a1, b2, a2, ...]
        ia = lambda i: 2 * i
        ib = lambda i: 2 * i - 1
        for i in range(1, n + 1):
            k = i - 1
            ra, rb = 2 * k, 2 * k + 1
            M[ra, ia(i)] = 1
            M[ra, ia(i - 1)] = -(1 + A[k] * r[k] / 2)
            y[ra] = (2 * B[k] + A[k] * C[k]) / 4
            M[rb, ib(i)] = 1
            M[rb, ia(i - 1)] = A[k] * r[k]**3 / 2
            y[rb] = r[k] * (4 * C[k] - 2 * B[k] * r[k] - A[k] * C[k]
                            * r[k]) / 4
            if i > 1:
                M[ra, ib(i - 1)] = -A[k] / (2 * r[k])
                M[rb, ib(i - 1)] = -(1 - A[k] * r[k] / 2)
        M[2 * n, ia(n)] = 1.
        x = np.linalg.solve(M, y)
        return x[2::2], x[1::2], x[0]


def spline(shape, u):
    u = np.abs(u)
    if shape == 'linear':
        return np.where(u < 1, 1 - u, 0.)
    return np.where(u < 1, 2 / 3 - u**2 + u**3 / 2,
                    np.where(u < 2, (2 - u)**3 / 6, 0.))


def radial_dep(r, w, n_r, dr, shape):
    ok = r <= n_r * dr
    rc = r[ok] / dr - 0.5
    w = w[ok]
    out = np.zeros(n_r)
    if shape == 'linear':
        rc = np.clip(rc, 0, n_r - 1)
    base = np.floor(rc).astype(int)
    for k in range(-2, 4):
        c = base + k
        s = spline(shape, c - rc) * w
        c = np.where(c < 0, -1 - c, c)
        c = np.where(c >= n_r, 2 * n_r - 1 - c, c)
        good = (c >= 0) & (c < n_r)
        np.add.at(out, c[good], s[good])
    return out


def solve(a2g, b_beam, r_max, xi_min, xi_max, n_r, n_xi, ppc, n_p,
          r_plasma=None, pc=0., shape='cubic', max_gamma=10., pusher='rk4',
          keep_outside=True):
    """Fields on the grid (SI), without guard cells.  a2g, b_beam: sources
    (n_xi, n_r), normalised."""
    sd = skin_depth(n_p)
    dr, dxi = r_max / sd / n_r, (xi_max - xi_min) / sd / (n_xi - 1)
    rg = (np.arange(n_r) + 0.5) * dr
    c = Column(r_max / sd, (r_plasma if r_plasma else r_max) / sd,
               pc * sd**2, dr, ppc)
    na2 = np.zeros_like(a2g)
    # centred, even about the axis, one-sided at the outer boundary
    na2[:, 1:-1] = (a2g[:, 2:] - a2g[:, :-2]) / (2 * dr)
    na2[:, 0] = (a2g[:, 1] - a2g[:, 0]) / (2 * dr)
    na2[:, -1] = (a2g[:, -1] - a2g[:, -2]) / dr
    n = len(c.r)
    psi, bbar = np.zeros((n_xi, n_r)), np.zeros((n_xi, n_r))
    rho, chi = np.zeros((n_xi, n_r)), np.zeros((n_xi, n_r))
    tie = np.zeros((n_xi, n_r), bool)
    mem = {}
    stats = dict(min_psi=0., max_gamma=1., crossed=0)

    def src(tag, zc, r):
        out = []
        for nm, a, odd in (('a', a2g, False), ('n', na2, True),
                           ('b', b_beam, True)):
            v, ok = bil(a, zc, r, dr, odd)
            old = mem.get((tag, nm), np.zeros(n))
            v = np.where(ok, v, old if keep_outside else 0.)
            mem[(tag, nm)] = v
            out.append(v)
        return out

    def deriv(r, p, S, f, g):
        h = 1 + f['psi']
        return p / h, (g * f['dpsi'] / h - f['bt'] - S[2]
                       - S[1] / (2 * h))

    hist = []
    for step in range(n_xi):
        k = n_xi - 1 - step
        S = src(1, k, c.r)
        f = c.at_particles(c.r, c.pr, *S)
        g, pz = f['g'].copy(), f['pz'].copy()
        stats['min_psi'] = min(stats['min_psi'], f['psi'].min())
        stats['max_gamma'] = max(stats['max_gamma'], g.max())
        fast = g >= max_gamma
        pz[fast], g[fast] = 0., 1.
        c.pr = np.where(fast, 0., c.pr)
        o = f['o']
        R_, Q_ = c.r[o], c.q[o]
        s1 = np.insert(np.cumsum(Q_), 0, 0.)
        s2 = np.insert(np.cumsum(Q_ * np.log(R_)), 0, 0.)
        j = np.searchsorted(R_, rg, side='left')
        # grid points on top of a ring: b_theta jumps there
        tie[k] = np.min(np.abs(rg[:, None] - R_[None, :]), axis=1) < 1e-8 * dr
        psi[k] = c.dpsi(rg, s1[j], s2[j]) - c.dpsi(
            np.array([max(R_[-1], c.R)]), s1[-1:], s2[-1:])[0]
        a, b, a0 = c.ab(R_, c.pr[o], Q_, g[o], f['psi'][o], f['dpsi'][o],
                        f['dx'][o], S[2][o], S[1][o])
        aa, bb = np.insert(a, 0, a0), np.insert(b, 0, 0.)
        bbar[k] = aa[j] * rg + bb[j] / rg
        w = c.q / (dr * c.r * (1 - pz / g))
        rw = radial_dep(c.r, w, n_r, dr, shape)
        cw = radial_dep(c.r, w / g, n_r, dr, shape)
        if shape == 'linear':
            rho[k] += rw
            chi[k] += cw
        else:
            for dk, z in ((-1, 1 / 6), (0, 2 / 3), (1, 1 / 6)):
                t = min(max(k + dk, 0), n_xi - 1)
                rho[t] += z * rw
                chi[t] += z * cw
        if k == 0:
            break
        d1 = deriv(c.r, c.pr, S, f, g)
        if pusher == 'rk4':
            ds = [d1]
            for tag, (fr, prev) in enumerate(((.5, 0), (.5, 1), (1., 2))):
                r = c.r + dxi * fr * ds[prev][0]
                p = c.pr + dxi * fr * ds[prev][1]
                sg = np.where(r < 0, -1., 1.)
                r, p = r * sg, p * sg
                Si = src(tag + 2, k - fr, r)
                fi = c.at_particles(r, p, *Si)
                d = deriv(r, p, Si, fi, fi['g'])
                ds.append((d[0] * sg, d[1] * sg))
            c.r = c.r + dxi / 6 * (ds[0][0] + 2 * ds[1][0] + 2 * ds[2][0]
                                   + ds[3][0])
            c.pr = c.pr + dxi / 6 * (ds[0][1] + 2 * ds[1][1]
                                     + 2 * ds[2][1] + ds[3][1])
            sg = np.where(c.r < 0, -1., 1.)
        else:
            hist = [d1] + hist[:4]
            co = (1901., -2774., 2616., -1274., 251.)
            c.r = c.r + dxi / 720 * sum(w_ * h[0] for w_, h in zip(co, hist))
            c.pr = c.pr + dxi / 720 * sum(w_ * h[1]
                                          for w_, h in zip(co, hist))
            sg = np.where(c.r < 0, -1., 1.)
            hist = [(h[0] * sg, h[1] * sg) for h in hist]
        stats['crossed'] += int(np.sum(sg < 0))
        c.r, c.pr = c.r * sg, c.pr * sg
    E0 = ct.m_e * ct.c**2 / (ct.e * sd)
    dx, dR = np.gradient(psi, dxi, dr, edge_order=2)
    B = (bbar + b_beam) * E0 / ct.c
    return dict(e_z=-dx * E0, b_t=B, e_r=-dR * E0 + ct.c * B, rho=rho,
                chi=chi, psi=psi, stats=stats, E0=E0, tie=tie)


def beam_source(bunches, n_p, r_max, xi_min, xi_max, n_r, n_xi, shape, dep):
    """Azimuthal field of the bunches (Eq. 18); `dep` deposits."""
    sd = skin_depth(n_p)
    dr, dxi = r_max / sd / n_r, (xi_max - xi_min) / sd / (n_xi - 1)
    b = np.zeros((n_xi, n_r))
    r = (np.arange(n_r) + 0.5) * dr
    for u in bunches:
        q = np.zeros((n_xi + 4, n_r + 4))
        w = u.w * u.q_species / ct.e / (2 * np.pi * dr * dxi * sd**3 * n_p)
        dep(u.xi / sd, u.x / sd, u.y / sd, w, xi_min / sd, dr / 2, n_xi, n_r,
            dxi, dr, q, p_shape=shape, use_ruyten=True)
        q = q[2:-2, 2:-2]
        enc = np.cumsum(q, axis=1) - q / 2
        enc[:, 0] -= q[:, 0] / 4
        b += enc * dr / r
    return b
