"""Independent laser envelope propagation (dense linear algebra), after
C. Benedetti et al., PPCF 60, 014002 (2018), on a cell-centred radial grid."""
import numpy as np
import scipy.constants as ct


class Ref:
    def __init__(s, a, l_0, r_max, zmin, zmax):
        nz, nr = a.shape
        s.nz, s.nr = nz, nr
        s.a = np.zeros((nz + 2, nr), complex)
        s.a[:nz] = a
        s.old = np.zeros_like(s.a)
        s.k0 = 2 * np.pi / l_0
        s.rmax, s.zmin, s.zmax = r_max, zmin, zmax
        s.steps = 0

    def lap(s, dr):
        n = s.nr
        M = np.zeros((n, n))
        for k in range(n):
            rk = k + .5
            M[k, k] = -2.
            if k > 0:
                M[k, k - 1] = k / rk
            if k < n - 1:
                M[k, k + 1] = (k + 1) / rk
        return M / dr**2

    def evolve(s, chi, n_p, dt, nt, use_phase):
        kp = np.sqrt(ct.e**2 * n_p / (ct.m_e * ct.epsilon_0)) / ct.c
        dz = (s.zmax - s.zmin) * kp / (s.nz - 1)
        dr = s.rmax * kp / s.nr
        h = dt / nt * ct.c * kp
        first = s.steps == 0
        M = s.lap(dr)
        I = np.eye(s.nr)
        g = 2j * s.k0 / kp
        for _ in range(nt):
            th = np.zeros(s.nz + 2)
            if use_phase:
                th = np.unwrap(np.angle(s.a[:, 0]))
            new = np.zeros_like(s.a)
            base = s.a if first else s.old     # other end of the step
            H = h if first else 2 * h
            for j in range(s.nz - 1, -1, -1):
                d1, d2 = th[j + 1] - th[j], th[j + 2] - th[j + 1]
                D = (1.5 * d1 - .5 * d2) / dz
                # d/dt f with f = (new - base)/H ; 2 d/dz f
                e1, e2 = np.exp(-1j * d1), np.exp(-1j * (d1 + d2))
                f1 = (new[j + 1] - base[j + 1]) / H
                f2 = (new[j + 2] - base[j + 2]) / H
                X = np.diag(chi[j])
                coef = (g + 2 * (-1.5 / dz + 1j * D)) / H
                A = M / 2 + coef * I - X / 2
                b = (-(M / 2 - X / 2) @ base[j] + coef * base[j]
                     - 2 * (2 * e1 * f1 - .5 * e2 * f2) / dz)
                if not first:
                    A = A - I / h**2
                    b = b + (base[j] - 2 * s.a[j]) / h**2
                new[j] = np.linalg.solve(A, b)
            s.old = s.a
            s.a = new
        s.steps += 1
        return s.a[:s.nz]
