"""Second-order transfer map of a sector magnet from its Hamiltonian.

H = p/b0 - (1+h x) sqrt(1 + 2p/b0 + p^2 - px^2 - py^2) + V(x, y), with V the
(curvilinear, midplane-symmetric) potential of By = h + k1 x + k2 x^2/2,
expanded to third order; the variational equations for R and T are integrated
numerically (no closed-form coefficients).  Coordinates (x, px/p0, y, py/p0,
tau, p) with p = dE/(p0 c) and tau > 0 for late particles.
"""
import numpy as np
from scipy.integrate import solve_ivp


def generators(h, k1, k2, gamma):
    b = np.sqrt(1 - gamma**-2)
    g2 = gamma**-2
    X, PX, Y, PY, TA, P = range(6)
    H2 = np.zeros((6, 6))        # H2 = 1/2 z.H2.z
    H2[PX, PX] = H2[PY, PY] = 1
    H2[P, P] = g2 / b**2
    H2[X, P] = H2[P, X] = -h / b
    H2[X, X] = k1 + h * h
    H2[Y, Y] = -k1
    H3 = np.zeros((6, 6, 6))     # H3 = 1/6 H3_ijk z z z

    def add(c, i, j, k):
        """c * z_i z_j z_k"""
        import itertools
        for a, d, e in set(itertools.permutations((i, j, k))):
            H3[a, d, e] += c * {1: 6, 2: 2, 3: 1}[len({i, j, k})]
    add(-.5 / b, P, PX, PX)
    add(-.5 / b, P, PY, PY)
    add(-g2 / (2 * b**3), P, P, P)
    add(h / 2, X, PX, PX)
    add(h / 2, X, PY, PY)
    add(h * g2 / (2 * b**2), X, P, P)
    add((k2 + 2 * h * k1) / 6, X, X, X)
    add(-(k2 + h * k1) / 2, X, Y, Y)
    J = np.zeros((6, 6))
    for q in (X, Y, TA):
        J[q, q + 1], J[q + 1, q] = 1, -1
    # tau of H is (s/b0 - ct); flip it so that late particles have tau > 0
    S = np.diag([1, 1, 1, 1, -1, 1.])
    A = S @ J @ H2 @ S
    B = np.einsum('ab,bc,cde,df,eg->afg', S, J, H3, S, S)
    return A, B


def maps(L, theta, k1, k2, gamma, z=None, rtol=1e-11):
    """R (6x6) and T (6x6x6, symmetric): z1 = R z + T z z, at position z."""
    z = L if z is None else z
    A, B = generators(theta / L, k1, k2, gamma)

    def rhs(s, u):
        R = u[:36].reshape(6, 6)
        T = u[36:].reshape(6, 6, 6)
        dT = (np.einsum('il,ljk->ijk', A, T)
              + .5 * np.einsum('ilm,lj,mk->ijk', B, R, R))
        return z * np.concatenate([(A @ R).ravel(), dT.ravel()])
    u0 = np.concatenate([np.eye(6).ravel(), np.zeros(216)])
    u = solve_ivp(rhs, (0, 1), u0, method='DOP853', rtol=rtol,
                  atol=1e-13).y[:, -1]
    return u[:36].reshape(6, 6), u[36:].reshape(6, 6, 6)
