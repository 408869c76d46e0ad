"""Collocation coefficients, derived independently of the code under test (nodes from Legendre polynomials)."""
from functools import lru_cache

import numpy as np
from numpy.polynomial import legendre as L
from numpy.polynomial import polynomial as P


@lru_cache(None)
def nodes(n_s, scheme):
    if scheme == "GAUSS_LEGENDRE":
        c = np.zeros(n_s + 1)
        c[n_s] = 1.0
    else:
        c = np.zeros(n_s + 1)      # Radau right: P_s - P_{s-1}
        c[n_s] = 1.0
        c[n_s - 1] -= 1.0
    r = np.sort(np.real(L.legroots(c)))
    for _ in range(3):                # Newton polish
        r = r - L.legval(r, c) / L.legval(r, L.legder(c))
    t = (r + 1) / 2
    if scheme == "RADAU_IIA":
        t[-1] = 1.0
    return t


def _basis(pts):
    out = []
    for j in range(len(pts)):
        c = np.array([1.0])
        for r in range(len(pts)):
            if r != j:
                c = P.polymul(c, np.array([-pts[r], 1.0])) / (pts[j] - pts[r])
        out.append(c)
    return out


@lru_cache(None)
def butcher(n_s, scheme):
    """A, b, c of the collocation method."""
    c = nodes(n_s, scheme)
    ints = [P.polyint(b) for b in _basis(c)]
    A = np.array([[P.polyval(c[i], ints[j]) for j in range(n_s)] for i in range(n_s)])
    b = np.array([P.polyval(1.0, ints[j]) for j in range(n_s)])
    return A, b, c


@lru_cache(None)
def integral_form(n_s, scheme):
    """C[r, j]: derivative of basis r at node j (0-th node: left boundary), D: values at the end, B: quadrature."""
    pts = np.concatenate(([0.0], nodes(n_s, scheme)))
    bas = _basis(pts)
    C = np.array([[P.polyval(pts[j], P.polyder(bas[r])) for j in range(n_s + 1)] for r in range(n_s + 1)])
    D = np.array([P.polyval(1.0, bas[r]) for r in range(n_s + 1)])
    b = butcher(n_s, scheme)[1]
    return C, D, b


def given_step(f, x0, X, h, n_s, scheme, q=None, tol=1e-6):
    """the step with the stage values X if they satisfy the stage equations, otherwise None"""
    A, b, _ = butcher(n_s, scheme)
    X = np.asarray(X, float)
    K = np.array([f(y) for y in X])
    if np.max(np.abs(X - x0 - h * A @ K)) > tol * (1 + np.max(np.abs(X))):
        return None
    return x0 + h * b @ K, X, None if q is None else h * sum(b[i] * q(X[i]) for i in range(n_s))


def irk_step(f, x0, h, n_s, scheme, q=None, K0=None):
    """One step of the collocation method for x' = f(x) (Newton with finite-difference Jacobian)."""
    A, b, c = butcher(n_s, scheme)
    n = len(x0)
    x0 = np.asarray(x0, float)

    def res(K):
        K = K.reshape(n_s, n)
        X = x0 + h * A @ K
        return (K - np.array([f(X[i]) for i in range(n_s)])).ravel()

    K0 = np.ravel(f(x0) if K0 is None else K0).astype(float)
    K = K0.copy() if K0.size == n_s * n else np.tile(K0, n_s)
    for it in range(60):
        r = res(K)
        if np.max(np.abs(r)) < 1e-13 * (1 + np.max(np.abs(K))):
            break
        J = np.zeros((K.size, K.size))
        for i in range(K.size):
            e = 1e-7 * max(1.0, abs(K[i]))
            Kp = K.copy()
            Kp[i] += e
            Km = K.copy()
            Km[i] -= e
            J[:, i] = (res(Kp) - res(Km)) / (2 * e)
        try:
            K = K - np.linalg.solve(J, r)
        except np.linalg.LinAlgError:
            return None
        if not np.all(np.isfinite(K)):
            return None
    else:
        if np.max(np.abs(res(K))) > 1e-10 * (1 + np.max(np.abs(K))):
            return None
    Ks = K.reshape(n_s, n)
    X = x0 + h * A @ Ks
    x1 = x0 + h * b @ Ks
    quad = None if q is None else h * sum(b[i] * q(X[i]) for i in range(n_s))
    return x1, X, quad
