"""Reference L-BFGS matrices and menus of pairs."""
import numpy as np
from pykrylov.linop.lbfgs import (InverseLBFGSOperator, LBFGSOperator, CompactLBFGSOperator,
                                  StructuredLBFGSOperator)

CLS = {'inv': InverseLBFGSOperator, 'fwd': LBFGSOperator, 'cmp': CompactLBFGSOperator, 'str': StructuredLBFGSOperator}


def hess(n):
    A = np.diag(np.arange(1., n + 1)) + 0.5 * np.eye(n, k=1) + 0.5 * np.eye(n, k=-1)
    return A + 0.25


def pair(n, k):
    """k >= 0: a pair with positive curvature, from a few different Hessians; k < 0: without."""
    i = np.arange(n)
    s = ((i * 3 + abs(k) * 5) % 7 - 2.) / 2 + (i == abs(k) % n)
    if not s.any():
        s[0] = 1.
    G = hess(n)
    if k >= 0 and k % 3 == 1:
        G = 0.25 * G + 2 * np.eye(n)
    elif k >= 0 and k % 3 == 2:
        G = np.diag(np.diag(G)) * 3
    y = G.dot(s)
    if k == -1:
        y = -y                              # negative curvature
    elif k == -2:
        y = np.zeros(n)                     # none at all
    elif k == -3:                           # orthogonal
        y = np.zeros(n)
        if n > 1:
            y[0], y[1] = s[1], -s[0]
    elif k == -4:
        s = np.zeros(n)
    elif k == -5:                           # slightly negative
        y = -1e-3 * y
    return s, y


def triple(n, k):
    s, y = pair(n, k)
    yd = (0.5 * y + 0.5 * hess(n).dot(s)) if k >= 0 else 0.9 * y
    return s, y, yd


def inverse(n, npairs, pairs, scaling):
    """The BFGS inverse update on the last npairs pairs."""
    pairs = pairs[-npairs:]
    H = np.eye(n)
    if scaling and pairs:
        s, y = pairs[-1][:2]
        H = H * (s.dot(y) / y.dot(y))
    for p in pairs:
        s, y = p[:2]
        rho = 1.0 / s.dot(y)
        V = np.eye(n) - rho * np.outer(s, y)
        H = V.dot(H).dot(V.T) + rho * np.outer(s, s)
    return H


def forward(n, npairs, pairs, scaling):
    """The direct BFGS update."""
    pairs = pairs[-npairs:]
    B = np.eye(n)
    if scaling and pairs:
        s, y = pairs[-1][:2]
        B = B / (s.dot(y) / y.dot(y))
    for p in pairs:
        s, y = p[:2]
        Bs = B.dot(s)
        B = B - np.outer(Bs, Bs) / s.dot(Bs) + np.outer(y, y) / s.dot(y)
    return B


def structured(n, npairs, triples, scaling):
    """The structured update; None where it is not defined (a negative curvature is met)."""
    triples = triples[-npairs:]
    B = np.eye(n)
    if scaling and triples:
        s, y, yd = triples[-1]
        B = B / (s.dot(y) / y.dot(y))
    for s, y, yd in triples:
        Bs = B.dot(s)
        q = s.dot(y) / s.dot(Bs)
        if not (s.dot(Bs) > 1e-6 * s.dot(s)):
            return None
        a = y + q ** 0.5 * Bs
        w = yd - Bs
        d = a.dot(s)
        B = B + (np.outer(w, a) + np.outer(a, w)) / d - w.dot(s) / d ** 2 * np.outer(a, a)
    return B


def reference(cls, n, npairs, pairs, scaling):
    return {'inv': inverse, 'fwd': forward, 'cmp': forward, 'str': structured}[cls](n, npairs, pairs, scaling)


def give(op, cls, p):
    s, y = p[0].copy(), p[1].copy()
    if cls == 'str':
        op.store(s, y, p[2].copy())
    else:
        op.store(s, y)


def relclose(A, B, tol=1e-8):
    A, B = np.asarray(A), np.asarray(B)
    return A.shape == B.shape and bool(np.all(np.isfinite(A))) and np.max(np.abs(A - B)) <= tol * (1 + np.max(np.abs(B)))
