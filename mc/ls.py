"""Least-squares and quasi-definite problems: dense references for every iterate.

With weights W1 (the operator given as M) and W2 (given as N) a problem is the plain one
for A~ = W1^(1/2) A W2^(1/2), b~ = W1^(1/2) b, x = W2^(1/2) x~, r = W1^(1/2) r~.
"""
import numpy as np
import pykrylov.linop as lo
from mc import sq


def root(W):
    w, Q = np.linalg.eigh(W)
    return np.dot(Q * np.sqrt(w), Q.T)


class Problem(object):
    def __init__(self, A, b, damp=0., W1=None, W2=None):
        self.A, self.b, self.damp = np.asarray(A) * 1., np.asarray(b) * 1., damp
        m, n = self.A.shape
        self.m, self.n = m, n
        self.W1, self.W2 = W1, W2
        self.R1 = np.eye(m) if W1 is None else root(W1)
        self.R2 = np.eye(n) if W2 is None else root(W2)
        self.At = np.dot(self.R1, np.dot(self.A, self.R2))
        self.bt = np.dot(self.R1, self.b)
        self.norm = np.linalg.norm(self.At, 2) if self.At.size else 0.
        self.normF = np.linalg.norm(self.At)
        self.N = np.dot(self.At.T, self.At)
        self.g = np.dot(self.At.T, self.bt)
        self._V = self._U = None

    # -- solutions
    def solution(self):
        """Minimum-norm (in the weighted norm) solution of the damped problem."""
        if self.damp:
            xt = np.linalg.solve(self.N + self.damp ** 2 * np.eye(self.n), self.g)
        else:
            xt = np.dot(np.linalg.pinv(self.At, rcond=1e-11), self.bt)
        return np.dot(self.R2, xt)

    def sqd(self):
        """(x, r) of the quasi-definite system."""
        U, w, _ = np.linalg.svd(self.At)
        w = np.concatenate([w, np.zeros(self.m)])[:self.m]
        rt = np.dot(U / (1 + w ** 2), np.dot(U.T, self.bt))
        return np.dot(self.R2, np.dot(self.At.T, rt)), np.dot(self.R1, rt)

    # -- iterates
    def V(self, k):
        if self._V is None:
            self._V = sq.krylov(self.N, self.g, self.n)
        return self._V[:, :k]

    def U(self, k):
        if self._U is None:
            self._U = sq.krylov(np.dot(self.At, self.At.T), self.bt, self.m)
        return self._U[:, :k]

    def grade(self, name):
        return (self.V(self.n) if name in ('lsqr', 'lsmr') else self.U(self.m)).shape[1]

    def iterate(self, name, k):
        """x (LSQR, LSMR), (x, r) (CRAIG) or r (CRAIG-MR) after k iterations."""
        if name in ('lsqr', 'lsmr'):
            V = self.V(k)
            if V.shape[1] == 0:
                return np.zeros(self.n)
            B = np.dot(self.N, V) + self.damp ** 2 * V
            if name == 'lsqr':
                y = np.linalg.solve(np.dot(V.T, B), np.dot(V.T, self.g))
            else:
                y = np.linalg.lstsq(B, self.g, rcond=1e-13)[0]
            return np.dot(self.R2, np.dot(V, y))
        k = k + 1 if name == 'craig' else k
        U = self.U(k)
        if U.shape[1] == 0:
            rt = np.zeros(self.m)
        else:
            B = U + np.dot(self.At, np.dot(self.At.T, U))
            if name == 'craig':
                y = np.linalg.solve(np.dot(U.T, B), np.dot(U.T, self.bt))
            else:
                y = np.linalg.lstsq(B, self.bt, rcond=1e-13)[0]
            rt = np.dot(U, y)
        if name == 'craig':
            return np.dot(self.R2, np.dot(self.At.T, rt)), np.dot(self.R1, rt)
        return np.dot(self.R1, rt)

    # -- norms of a given point
    def resid(self, x):
        """Weighted norm of b - A x."""
        return np.linalg.norm(np.dot(self.R1, self.b - np.dot(self.A, x)))

    def xnorm(self, x):
        return np.linalg.norm(np.linalg.solve(self.R2, x))

    def objective(self, x):
        return np.sqrt(self.resid(x) ** 2 + (self.damp * self.xnorm(x)) ** 2)

    def normal(self, x):
        """Weighted norm of the residual of the (damped) normal equations."""
        xt = np.linalg.solve(self.R2, x)
        return np.linalg.norm(self.g - np.dot(self.N, xt) - self.damp ** 2 * xt)

    def sqdres(self, r):
        rt = np.linalg.solve(self.R1, r)
        return np.linalg.norm(self.bt - rt - np.dot(self.At, np.dot(self.At.T, rt)))

    def energy(self, name, p):
        """Squared energy norm accumulated by the method at the point p."""
        if name in ('lsqr', 'lsmr'):
            xt = np.linalg.solve(self.R2, p)
            y = np.dot(self.N, xt) + self.damp ** 2 * xt
            return np.dot(xt, y) if name == 'lsqr' else np.dot(y, y)
        rt = np.linalg.solve(self.R1, p)
        y = rt + np.dot(self.At, np.dot(self.At.T, rt))
        return np.dot(rt, y) if name == 'craig' else np.dot(y, y)

    # -- real solves
    def options(self, name):
        kw = {}
        if self.W1 is not None:
            kw['M'] = sq.Op(self.W1).op
        if self.W2 is not None:
            kw['N'] = sq.Op(self.W2).op
        if self.damp and name in ('lsqr', 'lsmr'):
            kw['damp'] = self.damp
        return kw

    def solve(self, name, itnlim=None, **kw):
        o = self.options(name)
        o.update(kw)
        a = sq.Op(self.A, flags=False)
        s = sq.make(name, a.op)
        self.last = a
        return sq.solve(name, s, self.b.copy(), itnlim, **o)


def windowed(ctx, name, s, D, wlen, tol, code, stored, base=0., **info):
    """Direct-error estimates over `wlen` steps against the energies D of the steps between the stored iterates.

    stored: also judge the recorded estimates; otherwise judge when the solver stopped because of them.
    """
    L = len(D)
    ctx.check(L == s.itn, 'not one stored iterate for each step', **info)
    ratio = [sum(D[k - wlen:k]) / (base + sum(D[:k])) for k in range(wlen + 1, L + 1)]
    if stored:
        win = s.dir_errors_d_window if name == 'craig' else s.dir_errors_window
        ctx.check(len(win) == len(ratio), 'not one direct error for each step past the window', got=len(win), want=len(ratio), **info)
        for j, (g, w) in enumerate(zip(win, ratio)):
            ctx.check(abs(g ** 2 - w) <= 1e-8, 'a stored direct error is not that of its window', step=wlen + 1 + j, got=g, want=np.sqrt(abs(w)), **info)
        return
    for j, w in enumerate(ratio):
        small, clear = w <= tol ** 2 * 1.01 + 1e-9, w < tol ** 2 * .99 - 1e-9
        if j == len(ratio) - 1 and s.istop == code:
            ctx.check(small, 'claims a small direct error', got=np.sqrt(abs(w)), **info)
        elif j < len(ratio) - 1:
            ctx.check(not clear, 'the direct error was small before the solver stopped', step=wlen + 1 + j, got=np.sqrt(abs(w)), **info)
    ctx.check(s.istop != code or ratio, 'direct error judged before the window is full', **info)


def steps(P, name, its):
    return [P.energy(name, its[k + 1] - its[k]) for k in range(len(its) - 1)]


def window_problems(m, n):
    """Well-conditioned problems that take some twenty steps."""
    k = min(m, n)
    for top in (3., 7.):
        sv = np.linspace(1., top, k)
        U, V = sq.orth(m)[:, :k], np.linalg.qr(sq.orth(n + 1)[:n, :n])[0][:, :k]
        A = np.dot(U * sv, V.T)
        for b in (np.dot(U, np.ones(k)), np.dot(U, 1. + np.arange(k) % 3) + .1 * np.cos(np.arange(m))):
            yield A, b


WINDOWS = (1, 2, 3, 5, 6, 8, 12)


def point(name, s):
    """What the solver returned, in the form of Problem.iterate."""
    return (s.x, s.r) if name == 'craig' else s.x


def spdweight(n, which):
    if which == 0:
        return None
    if which == 1:
        return np.diag((np.array([1., 4, .5, 2, 3])[np.arange(n) % 5]))
    T = 2 * np.eye(n) + .5 * np.diag(np.ones(n - 1), 1) + .5 * np.diag(np.ones(n - 1), -1)
    return T
