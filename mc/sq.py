"""Square-system solvers: systems, instrumented operators, exact models of the methods.

The models run the textbook recurrences of CG, CGS, Bi-CGSTAB and TFQMR (and the
subspace definitions of MINRES and SYMMLQ) in exact rational (Gaussian-rational for
complex data) arithmetic; every point at which the method may stop is a state.
"""
import itertools
from fractions import Fraction as F
import numpy as np
import pykrylov.linop as lo
from pykrylov.cg import CG
from pykrylov.cgs import CGS
from pykrylov.bicgstab import BiCGSTAB
from pykrylov.tfqmr import TFQMR
from pykrylov.minres import Minres
from pykrylov.symmlq import Symmlq
from pykrylov.lls import LSQRFramework, LSMRFramework, CRAIGFramework, CRAIGMRFramework

CLS = dict(cg=CG, cgs=CGS, bicgstab=BiCGSTAB, tfqmr=TFQMR, minres=Minres, symmlq=Symmlq,
           lsqr=LSQRFramework, lsmr=LSMRFramework, craig=CRAIGFramework, craigmr=CRAIGMRFramework)
SQ4 = ('cg', 'cgs', 'bicgstab', 'tfqmr')
UNSYM = ('cgs', 'bicgstab', 'tfqmr')
ALL = SQ4 + ('minres', 'symmlq')
LS = ('lsqr', 'lsmr', 'craig', 'craigmr')
EPS = np.finfo(float).eps


class G(object):
    """Gaussian rational."""
    __slots__ = ('re', 'im')

    def __init__(self, re, im=0):
        self.re, self.im = F(re), F(im)

    def __add__(self, o):
        o = g(o)
        return G(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self):
        return G(-self.re, -self.im)

    def __sub__(self, o):
        return self + (-g(o))

    def __rsub__(self, o):
        return g(o) - self

    def __mul__(self, o):
        o = g(o)
        return G(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = g(o)
        d = o.re * o.re + o.im * o.im
        return self * G(o.re / d, -o.im / d)

    def __rtruediv__(self, o):
        return g(o) / self

    def __eq__(self, o):
        o = g(o)
        return self.re == o.re and self.im == o.im

    def __bool__(self):
        return self.re != 0 or self.im != 0

    def conjugate(self):
        return G(self.re, -self.im)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __complex__(self):
        return complex(float(self.re), float(self.im))


def g(o):
    if isinstance(o, G):
        return o
    if isinstance(o, complex):
        return G(F(o.real), F(o.imag))
    return G(o)


def exact(M):
    """Exact copy of an array of integers/floats/complexes (dyadic rationals)."""
    M = np.asarray(M)
    if M.dtype.kind == 'c':
        f = lambda z: G(F(float(z.real)), F(float(z.imag)))
    else:
        f = lambda z: F(int(z)) if M.dtype.kind in 'iub' else F(float(z))
    if M.ndim == 1:
        return [f(z) for z in M]
    return [[f(z) for z in row] for row in M]


def tofloat(v):
    return np.array([complex(z) if isinstance(z, G) else float(z) for z in v])


def mul(A, v):
    return [sum((a * z for a, z in zip(row, v)), F(0)) for row in A]


def dot(u, v):
    return sum((a.conjugate() * z for a, z in zip(u, v)), F(0))


def axpy(a, u, v):
    return [a * p + q for p, q in zip(u, v)]


def sqn(v):
    s = dot(v, v)
    return s.real


class P(object):
    """A point at which a method may stop."""
    __slots__ = ('n', 'x', 'r2', 'm', 'half')

    def __init__(self, n, x, r2, m=0):
        self.n, self.x, self.r2, self.m = n, tofloat(x), float(r2), m


def cg_model(A, b, x=None, M=None, curvature=True, steps=8):
    """(points, how it ended, direction, curvature)"""
    n = 0 if x is None else 1
    x = list(x) if x is not None else [F(0)] * len(b)
    r = axpy(-1, mul(A, x), b)
    y = mul(M, r) if M else r
    ry = dot(r, y)
    p = y
    pts = [P(n, x, ry.real)]
    for _ in range(steps):
        if ry == 0:
            return pts, 'exact', None, None
        Ap = mul(A, p)
        n += 1
        pAp = dot(p, Ap)
        if curvature and (pAp.imag != 0 or pAp.real <= 0):
            return pts, 'curvature', tofloat(p), pAp
        if pAp == 0:
            return pts, 'breakdown', tofloat(p), pAp
        al = ry / pAp
        x = axpy(al, p, x)
        r = axpy(-al, Ap, r)
        y = mul(M, r) if M else r
        ry2 = dot(r, y)
        p = axpy(ry2 / ry, p, y)
        ry = ry2
        pts.append(P(n, x, ry.real))
    return pts, 'steps', None, None


def cgs_model(A, b, x=None, M=None, steps=8):
    n = 0 if x is None else 1
    x = list(x) if x is not None else [F(0)] * len(b)
    r0 = r = axpy(-1, mul(A, x), b)
    pts = [P(n, x, sqn(r))]
    rho = dot(r0, r)
    u = p = r
    for _ in range(steps):
        if sqn(r) == 0:
            return pts, 'exact'
        y = mul(M, p) if M else p
        v = mul(A, y)
        s = dot(r0, v)
        if s == 0 or rho == 0:
            return pts, 'breakdown'
        al = rho / s
        q = axpy(-al, v, u)
        uq = axpy(1, u, q)
        z = mul(M, uq) if M else uq
        x = axpy(al, z, x)
        r = axpy(-al, mul(A, z), r)
        n += 2
        pts.append(P(n, x, sqn(r)))
        rho2 = dot(r0, r)
        be = rho2 / rho
        rho = rho2
        u = axpy(be, q, r)
        p = axpy(be, axpy(be, p, q), u)
    return pts, 'steps'


def bicgstab_model(A, b, x=None, M=None, steps=8):
    n = 0 if x is None else 1
    x = list(x) if x is not None else [F(0)] * len(b)
    r0 = r = axpy(-1, mul(A, x), b)
    pts = [P(n, x, sqn(r))]
    rho = dot(r0, r)
    p = r
    for _ in range(steps):
        if sqn(r) == 0:
            return pts, 'exact'
        q = mul(M, p) if M else p
        v = mul(A, q)
        n += 1
        s0 = dot(r0, v)
        if s0 == 0 or rho == 0:
            return pts, 'breakdown'
        al = rho / s0
        s = axpy(-al, v, r)
        xh = axpy(al, q, x)
        pts.append(P(n, xh, sqn(s)))
        if sqn(s) == 0:
            return pts, 'exact'
        z = mul(M, s) if M else s
        t = mul(A, z)
        n += 1
        tt = dot(t, t)
        if tt == 0:
            return pts, 'breakdown'
        om = dot(t, s) / tt
        if om == 0:
            return pts, 'breakdown'
        x = axpy(om, z, xh)
        r = axpy(-om, t, s)
        pts.append(P(n, x, sqn(r)))
        rho2 = dot(r0, r)
        be = rho2 / rho * al / om
        rho = rho2
        p = axpy(be, axpy(-om, v, p), r)
    return pts, 'steps'


def tfqmr_model(A, b, x=None, M=None, steps=8):
    n = 0 if x is None else 1
    x = list(x) if x is not None else [F(0)] * len(b)
    r0 = axpy(-1, mul(A, x), b)
    tau2 = sqn(r0)
    pts = [P(n, x, tau2, 0)]
    if tau2 == 0:
        return pts, 'exact'
    y = w = r0
    d = [F(0)] * len(b)
    th2 = F(0)
    eta = F(0)
    rho = dot(r0, r0)
    z = mul(M, y) if M else y
    u = mul(A, z)
    n += 1
    v = u
    for k in range(1, steps + 1):
        s = dot(r0, v)
        if s == 0 or rho == 0:
            return pts, 'breakdown'
        al = rho / s
        for half in (0, 1):
            if half:
                y = axpy(-al, v, y)
                z = mul(M, y) if M else y
                u = mul(A, z)
                n += 1
            w = axpy(-al, u, w)
            d = axpy(th2 * eta / al, d, z)
            th2 = sqn(w) / tau2
            c2 = 1 / (1 + th2)
            tau2 = tau2 * th2 * c2
            eta = c2 * al
            x = axpy(eta, d, x)
            pts.append(P(n, x, tau2, 2 * k - 1 + half))
            if tau2 == 0:
                return pts, 'exact'
        rho2 = dot(r0, w)
        be = rho2 / rho
        rho = rho2
        y = axpy(be, y, w)
        z = mul(M, y) if M else y
        u2 = mul(A, z)
        n += 1
        v = axpy(be, axpy(be, v, u), u2)
        u = u2
    return pts, 'steps'


MODEL = dict(cgs=cgs_model, bicgstab=bicgstab_model, tfqmr=tfqmr_model)


def model(name, A, b, x=None, M=None, **kw):
    """(points, end) of the method in exact arithmetic on exact copies of the data."""
    A, b = exact(A), exact(b)
    x = None if x is None else exact(x)
    M = None if M is None else exact(M)
    if name == 'cg':
        return cg_model(A, b, x, M, **kw)[:2]
    return MODEL[name](A, b, x, M, **kw)


# ---------------------------------------------------------------- subspace definitions

def krylov(A, b, k):
    """Orthonormal basis of span{b, Ab, ...} of dimension at most k."""
    Q = []
    v = np.array(b, dtype=np.result_type(A.dtype, np.asarray(b).dtype, 1.0))
    if np.linalg.norm(v) == 0:
        return np.zeros((len(v), 0), dtype=v.dtype)
    Q.append(v / np.linalg.norm(v))
    while len(Q) < k:
        w = np.dot(A, Q[-1])
        n0 = np.linalg.norm(w)
        for _ in (0, 1):
            for q in Q:
                w = w - np.vdot(q, w) * q
        if np.linalg.norm(w) <= 1e-10 * max(n0, 1e-300):
            break
        Q.append(w / np.linalg.norm(w))
    return np.array(Q).T


def lstsq(A, b):
    return np.dot(np.linalg.pinv(A, rcond=1e-12), b)


def symmlq_points(A, b, k):
    """The points SYMMLQ may return after k Lanczos steps: Galerkin (CG) point and minimum-error (LQ) point."""
    n = len(b)
    if k == 0:
        return [np.zeros(n)]
    K = krylov(A, b, k)
    xs = np.linalg.solve(A, b * 1.)
    T = np.dot(K.T, np.dot(A, K))
    cand = []
    if abs(np.linalg.det(T)) > 1e-9:
        cand.append(np.dot(K, np.linalg.solve(T, np.dot(K.T, b))))
    if k == 1:
        cand.append(np.zeros(n))
    else:
        q = np.linalg.qr(np.dot(A, krylov(A, b, k - 1)))[0]
        cand.append(np.dot(q, np.dot(q.T, xs)))
    return cand


# ---------------------------------------------------------------- instrumented operators

class Op(object):
    """A counted LinearOperator over a dense matrix."""

    def __init__(self, A, kind='linop', flags=True):
        self.A = A = np.array(A)
        self.count = 0
        self.tcount = 0
        self.fail_at = None
        self.exc = None
        sym = bool(flags and A.dtype.kind != 'c' and A.shape[0] == A.shape[1] and (A == A.T).all())
        her = bool(flags and A.dtype.kind == 'c' and A.shape[0] == A.shape[1] and (A == A.conj().T).all())
        kw = dict(symmetric=sym, hermitian=sym or her)
        if not (sym or her):
            kw['matvec_transp'] = self._tmv
        self.op = lo.LinearOperator(A.shape[1], A.shape[0], self._mv, dtype=A.dtype, **kw)

    def _tick(self):
        if self.fail_at is not None and self.count + self.tcount == self.fail_at:
            raise self.exc

    def _mv(self, x):
        self._tick()
        self.count += 1
        return np.dot(self.A, x)

    def _tmv(self, x):
        self._tick()
        self.tcount += 1
        return np.dot(self.A.T, x)

    def reset(self):
        self.count = self.tcount = 0


def make(name, op, precon=None, **kw):
    if precon is not None:
        kw['precon'] = precon
    return CLS[name](op, **kw)


def solve(name, s, b, budget=None, guess=None, **kw):
    """Uniform solve: budget is the documented product/iteration limit."""
    if name == 'minres':
        kw.setdefault('show', False)
        kw.setdefault('check', False)
        if budget is not None:
            kw['itnlim'] = budget
    elif name in LS:
        if budget is not None:
            kw['itnlim'] = budget
    else:
        if budget is not None:
            kw['matvec_max'] = budget
    if guess is not None:
        kw['guess'] = guess
    s.solve(b, **kw)
    return s


def run(name, A, b, budget=None, guess=None, M=None, ctor=None, **kw):
    """(solver, Op of A, Op of M)"""
    a = A if isinstance(A, Op) else Op(A)
    m = None if M is None else Op(M)
    s = make(name, a.op, None if m is None else m.op, **(ctor or {}))
    solve(name, s, b, budget, guess, **kw)
    return s, a, m


PUBLIC = ('converged', 'nMatvec', 'residNorm', 'residNorm0', 'bestSolution', 'x', 'residHistory', 'resids',
          'iterates', 'definite', 'infiniteDescent', 'istop', 'itn', 'Anorm', 'Acond', 'Arnorm', 'rnorm', 'ynorm',
          'anorm', 'acond', 'xNorm', 'solutionNorm', 'dir_errors_window', 'r1norm', 'r2norm', 'xnorm', 'var',
          'optimal', 'status', 'normal_eqns_resids', 'norms', 'r', 'iterates_p', 'iterates_d',
          'dir_errors_p_window', 'dir_errors_d_window')


def snapshot(s):
    """Copy of the public results of a solver."""
    out = {}
    for k in PUBLIC:
        if hasattr(s, k):
            v = getattr(s, k)
            if isinstance(v, np.ndarray):
                v = v.copy()
            elif isinstance(v, list):
                v = [w.copy() if isinstance(w, np.ndarray) else w for w in v]
            out[k] = v
    return out


def same(u, v, tol=0):
    """Equality of snapshots' values (NaN equals NaN)."""
    if isinstance(u, np.ndarray) or isinstance(v, np.ndarray):
        if u is None or v is None:
            return False
        u, v = np.asarray(u), np.asarray(v)
        if u.shape != v.shape or u.dtype != v.dtype:
            return False
        d = (u == v) | ((u != u) & (v != v))
        if tol:
            d = d | (abs(u - v) <= tol * (1 + abs(v)))
        return bool(d.all())
    if isinstance(u, list) and isinstance(v, list):
        return len(u) == len(v) and all(same(a, b, tol) for a, b in zip(u, v))
    if u is None or v is None or isinstance(u, str) or isinstance(v, str):
        return u is v or u == v
    if isinstance(u, (bool, np.bool_)) or isinstance(v, (bool, np.bool_)):
        return bool(u) == bool(v)
    if u == v or (u != u and v != v):
        return True
    return bool(tol and abs(u - v) <= tol * (1 + abs(v)))


def differs(a, b, tol=0, keys=None):
    """First public attribute in which two snapshots differ, or None."""
    for k in sorted(set(a) | set(b)):
        if keys is not None and k not in keys:
            continue
        if k not in a or k not in b:
            return k
        if not same(a[k], b[k], tol):
            return k
    return None


def attainable(A, xs, b):
    """Rounding allowance for a residual: attainable accuracy of recurrences whose iterates were xs."""
    nx = max([np.linalg.norm(x) for x in xs] + [0.])
    return 2000 * EPS * len(b) * (np.linalg.norm(A) * nx + np.linalg.norm(b))


# ---------------------------------------------------------------- families

def symmats(n, alphabet):
    idx = [(i, j) for i in range(n) for j in range(i, n)]
    for e in itertools.product(alphabet, repeat=len(idx)):
        A = np.zeros((n, n), dtype=int)
        for (i, j), v in zip(idx, e):
            A[i, j] = A[j, i] = v
        yield A


def mats(m, n, alphabet):
    for e in itertools.product(alphabet, repeat=m * n):
        yield np.array(e, dtype=int).reshape(m, n)


def vecs(n, alphabet, zero=False):
    for e in itertools.product(alphabet, repeat=n):
        if zero or any(e):
            yield np.array(e, dtype=int)


def orth(n):
    """A fixed dense orthogonal matrix (product of two reflections)."""
    Q = np.eye(n)
    for s in (1., 2.):
        v = np.cos(s * np.arange(1, n + 1)) + .5
        v /= np.linalg.norm(v)
        Q = np.dot(Q, np.eye(n) - 2 * np.outer(v, v))
    return Q


def big(kind, n):
    """Named structured matrices."""
    i = np.arange(n)
    I, J = np.meshgrid(i, i, indexing='ij')
    if kind == 'lap':
        return 2. * np.eye(n) - (abs(I - J) == 1)
    if kind == 'diag':
        return np.diag(1. + i)
    if kind == 'few':
        Q = orth(n)
        return sy(np.dot(Q * np.array([1., 4., 10.])[i % 3], Q.T))
    if kind == 'spd':
        Q = orth(n)
        return sy(np.dot(Q * (1. + i), Q.T))
    if kind == 'cond3':
        Q = orth(n)
        return sy(np.dot(Q * 10 ** (3. * i / max(n - 1, 1)), Q.T))
    if kind == 'cond6':
        Q = orth(n)
        return sy(np.dot(Q * 10 ** (6. * i / max(n - 1, 1)), Q.T))
    if kind == 'indef':
        Q = orth(n)
        return sy(np.dot(Q * ((-1.) ** i * (1 + i)), Q.T))
    if kind == 'indefdiag':
        return np.diag((-1.) ** i * (1. + i))
    if kind == 'pm':
        Q = orth(n)
        return sy(np.dot(Q * ((-1.) ** i), Q.T))
    if kind == 'sing':
        Q = orth(n)
        return sy(np.dot(Q * i, Q.T))
    if kind == 'conv':
        return 4. * np.eye(n) - 1.5 * (I - J == 1) - .5 * (J - I == 1)
    if kind == 'uns':
        return np.diag(2. + i % 5) + ((I * 7 + J * 3 + 1) % 5 - 2.) / n
    if kind == 'skew':
        return 3. * np.eye(n) + 1. * (J - I == 1) - 1. * (I - J == 1)
    if kind == 'cyc':
        return 1. * ((I - J) % n == 1) + 3. * np.eye(n)
    if kind == 'neg':
        return -big('spd', n)
    if kind == 'ident':
        return np.eye(n) * 3.
    if kind == 'shift':
        return 1. * ((I - J) % n == 1)
    if kind == 'clap':       # Hermitian positive definite
        return big('lap', n) * (1. + 0j) + .5j * (J - I == 1) - .5j * (I - J == 1)
    if kind == 'cuns':
        return big('uns', n) + 1j * (np.diag(1. + i % 3) + .3 * (J - I == 2))
    raise ValueError(kind)


def sy(A):
    return .5 * (A + A.T)


def rhs(kind, n):
    i = np.arange(n)
    if kind == 'ones':
        return np.ones(n)
    if kind == 'e1':
        return 1. * (i == 0)
    if kind == 'alt':
        return (-1.) ** i * (1. + i % 3)
    if kind == 'mix':
        return np.sin(1. + i)
    if kind == 'tiny':
        return 1e-5 * np.sin(1. + i)
    if kind == 'huge':
        return 1e6 * np.sin(1. + i)
    if kind == 'cmix':
        return np.sin(1. + i) + 1j * np.cos(2. * i)
    if kind == 'last':
        return 1. * (i == n - 1)
    raise ValueError(kind)


def points_at(pts, n):
    return [p for p in pts if p.n == n]


def threshold(res0, ctor):
    return max(ctor.get('abstol', 1e-8), ctor.get('reltol', 1e-6) * res0)


def conform(ctx, name, A, b, pts, end, budget=None, guess=None, M=None, ctor=None, tol=1e-6, effective=True, **kw):
    """Solve with the real code and compare with the exact model of the method.

    Requires the returned iterate to be the model's iterate after that many products,
    the reported norm its norm, convergence reported iff met, the counts true, the
    budget kept, and (effective) no early surrender.
    """
    ctor = ctor or {}
    n = len(b)
    s, a, m = run(name, A, b, budget, guess, M, ctor, **kw)
    ctx.step(a.count)
    lim = 2 * n if budget is None else budget
    info = dict(solver=name, A=A, b=b, budget=budget, guess=guess, M=M, nMatvec=s.nMatvec, count=a.count,
                converged=s.converged, x=s.bestSolution, residNorm=s.residNorm)
    ctx.check(s.nMatvec == a.count, 'reported number of products differs from those performed', **info)
    ctx.check(a.count <= max(lim, 0 if guess is None else 1), 'more products than the maximum given', **info)
    ctx.check(s.bestSolution is s.x and s.bestSolution.shape == (n,), 'solution missing or of the wrong size', **info)
    ctx.check(bool(s.converged) in (True, False), 'converged is no flag', **info)
    thr = threshold(np.sqrt(max(pts[0].r2, 0)), ctor)
    ctx.check(abs(s.residNorm0 - np.sqrt(pts[0].r2)) <= 1e-10 * (1 + np.sqrt(pts[0].r2)), 'wrong initial residual norm', want=np.sqrt(pts[0].r2), got=s.residNorm0, **info)
    bound = lambda p: np.sqrt(p.r2) * (np.sqrt(p.m + 1.) if name == 'tfqmr' else 1.)
    xm = max(np.abs(p.x).max() for p in pts)
    cand = points_at(pts, a.count)
    if not cand and pts[-1].n < a.count:
        if end == 'exact':
            ctx.fail('performs more products than finite termination needs', needed=pts[-1].n, **info)
        return 'past breakdown', s, a
    if end == 'breakdown' and not cand:
        cand = [pts[-1]]
    if not cand:
        # the count is between two stopping points (a product was spent on an iterate not returned)
        cand = [[p for p in pts if p.n <= a.count][-1]]
    near = [p for p in cand if np.abs(s.x - p.x).max() <= tol * (1 + xm)]
    if not near and end == 'breakdown' and a.count >= pts[-1].n:
        return 'breakdown', s, a
    ctx.check(near, 'solution is not the iterate of the method after that many products', want=cand[-1].x, **info)
    p = near[-1]
    rm = max(np.sqrt(max(q.r2, 0)) for q in pts)
    ctx.check(abs(s.residNorm - np.sqrt(max(p.r2, 0))) <= tol * (1 + rm), 'reported residual norm is not that of the solution', want=np.sqrt(max(p.r2, 0)), **info)
    met = bound(p)
    if met <= thr * .99:
        ctx.check(s.converged, 'convergence not reported', bound=met, threshold=thr, **info)
    elif met >= thr * 1.01 + tol * 1e-3 * rm:
        ctx.check(not s.converged, 'convergence reported wrongly', bound=met, threshold=thr, **info)
        if effective:
            unit = 2 if name == 'cgs' else 1
            stuck = end in ('breakdown', 'curvature') and a.count >= pts[-1].n
            ctx.check(stuck or a.count + unit > lim, 'gives up before the maximum number of products', **info)
    return ('converged' if s.converged else 'stopped'), s, a
