"""Shared pieces: dense reference matrices, an alphabet of operators, comparisons."""
import numpy as np
import pykrylov.linop as lo

I2 = np.eye(2)


def c(a, dtype=None):
    return np.array(a, dtype=dtype)


# Small exactly representable matrices, no accidental symmetry unless named so.
MAT = {
    'r22': c([[1, 2], [-1, 3]], float),
    'i22': c([[2, -1], [3, 1]], int),
    'c22': c([[1 + 1j, 2], [-1j, 3 - 1j]], complex),
    's22': c([[2, -1], [-1, 3]], float),
    'h22': c([[2, 1j], [-1j, 3]], complex),
    'cs22': c([[1 + 1j, 2 - 1j], [2 - 1j, 1j]], complex),
    'r23': c([[1, -2, 0], [3, 1, 2]], float),
    'c23': c([[1, 1j, 0], [2 - 1j, -1, 1]], complex),
    'r32': c([[1, 0], [-2, 1], [3, 2]], float),
    'c32': c([[1j, 1], [0, 2 + 1j], [-1, 1 - 1j]], complex),
    'f22': c([[1, -2], [2, 1]], np.float32),
    'r33': c([[1, 2, 0], [0, -1, 3], [2, 0, 1]], float),
    's33': c([[2, -1, 1], [-1, 3, 0], [1, 0, -1]], float),
    'h33': c([[2, 1j, 0], [-1j, 1, 1 + 1j], [0, 1 - 1j, -1]], complex),
    'c33': c([[1, 1j, 0], [2, -1, 1 - 1j], [0, 1, 2j]], complex),
    'r11': c([[3]], float),
    'c11': c([[2 - 1j]], complex),
    'r13': c([[1, -2, 3]], float),
    'r31': c([[1], [2], [-1]], float),
    'c13': c([[1j, 2, 1 - 1j]], complex),
}


def mv(M):
    return lambda x: np.dot(M, x)


def from_array(name):
    M = MAT[name]
    sym = M.shape[0] == M.shape[1] and np.array_equal(M, M.T)
    her = M.shape[0] == M.shape[1] and np.array_equal(M, M.conj().T)
    if np.iscomplexobj(M):
        return lo.linop_from_ndarray(M, symmetric=sym, hermitian=her), M
    return lo.linop_from_ndarray(M, symmetric=sym), M


def by_function(name, how):
    """A LinearOperator that is told: t(ranspose), a(djoint), s(ymmetric), h(ermitian)."""
    M = MAT[name]
    kw = {}
    if 't' in how:
        kw['matvec_transp'] = mv(M.T)
    if 'a' in how:
        kw['matvec_adj'] = mv(M.conj().T)
    if 's' in how:
        kw['symmetric'] = True
    if 'h' in how:
        kw['hermitian'] = True
    return lo.LinearOperator(M.shape[1], M.shape[0], matvec=mv(M), dtype=M.dtype, **kw), M


class FakeSparse(object):
    """Stands in for a Pysparse matrix (products from either side)."""

    def __init__(self, M, sym):
        self.M, self.issym, self.shape = M, sym, M.shape

    def __mul__(self, x):
        return np.dot(self.M, x)

    def __rmul__(self, y):
        return np.dot(self.M.T, y)
    __array_priority__ = 1000
    __array_ufunc__ = None


class FakeSparse2(object):
    """The other Pysparse interface: matvec into a given array."""

    def __init__(self, M, sym):
        self.M, self.sym, self.shape = M, sym, M.shape

    def isSymmetric(self):
        return self.sym

    def matvec(self, x, y):
        y[:] = np.dot(self.M, x)

    def matvec_transp(self, x, y):
        y[:] = np.dot(self.M.T, x)


def coord(name, symmetric=False):
    M = MAT[name]
    ent = [(i, j) for i in range(M.shape[0]) for j in range(M.shape[1]) if M[i, j] != 0 and (not symmetric or i <= j)]
    rows = np.array([e[0] for e in ent], dtype=int)
    cols = np.array([e[1] for e in ent], dtype=int)
    vals = np.array([M[e] for e in ent], dtype=M.dtype)
    return lo.CoordLinearOperator(vals, rows, cols, nargin=M.shape[1], nargout=M.shape[0], symmetric=symmetric), M


def leaf(spec):
    """spec -> (operator, dense matrix)."""
    kind, _, arg = spec.partition(':')
    if kind == 'arr':
        return from_array(arg)
    if kind == 'fun':
        name, _, how = arg.partition('/')
        return by_function(name, how)
    if kind == 'id':
        return lo.IdentityOperator(int(arg)), np.eye(int(arg))
    if kind == 'idc':
        return lo.IdentityOperator(int(arg), dtype=complex), np.eye(int(arg), dtype=complex)
    if kind == 'zero':
        m, n = arg.split('x')
        return lo.ZeroOperator(int(n), int(m)), np.zeros((int(m), int(n)))
    if kind == 'diag':
        d = {'r2': c([2, -3], float), 'c2': c([1j, 2 - 1j], complex), 'i2': c([2, 5], int),
             'r3': c([1, -2, 4], float), 'c3': c([1j, 2, 1 - 1j], complex), 'p2': c([4, 9], float)}[arg]
        return lo.DiagonalOperator(d), np.diag(d)
    if kind == 'coo':
        return coord(arg)
    if kind == 'coos':
        return coord(arg, True)
    if kind == 'psp':
        M = MAT[arg]
        return lo.PysparseLinearOperator(FakeSparse(M, M.shape[0] == M.shape[1] and np.array_equal(M, M.T))), M
    if kind == 'psp2':
        M = MAT[arg]
        return lo.PysparseLinearOperator(FakeSparse2(M, M.shape[0] == M.shape[1] and np.array_equal(M, M.T))), M
    if kind == 'red':
        op, M = from_array(arg)
        r = [0, M.shape[0] - 1] if M.shape[0] > 1 else [0]
        k = list(range(M.shape[1]))[::-1]
        return lo.ReducedLinearOperator(op, r, k), M[np.ix_(r, k)]
    if kind == 'sred':
        op, M = from_array(arg)
        r = [M.shape[0] - 1, 0]
        return lo.SymmetricallyReducedLinearOperator(op, r), M[np.ix_(r, r)]
    if kind == 'blk':
        if arg == 'r':
            (a, A), (b, B) = from_array('r22'), from_array('r23')
            (d, D), (e, E) = from_array('r32'), from_array('s33')
            return lo.BlockLinearOperator([[a, b], [d, e]]), np.block([[A, B], [D, E]])
        if arg == 's':
            (a, A), (b, B), (e, E) = from_array('s22'), from_array('r23'), from_array('s33')
            return lo.BlockLinearOperator([[a, b], [e]], symmetric=True), np.block([[A, B], [B.T, E]])
        if arg == 'h':
            (a, A), (b, B), (e, E) = from_array('h22'), from_array('c23'), from_array('h33')
            return lo.BlockLinearOperator([[a, b], [e]], hermitian=True), np.block([[A, B], [B.conj().T, E]])
        if arg == '2':      # 2x2 in all
            (a, A) = from_array('r11')
            (b, B) = from_array('c11')
            return lo.BlockLinearOperator([[a, b], [b, a]]), np.block([[A, B], [B, A]])
    if kind == 'bdi':
        if arg == 'r':
            (a, A), (b, B) = from_array('r23'), from_array('s22')
            return lo.BlockDiagonalLinearOperator([a, b]), np.block([[A, np.zeros((2, 2))], [np.zeros((2, 3)), B]])
        if arg == '2':
            (a, A), (b, B) = from_array('c11'), from_array('r11')
            return lo.BlockDiagonalLinearOperator([a, b]), np.block([[A, np.zeros((1, 1))], [np.zeros((1, 1)), B]])
    if kind == 'lb':
        cls = {'i': lo.InverseLBFGSOperator, 'f': lo.LBFGSOperator, 'c': lo.CompactLBFGSOperator}[arg]
        op = cls(2, npairs=2)
        s, y = np.array([1., 1.]), np.array([2., 1.])
        op.store(s, y)
        rho = 1.0 / y.dot(s)
        V = np.eye(2) - rho * np.outer(s, y)
        H = V.dot(V.T) + rho * np.outer(s, s)
        return op, (H if arg == 'i' else np.linalg.inv(H))
    if kind == 'emp':         # no rows or no columns
        how, m, n = arg.split(':')
        m, n = int(m), int(n)
        A = np.zeros((m, n), dtype=complex if how == 'carr' else float)
        if how == 'zero':
            return lo.ZeroOperator(n, m), A
        if how == 'red':
            return lo.ReducedLinearOperator(from_array('c33')[0], list(range(m)), list(range(n))), A + 0j
        if how == 'fun':
            return lo.LinearOperator(n, m, mv(A), matvec_transp=mv(A.T)), A
        return lo.linop_from_ndarray(A), A
    if kind == 'big':
        return big(*arg.split(':'))
    raise ValueError(spec)


EMPTY = ['emp:%s:%d:%d' % (k, m, n) for k in ('arr', 'carr', 'fun', 'zero', 'red') for m, n in ((0, 0), (0, 2), (2, 0))] + \
    ['big:%s:0' % k for k in ('sym', 'her', 'csym', 'cfa', 'diag', 'cdiag', 'id', 'sred', 'blk', 'blksym', 'blkher')]
BIG = ['arr', 'carr', 'sym', 'her', 'csym', 'fun', 'cfa', 'diag', 'cdiag', 'id', 'zero', 'coo', 'coosym', 'red', 'sred', 'blk', 'tall', 'wide', 'bdi', 'blksym', 'blkher']


def dense(m, n, seed, cplx=False):
    """A fixed integer matrix without structure."""
    i, j = np.indices((m, n))
    M = ((7 * i * i + 13 * j + 3 * i * j + 5 * seed) % 11 - 5.)
    return M + 1j * ((5 * i + 11 * j * j + i * j + seed) % 7 - 3.) if cplx else M


def big(kind, n):
    """Operators of any size: loops that work in pieces must not lose the last one."""
    n = int(n)
    M, C = dense(n, n, 1), dense(n, n, 2, True)
    if kind in ('arr', 'carr'):
        M = M if kind == 'arr' else C
        return lo.linop_from_ndarray(M), M
    if kind in ('sym', 'her', 'csym'):
        M = {'sym': M + M.T, 'her': C + C.conj().T, 'csym': C + C.T}[kind]
        return lo.linop_from_ndarray(M, symmetric=kind != 'her', hermitian=kind != 'csym'), M
    if kind == 'fun':
        return lo.LinearOperator(n, n, mv(M), matvec_transp=mv(M.T)), M
    if kind == 'cfa':
        return lo.LinearOperator(n, n, mv(C), matvec_adj=mv(C.conj().T), dtype=complex), C
    if kind in ('diag', 'cdiag'):
        d = np.arange(n) % 5 - 2. + (1j * (np.arange(n) % 3) if kind == 'cdiag' else 0)
        return lo.DiagonalOperator(d), np.diag(d)
    if kind == 'id':
        return lo.IdentityOperator(n), np.eye(n)
    if kind == 'zero':
        return lo.ZeroOperator(n, n), np.zeros((n, n))
    if kind in ('coo', 'coosym'):
        i, j = np.indices((n, n))
        M = np.where((i == j) | ((3 * i + j) % n < 2), M, 0.)
        rows, cols = np.nonzero(np.triu(M) if kind == 'coosym' else M)
        vals = M[rows, cols]
        if kind == 'coosym':
            U = np.triu(M)
            return lo.CoordLinearOperator(vals, rows, cols, nargin=n, nargout=n, symmetric=True), U + np.triu(U, 1).T
        return lo.CoordLinearOperator(vals, rows, cols, nargin=n, nargout=n), M
    if kind == 'red':
        N = dense(n + 3, n + 2, 3, True)
        r, c = list(range(n + 2, 2, -1)), list(range(1, n + 1))
        return lo.ReducedLinearOperator(lo.linop_from_ndarray(N), r, c), N[np.ix_(r, c)]
    if kind == 'sred':
        N = dense(2 * n, 2 * n, 4)
        r = list(range(0, 2 * n, 2))
        return lo.SymmetricallyReducedLinearOperator(lo.linop_from_ndarray(N + N.T, symmetric=True, hermitian=True), r), (N + N.T)[np.ix_(r, r)]
    k = n // 2
    if kind == 'blk':
        B = [[dense(k, n - k, 5), dense(k, k, 6, True)], [dense(n - k, n - k, 7), dense(n - k, k, 8)]]
        return lo.BlockLinearOperator([[lo.linop_from_ndarray(b) for b in r] for r in B]), np.block(B)
    if kind in ('tall', 'wide', 'bdi'):       # as many blocks as rows
        B = [dense(1, 1, i, i % 3 == 1) for i in range(n)]
        ops = [lo.linop_from_ndarray(b) for b in B]
        if kind == 'tall':
            return lo.BlockLinearOperator([[o] for o in ops]), np.vstack(B)
        if kind == 'wide':
            return lo.BlockLinearOperator([ops]), np.hstack(B)
        return lo.BlockDiagonalLinearOperator(ops), np.diag([b[0, 0] for b in B])
    A, D, B = dense(k, k, 9), dense(n - k, n - k, 10), dense(k, n - k, 11)
    if kind == 'blksym':
        A, D = A + A.T, D + D.T
        return lo.BlockLinearOperator([[lo.linop_from_ndarray(A, symmetric=True, hermitian=True), lo.linop_from_ndarray(B)], [lo.linop_from_ndarray(D, symmetric=True, hermitian=True)]], symmetric=True), \
            np.block([[A, B], [B.T, D]])
    if kind == 'blkher':
        A, D, B = C[:k, :k] + C[:k, :k].conj().T, D + D.T, B * (1 + 2j)
        return lo.BlockLinearOperator([[lo.linop_from_ndarray(A, hermitian=True), lo.linop_from_ndarray(B)], [lo.linop_from_ndarray(D, symmetric=True, hermitian=True)]],
                                      hermitian=True), np.block([[A, B], [B.conj().T, D]])
    raise ValueError(kind)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    return np.max(np.abs(a - b)) <= tol * (1.0 + np.max(np.abs(b)))


def tol_for(*dtypes):
    t = np.result_type(*dtypes)
    return 1e-4 if t in (np.dtype(np.float32), np.dtype(np.complex64)) else (2e-2 if t == np.dtype(np.float16) else 1e-9)


def acts_as(op, M, tol=1e-9, cvec=True, step=None):
    """Does op * x equal M x on every basis vector and on a full real and complex vector?"""
    m, n = M.shape
    if op.shape != (m, n):
        return 'shape %r instead of %r' % (op.shape, (m, n))
    basis = np.eye(n)
    vecs = (list(basis) if n <= 20 else [basis[0], basis[n // 2], basis[n - 1], 1. * (np.arange(n) % 3 == 1)]) + [np.arange(1., n + 1)]
    if cvec:
        vecs.append((1 + np.arange(n)) * (1 - 2j) + 0.5)
    for v in vecs:
        keep = v.copy()
        y = op * v
        if step:
            step()
        if not close(y, np.dot(M, keep), tol):
            return 'product with %r gives %r instead of %r' % (keep.tolist(), np.asarray(y).tolist(), np.dot(M, keep).tolist())
        if not np.array_equal(v, keep):
            return 'vector modified'
    return None


def views_act(op, M, tol=1e-9, step=None, cvec=True, full=False):
    """Check op, op.T, op.H, op.bar and op.full() against M.  Returns a message or None."""
    for name, o, N in (('op', op, M), ('op.T', op.T, M.T), ('op.H', op.H, M.conj().T), ('op.bar', op.bar, M.conj())):
        if o is None:
            return name + ' is missing'
        msg = acts_as(o, N, tol, step=step, cvec=cvec)
        if msg:
            return name + ': ' + msg
    if M.shape[1] > 40 and not full:
        return None
    F = op.full()
    if not close(F, M, tol):
        return 'full() gives %r instead of %r' % (F.tolist(), M.tolist())
    return None
