"""C08: restricted, coordinate, dense, sparse-backed, identity, zero and diagonal operators."""
import itertools
import numpy as np
import pykrylov.linop as lo
from mc import ref

BOUNDS = dict(restricted='every ordered list of distinct rows x every ordered list of distinct columns of 2x3, 3x2, 3x3 (4x4 in thorough) operators of every kind, every index container; '
              'symmetric restriction to every ordered subset',
              coordinates='every list of up to 3 entries over 2x2, 2x3, 3x2 positions (4 in thorough) with repetition, shape given/inferred/partly, symmetric from either triangle; real, integer, complex values',
              dense='every 2x2 matrix over {-1,0,2} with truthful flags, rectangular and complex ones', cholesky='every 1x1..3x3 SPD matrix L L^T over small integer factors, over a stand-in for scikits.sparse',
              diagonal='every diagonal over {-2,0,1,4} of size 1..3, complex ones')
KINDS = ['arr', 'carr', 'int', 'fun', 'cfa', 'expr', 'blk', 'coo', 'view', 'csym', 'her', 'sym', 'cHonly']


def base(kind, m, n):
    M = (np.arange(m * n).reshape(m, n) * 3 % 7 - 2.) + np.eye(m, n)
    C = M + 1j * (np.arange(m * n).reshape(m, n) % 3 - 1)
    if kind == 'arr':
        return lo.linop_from_ndarray(M), M
    if kind == 'carr':
        return lo.linop_from_ndarray(C), C
    if kind == 'int':
        return lo.linop_from_ndarray(M.astype(int)), M
    if kind == 'fun':
        return lo.LinearOperator(n, m, ref.mv(M), matvec_transp=ref.mv(M.T)), M
    if kind == 'cfa':
        return lo.LinearOperator(n, m, ref.mv(C), matvec_adj=ref.mv(C.conj().T), dtype=complex), C
    if kind == 'expr':
        return 2 * lo.linop_from_ndarray(M) - 1j * lo.linop_from_ndarray(C), 2 * M - 1j * C
    if kind == 'blk':
        return lo.BlockLinearOperator([[lo.linop_from_ndarray(C[:, :1]), lo.linop_from_ndarray(C[:, 1:])]]), C
    if kind == 'coo':
        r, c = np.indices(M.shape)
        return lo.CoordLinearOperator(M.ravel(), r.ravel(), c.ravel(), nargin=n, nargout=m), M
    if kind == 'view':
        return lo.linop_from_ndarray(C.conj().T).H, C
    if m != n:
        return None, None
    if kind == 'csym':
        return lo.linop_from_ndarray(C + C.T, symmetric=True), C + C.T
    if kind == 'sym':
        return lo.linop_from_ndarray(M + M.T, symmetric=True), M + M.T
    if kind == 'her':
        return lo.linop_from_ndarray(C + C.conj().T, hermitian=True), C + C.conj().T
    if kind == 'cHonly':
        H = C + C.conj().T
        return lo.LinearOperator(n, n, ref.mv(H), hermitian=True, dtype=complex), H


def arrangements(n):
    for k in range(n + 1):
        for p in itertools.permutations(range(n), k):
            yield list(p)


def cases(tier):
    for m, n in ((1, 1), (2, 2), (2, 3), (3, 2), (3, 3)) + (((4, 4), (2, 4)) if tier == 'thorough' else ()):
        for kind in KINDS:
            if base(kind, m, n)[0] is None or (kind == 'blk' and n == 1):
                continue
            for r in arrangements(m):
                for c in arrangements(n):
                    if m == 4 and (len(r) + len(c)) % 2:
                        continue
                    yield ['red', kind, m, n, r, c, 'list']
            for cont in ('array', 'neg', 'range', 'tuple32'):
                yield ['red', kind, m, n, list(range(m)), list(range(n)), cont]
            if m == n:
                for r in arrangements(m):
                    yield ['sred', kind, m, n, r, r, 'list']
                for cont in ('array', 'neg', 'range', 'tuple32'):
                    yield ['sred', kind, m, n, list(range(m)), list(range(m)), cont]
    for kind in ('arr', 'carr', 'her', 'sym'):
        for r in ([17, 3, 0, 11], list(range(19, -1, -1)), list(range(0, 20, 3))):
            for c in ([5], [19, 0, 7, 8, 2], list(range(1, 20, 2))):
                yield ['red', kind, 20, 20, r, c, 'list']
            yield ['sred', kind, 20, 20, r, r, 'list']
    yield ['nested']
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
        pos = list(itertools.product(range(m), range(n)))
        for k in range(1, (4 if tier == 'quick' else 5)):
            for ent in itertools.product(range(len(pos)), repeat=k):
                if k >= 3 and m * n == 6 and tier == 'quick' and (sum(ent) + ent[0]) % 2:
                    continue
                yield ['coo', m, n, [pos[e] for e in ent], 'all']
    pos = list(itertools.product(range(3), repeat=2))
    for tri in ('up', 'low'):
        q = [p for p in pos if (p[0] <= p[1] if tri == 'up' else p[0] >= p[1])]
        for k in range(1, (4 if tier == 'quick' else 5)):
            for ent in itertools.product(range(len(q)), repeat=k):
                yield ['coosym', tri, [q[e] for e in ent]]
    yield ['coobig']
    for e in itertools.product((-1, 0, 2), repeat=4):
        yield ['arr', [list(e[:2]), list(e[2:])]]
    for e in itertools.product((0, 1, 1j, 2 - 1j), repeat=4):
        yield ['carr', [[str(e[0]), str(e[1])], [str(e[2]), str(e[3])]]]
    for m, n in ((1, 3), (3, 1), (2, 5), (5, 2), (7, 7), (1, 1)):
        for dt in ('int8', 'int64', 'float32', 'float64', 'complex64', 'complex128'):
            for order in ('C', 'F', 'strided'):
                yield ['rect', m, n, dt, order]
    for n in (1, 2, 3):
        for d in itertools.product((-2, 0, 1, 4), repeat=n):
            for dt in ('float', 'int', 'float32'):
                yield ['diag', list(d), dt]
        for d in itertools.product((0, 1j, -4, 3 - 4j), repeat=n):
            yield ['cdiag', [str(z) for z in d]]
    for n in list(range(1, 6)) + [17]:
        yield ['id', n]
        for m in range(1, 5):
            yield ['zero', m, n]
    for n in ('r22', 's22', 'r23', 'r32', 's33', 'r11', 'r13'):
        yield ['psp', n]
    for n in (1, 2, 3):
        for d in itertools.product((1, 2), repeat=n):
            for e in itertools.product((-1, 0, 2), repeat=n * (n - 1) // 2):
                yield ['chol', list(d), list(e)]
    for m, n in ((1, 2), (2, 1), (3, 2)):
        yield ['cholrect', m, n]


def CholeskyOperator():
    """The real class over a stand-in for scikits.sparse (which is not installed)."""
    import importlib
    import sys
    import types
    if 'scikits.sparse.cholmod' not in sys.modules:
        for name in ('scikits', 'scikits.sparse', 'scikits.sparse.cholmod'):
            sys.modules.setdefault(name, types.ModuleType(name))

        def cholesky(A):
            L = np.linalg.cholesky(np.array(A))
            return lambda b: np.linalg.solve(L.T, np.linalg.solve(L, b))
        sys.modules['scikits.sparse.cholmod'].cholesky = cholesky
    return importlib.import_module('pykrylov.linop.cholesky').CholeskyOperator


def judge(ctx, op, M, tol=1e-9, cvec=True, what=''):
    msg = ref.views_act(op, np.asarray(M), tol, step=ctx.step, cvec=cvec)
    ctx.check(not msg, '%s%s' % (what, msg), matrix=M)
    ctx.trace('acts')


def contain(l, how, n):
    if how == 'array':
        return np.array(l)
    if how == 'tuple32':
        return np.array(l, dtype=np.int32)
    if how == 'neg':
        return [i - n for i in l]
    if how == 'range':
        return list(range(l[0], l[-1] + 1))
    return l


VALS = {'float': [1.5, -2., 3., 0.5], 'int': [2, -1, 3, 5], 'complex': [1 + 1j, -2j, 3., 1 - 1j]}


def run(ctx, case):
    kind = case[0]
    ctx.state(case)
    if kind in ('red', 'sred'):
        _, k, m, n, r, c, cont = case
        op, M = base(k, m, n)
        R, C = contain(r, cont, m), contain(c, cont, n)
        keep = list(R), list(C)
        if kind == 'red':
            S = lo.ReducedLinearOperator(op, R, C)
        else:
            S = lo.SymmetricallyReducedLinearOperator(op, R)
        ctx.check(S.shape == (len(r), len(c)), 'shape %r' % (S.shape,))
        judge(ctx, S, M[np.ix_(r, c)])
        judge(ctx, op, M)
        ctx.check((list(R), list(C)) == keep, 'index lists modified')
    elif kind == 'nested':
        op, M = base('carr', 6, 6)
        a = lo.ReducedLinearOperator(op, [5, 1, 3, 0], [2, 4, 0, 1, 5])
        b = lo.ReducedLinearOperator(a, [3, 1], [4, 0, 2])
        N = M[np.ix_([5, 1, 3, 0], [2, 4, 0, 1, 5])]
        judge(ctx, a, N)
        judge(ctx, b, N[np.ix_([3, 1], [4, 0, 2])])
        judge(ctx, lo.ReducedLinearOperator(a.T, [4, 0], [1, 2]), N.T[np.ix_([4, 0], [1, 2])])
        judge(ctx, lo.SymmetricallyReducedLinearOperator(op * op.H, [4, 1]), np.dot(M, M.conj().T)[np.ix_([4, 1], [4, 1])])
    elif kind == 'coo':
        _, m, n, ent, _ = case
        rows, cols = np.array([e[0] for e in ent]), np.array([e[1] for e in ent])
        for dt in ('float', 'int', 'complex'):
            vals = np.array(VALS[dt][:len(ent)] if len(ent) <= 4 else [1] * len(ent))
            M = np.zeros((m, n), dtype=vals.dtype)
            for k, (i, j) in enumerate(ent):
                M[i, j] += vals[k]
            judge(ctx, lo.CoordLinearOperator(vals, rows, cols, nargin=n, nargout=m), M)
            mi, ni = max(rows) + 1, max(cols) + 1
            if dt == 'float':
                judge(ctx, lo.CoordLinearOperator(vals, rows, cols), M[:mi, :ni], what='inferred shape: ')
                judge(ctx, lo.CoordLinearOperator(vals, rows, cols, nargin=n), M[:mi, :], what='inferred rows: ')
                judge(ctx, lo.CoordLinearOperator(vals, rows, cols, nargout=m), M[:, :ni], what='inferred columns: ')
                judge(ctx, lo.CoordLinearOperator(vals, rows, cols, nargin=n + 1, nargout=m + 2), np.pad(M, ((0, 2), (0, 1))), what='wider shape: ')
    elif kind == 'coosym':
        _, tri, ent = case
        rows, cols = np.array([e[0] for e in ent]), np.array([e[1] for e in ent])
        for dt in ('float', 'complex'):
            vals = np.array(VALS[dt][:len(ent)])
            M = np.zeros((3, 3), dtype=vals.dtype)
            for k, (i, j) in enumerate(ent):
                M[i, j] += vals[k]
                if i != j:
                    M[j, i] += vals[k]
            op = lo.CoordLinearOperator(vals, rows, cols, nargin=3, nargout=3, symmetric=True)
            ctx.check(op.symmetric and op.T is op, 'not symmetric although declared so')
            judge(ctx, op, M)
            k = max(max(rows), max(cols)) + 1
            judge(ctx, lo.CoordLinearOperator(vals, rows, cols, symmetric=True), M[:k, :k], what='inferred shape: ')
    elif kind == 'coobig':
        k = 60
        rows, cols = np.arange(k) * 7 % 11, np.arange(k) * 5 % 13
        vals = np.arange(k) % 9 - 4.
        M = np.zeros((11, 13))
        for a in range(k):
            M[rows[a], cols[a]] += vals[a]
        judge(ctx, lo.CoordLinearOperator(vals, rows, cols), M)
        lo_, hi = np.minimum(rows, cols), np.maximum(rows, cols)
        S = np.zeros((13, 13))
        for a in range(k):
            S[lo_[a], hi[a]] += vals[a]
            if lo_[a] != hi[a]:
                S[hi[a], lo_[a]] += vals[a]
        judge(ctx, lo.CoordLinearOperator(vals, lo_, hi, symmetric=True), S)
        judge(ctx, lo.CoordLinearOperator(vals, hi, lo_, symmetric=True), S)
    elif kind in ('arr', 'carr'):
        M = np.array(case[1], dtype=int).astype(float) if kind == 'arr' else np.array([[complex(z) for z in r] for r in case[1]])
        op = lo.linop_from_ndarray(M)
        judge(ctx, op, M)
        if np.array_equal(M, M.T):
            op = lo.linop_from_ndarray(M, symmetric=True)
            ctx.check(op.symmetric, 'not symmetric although declared so')
            judge(ctx, op, M, what='symmetric: ')
        if np.array_equal(M, M.conj().T) and kind == 'carr':
            op = lo.linop_from_ndarray(M, hermitian=True)
            ctx.check(op.hermitian, 'not Hermitian although declared so')
            judge(ctx, op, M, what='hermitian: ')
    elif kind == 'rect':
        _, m, n, dt, order = case
        M = ((np.arange(m * n).reshape(m, n) * 5) % 7 - 3).astype(dt)
        if np.iscomplexobj(M):
            M = (M + 1j * (np.arange(m * n).reshape(m, n) % 2)).astype(dt)
        if order == 'F':
            M = np.asfortranarray(M)
        elif order == 'strided':
            W = np.zeros((2 * m, 3 * n), dtype=dt)
            W[::2, ::3] = M
            M = W[::2, ::3]
        op = lo.linop_from_ndarray(M)
        ctx.check(np.dtype(op.dtype) == M.dtype, 'type %s' % op.dtype)
        judge(ctx, op, M.copy(), 1e-4)
    elif kind in ('diag', 'cdiag'):
        d = np.array([complex(z) for z in case[1]]) if kind == 'cdiag' else np.array(case[1]).astype(case[2])
        op = lo.DiagonalOperator(d)
        D = np.diag(d)
        judge(ctx, op, D)
        ctx.check(np.array_equal(op.diag, d), 'diag is %r' % op.diag)
        judge(ctx, abs(op), np.abs(D), 1e-6, what='abs: ')
        if kind == 'diag' and min(d) < 0:
            try:
                s = lo.sqrt(op)
            except ValueError:
                ctx.trace('no root')
            else:
                ctx.fail('a real diagonal with a negative entry was given a square root', root=s.full())
        else:
            s = lo.sqrt(op)
            judge(ctx, s * s, D, 1e-5, what='square of the root: ')
            judge(ctx, s, np.diag(np.sqrt(d)), 1e-5, what='root: ')
        keep = d.copy()
        d[:] = 77
        judge(ctx, op, np.diag(keep), what='after the array was overwritten: ')
        for bad in (np.ones((2, 2)), np.array(3.)):
            try:
                lo.DiagonalOperator(bad)
            except ValueError:
                continue
            ctx.fail('an array with %d dimensions was accepted as diagonal' % bad.ndim)
    elif kind == 'id':
        n = case[1]
        for dt in (float, int, complex, np.float32):
            op = lo.IdentityOperator(n, dtype=dt)
            judge(ctx, op, np.eye(n, dtype=dt))
            ctx.check(op.symmetric and op.hermitian, 'the identity is not symmetric and Hermitian')
    elif kind == 'zero':
        m, n = case[1:]
        for dt in (float, int, complex):
            op = lo.ZeroOperator(n, m, dtype=dt)
            judge(ctx, op, np.zeros((m, n), dtype=dt))
            judge(ctx, abs(op), np.zeros((m, n)), what='abs: ')
            judge(ctx, lo.sqrt(op), np.zeros((m, n)), what='sqrt: ') if m == n else None
    elif kind == 'chol':
        n = len(case[1])
        L = np.diag(np.array(case[1], float))
        L[np.tril_indices(n, -1)] = case[2]
        M = np.dot(L, L.T)
        op = CholeskyOperator()(M)
        ctx.check(op.symmetric and op.T is op and op.H is op and op.shape == (n, n), 'not a symmetric operator of the size of the matrix')
        judge(ctx, op, np.linalg.inv(M))
        I = op * lo.linop_from_ndarray(M, symmetric=True)
        judge(ctx, I, np.eye(n), what='inverse times matrix: ')
        before = op.full()
        M += np.eye(n)
        ctx.check(np.allclose(op.full(), before), 'the operator changes with the matrix it was made from')
        k = op.nMatvec
        op * np.ones(n)
        ctx.check(op.nMatvec == k + 1, 'a product is not counted once')
    elif kind == 'cholrect':
        try:
            CholeskyOperator()(np.ones(case[1:]))
        except ValueError:
            return
        ctx.fail('a rectangular matrix is accepted')
    elif kind == 'psp':
        M = ref.MAT[case[1]]
        sym = M.shape[0] == M.shape[1] and np.array_equal(M, M.T)
        op = lo.PysparseLinearOperator(ref.FakeSparse(M, sym))
        ctx.check(bool(op.symmetric) == sym, 'symmetric is %r' % op.symmetric)
        judge(ctx, op, M)
        op = lo.PysparseLinearOperator(ref.FakeSparse2(M, sym))
        ctx.check(bool(op.symmetric) == sym, 'symmetric is %r' % op.symmetric)
        judge(ctx, op, M, cvec=False)
