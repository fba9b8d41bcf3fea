"""C04: result types, result sizes, refusal of what does not fit."""
import itertools
import numpy as np
import pykrylov.linop as lo
from pykrylov.linop.linop import ShapeError
from mc import ref

TYPES = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64', 'complex64', 'complex128']
EXTRA = ['float16', 'longdouble', 'clongdouble']
KINDS = ['arr', 'arrsym', 'fun', 'funa', 'diag', 'id', 'zero', 'coo', 'red', 'sred', 'blk', 'bdi', 'blksym', 'view']
SCAL = {'2': 2, '0': 0, '1.5': 1.5, '1j': 1j, 'i8': np.int8(2), 'f4': np.float32(2), 'f8': np.float64(2), 'c8': np.complex64(2), 'c16': np.complex128(2), 'True': True}
BOUNDS = dict(types=TYPES + EXTRA, constructors=KINDS, scalars=sorted(SCAL), shapes='1..4 x 1..4 (quick), 1..5 (thorough), vector sizes 0..7',
              garbage='None, lists, strings, tuples, dictionaries, sets, functions, arrays, sparse-like objects')


def make(kind, dt):
    """An operator of type dt and its matrix; entries small enough for every type."""
    R = np.array([[1, 2], [3, 1]]).astype(dt)
    S = np.array([[1, 2], [2, 3]]).astype(dt)
    if np.iscomplexobj(R):
        R = R + np.array([[1j, 0], [0, 2j]]).astype(dt)
    if kind == 'arr':
        return lo.linop_from_ndarray(R), R
    if kind == 'arrsym':
        return lo.linop_from_ndarray(S, symmetric=True), S
    if kind == 'fun':
        return lo.LinearOperator(2, 2, ref.mv(R), matvec_transp=ref.mv(R.T), dtype=R.dtype), R
    if kind == 'funa':
        return lo.LinearOperator(2, 2, ref.mv(R), matvec_adj=ref.mv(R.conj().T), dtype=R.dtype), R
    if kind == 'view':
        o = lo.LinearOperator(2, 2, ref.mv(R.T), matvec_transp=ref.mv(R), dtype=R.dtype)
        return o.T, R
    if kind == 'diag':
        return lo.DiagonalOperator(R.diagonal().copy()), np.diag(R.diagonal())
    if kind == 'id':
        return lo.IdentityOperator(2, dtype=R.dtype), np.eye(2).astype(dt)
    if kind == 'zero':
        return lo.ZeroOperator(2, 3, dtype=R.dtype), np.zeros((3, 2)).astype(dt)
    if kind == 'coo':
        return lo.CoordLinearOperator(R.ravel(), np.array([0, 0, 1, 1]), np.array([0, 1, 0, 1])), R
    if kind == 'red':
        return lo.ReducedLinearOperator(lo.linop_from_ndarray(R), [1], [1, 0]), R[np.ix_([1], [1, 0])]
    if kind == 'sred':
        return lo.SymmetricallyReducedLinearOperator(lo.linop_from_ndarray(R), [1, 0]), R[np.ix_([1, 0], [1, 0])]
    A = lo.linop_from_ndarray(R)
    B = lo.linop_from_ndarray(S, symmetric=True)
    if kind == 'blk':
        return lo.BlockLinearOperator([[A, B], [B, A]]), np.block([[R, S], [S, R]])
    if kind == 'blksym':
        return lo.BlockLinearOperator([[B, A], [B]], symmetric=True), np.block([[S, R], [R.T, S]])
    if kind == 'bdi':
        return lo.BlockDiagonalLinearOperator([A, B]), np.block([[R, 0 * R], [0 * R, S]])
    raise ValueError(kind)


def rect(m, n, kind):
    M = (np.arange(m * n).reshape(m, n) % 5 - 2.) + np.eye(m, n)
    if kind == 'arr':
        return lo.linop_from_ndarray(M)
    if kind == 'fun':
        return lo.LinearOperator(n, m, ref.mv(M), matvec_transp=ref.mv(M.T))
    if kind == 'zero':
        return lo.ZeroOperator(n, m)
    if kind == 'lax':        # accepts and returns anything
        return lo.LinearOperator(n, m, lambda x: np.resize(x, m), matvec_transp=lambda x: np.resize(x, n))
    if kind == 'coo':
        r, c = np.indices(M.shape)
        return lo.CoordLinearOperator(M.ravel(), r.ravel(), c.ravel(), nargin=n, nargout=m)
    if kind == 'red':
        return lo.ReducedLinearOperator(lo.linop_from_ndarray(np.ones((5, 5))), list(range(m)), list(range(n)))
    if kind == 'blk':
        return lo.BlockLinearOperator([[rect(m, n, 'arr')]])
    if kind == 'sum':
        return rect(m, n, 'arr') + rect(m, n, 'zero')
    if kind == 'prod':
        return rect(m, 2, 'arr') * rect(2, n, 'arr')
    if kind == 'scal':
        return 2 * rect(m, n, 'arr')
    if kind == 'T':
        return rect(n, m, 'arr').T
    if kind in ('id', 'diag', 'sym', 'bdi', 'lb', 'sred'):
        if m != n:
            return None
        return {'id': lambda: lo.IdentityOperator(n), 'diag': lambda: lo.DiagonalOperator(np.ones(n)),
                'sym': lambda: lo.linop_from_ndarray(np.eye(n), symmetric=True),
                'bdi': lambda: lo.BlockDiagonalLinearOperator([lo.IdentityOperator(1)] * n),
                'lb': lambda: lo.InverseLBFGSOperator(n), 'sred': lambda: lo.SymmetricallyReducedLinearOperator(lo.linop_from_ndarray(np.eye(6), symmetric=True), list(range(n)))}[kind]()


RK = ['arr', 'fun', 'zero', 'lax', 'coo', 'red', 'blk', 'sum', 'prod', 'scal', 'T', 'id', 'diag', 'sym', 'bdi', 'lb', 'sred']


class Sparse(object):
    shape = (2, 2)

    def __mul__(self, x):
        return x


GARBAGE = {'None': None, 'list': [1., 2.], 'tuple': (1., 2.), 'str': 'abc', 'str1': '2', 'bytes': b'x', 'dict': {}, 'set': {1}, 'func': len, 'obj': Sparse(), 'type': float,
           'bytearray': bytearray(b'ab'), 'range': range(2), 'nested': [[1, 2], [3, 4]]}


def cases(tier):
    T = TYPES + (EXTRA if tier == 'thorough' else ['longdouble'])
    for k in KINDS:
        for a, b in itertools.product(T, T):
            yield ['type', k, a, b]
    ek = ['arr', 'diag', 'id', 'blk', 'fun'] if tier == 'quick' else [k for k in KINDS if k not in ('red', 'zero')]
    for k1, k2 in itertools.product(ek, ek):
        for a, b in itertools.product(TYPES, TYPES):
            if tier == 'quick' and k1 != 'arr' and k2 != 'arr':
                continue
            yield ['expr', k1, k2, a, b]
    for k in KINDS:
        for a in T:
            for s in SCAL:
                yield ['scal', k, a, s]
            for p in range(4):
                yield ['pow', k, a, p]
    top = 4 if tier == 'quick' else 5
    dims = list(itertools.product(range(1, top + 1), repeat=2))
    for k in RK:
        for m, n in dims:
            yield ['vec', k, m, n]
            yield ['powrect', k, m, n]
    for k1, k2 in itertools.product(RK, RK):
        if tier == 'quick' and not (k1 in ('arr', 'lax', 'id', 'blk') or k2 in ('arr', 'lax', 'zero')):
            continue
        for d, e in itertools.product(dims, dims):
            yield ['pair', k1, k2, d, e]
    for k in RK:
        for g in GARBAGE:
            yield ['garbage', k, g]
    for m, n in dims:
        for d in (-1, 1, 2, 5):
            yield ['badfun', m, n, d]


def refused(ctx, f, what):
    ctx.step()
    try:
        r = f()
    except Exception as e:
        ctx.trace('refused ' + type(e).__name__)
        return
    ctx.fail('%s was accepted and gave %r' % (what, r))


def typed(ctx, op, M, dt, what):
    ctx.check(np.dtype(op.dtype) == np.dtype(dt), '%s has type %s instead of %s' % (what, np.dtype(op.dtype), np.dtype(dt)))
    for name, o, N in (('', op, M), ('.T', op.T, M.T), ('.H', op.H, M.conj().T), ('.bar', op.bar, M.conj())):
        ctx.check(np.dtype(o.dtype) == np.dtype(dt), '%s%s has type %s instead of %s' % (what, name, np.dtype(o.dtype), np.dtype(dt)))
        for vt in ('int64', 'float32', 'float64', 'complex64', 'complex128'):
            x = np.array([1, 2, 1, 3][:N.shape[1]]).astype(vt)
            y = o * x
            ctx.step()
            R = np.result_type(np.dtype(dt), np.dtype(vt))
            ctx.check(isinstance(y, np.ndarray) and y.shape == (N.shape[0],), '%s%s * x has shape %r' % (what, name, np.shape(y)))
            ctx.check(y.dtype == R, '%s%s of type %s times %s vector gives %s instead of %s' % (what, name, np.dtype(dt), vt, y.dtype, R))
            ctx.check(ref.close(y, np.dot(N.astype(complex), x), 1e-3), '%s%s * x is wrong' % (what, name), got=y, want=np.dot(N.astype(complex), x))
    F = op.full()
    ctx.check(F.dtype == np.dtype(dt) and F.shape == op.shape, '%s.full() has type %s' % (what, F.dtype))
    ctx.trace('typed')


def run(ctx, case):
    kind = case[0]
    ctx.state(case)
    if kind == 'type':
        _, k, a, b = case
        op, M = make(k, a)
        R = np.result_type(np.dtype(a), np.dtype(b))
        ctx.check(np.dtype(op.dtype) == np.dtype(a), 'operator has type %s instead of %s' % (np.dtype(op.dtype), a))
        for name, o, N in (('', op, M), ('.T', op.T, M.T), ('.H', op.H, M.conj().T), ('.bar', op.bar, M.conj())):
            x = (np.arange(N.shape[1]) % 2 + 1).astype(b)
            want = np.dot(N.astype(complex), x)
            for sh in ((N.shape[1],), (N.shape[1], 1), (1, N.shape[1])):
                y = o * x.reshape(sh)
                ctx.step()
                ctx.check(isinstance(y, np.ndarray) and y.shape == (N.shape[0],), '%s%s * x has shape %r instead of %r' % (k, name, np.shape(y), (N.shape[0],)))
                ctx.check(y.dtype == R, '%s%s of type %s times %s vector gives %s instead of %s' % (k, name, a, b, y.dtype, R))
                ctx.check(ref.close(y, want, 5e-2 if 'float16' in (a, b) else 1e-3), 'wrong product', got=y, want=want)
            y = o(x)
            ctx.check(y.dtype == R, 'call gives %s instead of %s' % (y.dtype, R))
            ctx.trace('type')
    elif kind == 'expr':
        _, k1, k2, a, b = case
        (A, M), (B, N) = make(k1, a), make(k2, b)
        R = np.result_type(np.dtype(a), np.dtype(b))
        if M.shape == N.shape:
            typed(ctx, A + B, M + N, R, 'sum')
            # (unsigned differences wrap in numpy too: only the type is promised there)
            D = A - B
            ctx.check(np.dtype(D.dtype) == R, 'difference has type %s instead of %s' % (D.dtype, R))
            ctx.check((D * np.ones(M.shape[1])).dtype == np.result_type(R, float), 'difference product has type %s' % (D * np.ones(M.shape[1])).dtype)
            if R.kind != 'u':
                pass
        if M.shape[1] == N.shape[0]:
            typed(ctx, A * B, np.dot(M, N), R, 'product')
    elif kind == 'scal':
        _, k, a, s = case
        A, M = make(k, a)
        z = SCAL[s]
        R = np.result_type(np.dtype(a), type(z))
        forms = [('A*s', A * z)]
        if not isinstance(z, np.generic):      # numpy scalars on the left are turned into python ones by numpy
            forms.append(('s*A', z * A))
        for w, o in forms:
            typed(ctx, o, complex(z) * M if R.kind == 'c' else (z * M), R, w)
        if s != '0':
            q = A / z
            ctx.check(np.dtype(q.dtype).kind in 'fc', 'quotient has type %s' % q.dtype)
            y = q * np.ones(M.shape[1])
            ctx.check(ref.close(y, M.sum(axis=1) / complex(z), 1e-3), 'wrong quotient', got=y)
        if np.dtype(a).kind != 'u':
            typed(ctx, -A, -M, np.result_type(np.dtype(a), int), '-A')
    elif kind == 'pow':
        _, k, a, p = case
        A, M = make(k, a)
        if M.shape[0] != M.shape[1]:
            refused(ctx, lambda: A ** p, 'power of a rectangular operator')
            return
        typed(ctx, A ** p, np.linalg.matrix_power(M.astype(complex), p), a, 'A**%d' % p)
    elif kind == 'vec':
        _, k, m, n = case
        op = rect(m, n, k)
        if op is None:
            return
        for o, nm in ((op, ''), (op.T, '.T'), (op.H, '.H'), (op.bar, '.bar')):
            for size in range(8):
                for dt in (float, complex, int):
                    x = np.ones(size, dtype=dt)
                    shapes = [(size,), (size, 1)] + ([(2, size // 2)] if size % 2 == 0 else [])
                    for sh in shapes:
                        v = x.reshape(sh)
                        if size != o.shape[1]:
                            refused(ctx, lambda: o * v, '%s%s of shape %r times a vector of size %d' % (k, nm, o.shape, size))
                            refused(ctx, lambda: o(v), '%s%s of shape %r called with a vector of size %d' % (k, nm, o.shape, size))
                        else:
                            y = o * v
                            ctx.step()
                            ctx.check(y.shape == (o.shape[0],), 'result of shape %r' % (y.shape,))
                            ctx.trace('right size')
    elif kind == 'powrect':
        _, k, m, n = case
        op = rect(m, n, k)
        if op is None:
            return
        if m != n:
            for p in range(4):
                refused(ctx, lambda: op ** p, 'power %d of shape %r' % (p, (m, n)))
        for bad in (-1, -2, 0.5, 2.0, 1j, None, '2', op, np.ones(2), [2]):
            refused(ctx, lambda: op ** bad, 'power %r' % (bad,))
        refused(ctx, lambda: op / 0, 'division by 0')
        refused(ctx, lambda: op / 0., 'division by 0.')
    elif kind == 'pair':
        _, k1, k2, d, e = case
        A, B = rect(d[0], d[1], k1), rect(e[0], e[1], k2)
        if A is None or B is None:
            return
        ok = tuple(d) == tuple(e)
        for o, f in (('+', lambda: A + B), ('-', lambda: A - B)):
            if ok:
                r = f()
                ctx.check(r.shape == tuple(d), 'sum has shape %r' % (r.shape,))
                ctx.check((r * np.ones(d[1])).shape == (d[0],) and (r.T * np.ones(d[0])).shape == (d[1],), 'products of the sum have the wrong size')
                ctx.trace('fits')
            else:
                refused(ctx, f, 'shape %r %s shape %r' % (d, o, e))
        for f, w in ((lambda: A * B, 'product'), (lambda: A(B), 'call')):
            if d[1] == e[0]:
                r = f()
                ctx.check(r.shape == (d[0], e[1]), 'product has shape %r' % (r.shape,))
                ctx.check((r * np.ones(e[1])).shape == (d[0],) and (r.T * np.ones(d[0])).shape == (e[1],), 'products have the wrong size')
                ctx.trace('fits')
            else:
                refused(ctx, f, '%s of shapes %r and %r' % (w, d, e))
        refused(ctx, lambda: A / B, 'operator / operator')
    elif kind == 'garbage':
        _, k, g = case
        op = rect(2, 2, k)
        z = GARBAGE[g]
        for w, f in (('op * ', lambda: op * z), ('op(.)', lambda: op(z)), ('op + ', lambda: op + z), ('op - ', lambda: op - z), ('op / ', lambda: op / z),
                     ('classic op / ', lambda: op.__div__(z)), ('. * op', lambda: z * op), ('. + op', lambda: z + op), ('. - op', lambda: z - op), ('. / op', lambda: z / op)):
            if w in ('. * op',) and g == 'obj':
                continue        # the other object's own __mul__ decides
            refused(ctx, f, '%s with %s' % (w, g))
        for w, f in (('op + 1', lambda: op + 1), ('op - 1.5', lambda: op - 1.5), ('1 + op', lambda: 1 + op), ('1 / op', lambda: 1 / op),
                     ('op + vector', lambda: op + np.ones(2)), ('op - vector', lambda: op - np.ones(2)), ('op / vector', lambda: op / np.ones(2)),
                     ('op + matrix', lambda: op + np.ones((2, 2))), ('op / matrix', lambda: op / np.ones((2, 2)))):
            refused(ctx, f, w)
    else:
        _, m, n, d = case
        if m + d < 0:
            return
        op = lo.LinearOperator(n, m, lambda x: np.ones(m + d), matvec_transp=lambda x: np.ones(n + d if n + d >= 0 else 0))
        refused(ctx, lambda: op * np.ones(n), 'a product function returning %d entries instead of %d' % (m + d, m))
        if n + d >= 0:
            refused(ctx, lambda: op.T * np.ones(m), 'a transpose product function returning %d entries instead of %d' % (n + d, n))
