"""C28: gallery products against assembled Poisson matrices, column by column."""
import numpy as np
from pykrylov.gallery import Poisson1dMatvec, Poisson2dMatvec

TYPES = ['int8', 'int16', 'int32', 'int64', 'float32', 'float64', 'longdouble', 'complex64', 'complex128']
BOUNDS = dict(one_d='every size 1..60 (quick) / 1..200', two_d='every grid side 1..16 (quick) / 1..30, and 40', types=TYPES, vectors='every basis vector, a ramp, an alternating and a complex one; contiguous, strided, read-only')


def p1(n):
    return 2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)


def p2(n):
    return np.kron(np.eye(n), p1(n)) + np.kron(p1(n), np.eye(n))


def cases(tier):
    for n in range(1, 61 if tier == 'quick' else 201):
        yield ['1', n]
    for n in range(1, 17 if tier == 'quick' else 31):
        yield ['2', n]
    yield ['big', 40]
    for n in range(1, 16):
        for t in TYPES:
            yield ['t', n, t]


def apply(ctx, f, x, want, what):
    keep = x.copy()
    y = f(x)
    ctx.step()
    ctx.check(y.shape == x.shape and np.max(np.abs(y - want)) <= 1e-6 * (1 + np.max(np.abs(want))), '%s: wrong product' % what, got=y, want=want)
    ctx.check(np.array_equal(x, keep), '%s: the argument was modified' % what)
    ctx.check(not np.shares_memory(x, y), '%s: the result shares memory with the argument' % what)
    return y


def run(ctx, case):
    kind, n = case[:2]
    ctx.state(case)
    todo = {'1': [(Poisson1dMatvec, p1(n), '1d %d' % n)], '2': [(Poisson2dMatvec, p2(n), '2d %d' % n)], 'big': [(Poisson2dMatvec, p2(n), '2d %d' % n)],
            't': [(Poisson1dMatvec, p1(n), '1d %d' % n), (Poisson2dMatvec, p2(n), '2d %d' % n)]}[kind]
    for f, M, what in todo:
        N = M.shape[0]
        if kind == 't':
            t = case[2]
            x = (np.arange(N) * 3 % 5 - 2).astype(t)
            if t.startswith('complex'):
                x = (x + 1j * (np.arange(N) % 3)).astype(t)
            y = apply(ctx, f, x, M.dot(x), what + ' ' + t)
            ctx.check(y.dtype == x.dtype, '%s: %s vector gives %s' % (what, t, y.dtype))
            ro = x.copy()
            ro.flags.writeable = False
            apply(ctx, f, ro, M.dot(x), what + ' read-only')
            w = np.zeros(2 * N, dtype=t)
            w[::2] = x
            apply(ctx, f, w[::2], M.dot(x), what + ' strided')
            apply(ctx, f, x[::-1], M.dot(x[::-1]), what + ' reversed')
            ctx.trace(t)
            continue
        G = np.zeros((N, N))
        cols = range(N) if kind != 'big' else list(range(0, N, 7)) + [N - 1, N - 2, N - n, N - n - 1, n - 1, n]
        for j in cols:
            e = np.zeros(N)
            e[j] = 1
            G[:, j] = apply(ctx, f, e, M[:, j], '%s column %d' % (what, j))
            ctx.state(case, j)
        if kind != 'big':
            ctx.check(np.array_equal(G, G.T), '%s: not symmetric' % what)
            ctx.check(np.array_equal(G, M), '%s: not the Poisson matrix' % what)
        for x in (np.arange(1., N + 1), (-1.) ** np.arange(N), np.sin(np.arange(N)) + 1j * np.arange(N)):
            apply(ctx, f, x, M.dot(x), what)
        ctx.trace(kind)
