"""C31: solvers work in the right arithmetic."""
import itertools
import numpy as np
from mc import sq, ls

BOUNDS = dict(types='every triple (operator, right-hand side, guess) over int8, int32, int64, uint8 (nonnegative data), float32, float64, complex64, complex128 (guess also absent) on 8 systems of sizes 1 to 8; every pair for least squares with and without weights and damping',
              complex='every Hermitian 2x2 matrix with diagonal in {1,2,3} and Gaussian-integer off-diagonal (CG), every 2x2 over a 5-element Gaussian alphabet (CGS, BiCGSTAB, TFQMR), 1x1, right-hand sides over Gaussian integers, guesses; structured Hermitian and complex unsymmetric ones of sizes 5 to 15',
              oracle='the same solve in double precision (exact equality for integer data), dense solutions, exact Gaussian-rational runs of the methods')
ASSUMPTIONS = ['single precision accuracy: 2e-4 times the condition number', 'least-squares solvers, MINRES and SYMMLQ are for real data; the solutions of the least-squares solvers and SYMMLQ are double precision vectors']

TYPES = ('int8', 'int32', 'int64', 'uint8', 'float32', 'float64', 'complex64', 'complex128')
SINGLE = ('float32', 'complex64')
ALPHA = (0, 1, -1, 1j, 1 + 1j)


def systems():
    yield 'one', np.array([[3]]), np.array([2])
    yield 'spd2', np.array([[2, 1], [1, 3]]), np.array([1, 2])
    yield 'diag3', np.diag([1, 2, 4]), np.array([1, 1, 3])
    yield 'spd3', np.array([[4, 1, 0], [1, 3, 1], [0, 1, 5]]), np.array([3, 0, 1])
    yield 'uns2', np.array([[3, 1], [2, 4]]), np.array([1, 3])
    yield 'uns3', np.array([[5, 1, 0], [2, 6, 1], [0, 3, 7]]), np.array([1, 2, 3])
    yield 'spd5', np.array(np.diag([4] * 5) + np.diag([1] * 4, 1) + np.diag([1] * 4, -1)), np.array([1, 0, 2, 0, 1])
    yield 'uns8', np.array(np.diag([9] * 8) + np.diag([3] * 7, 1) + np.diag([1] * 6, -2)), np.array([1, 2, 3, 4, 3, 2, 1, 0])


def cases(tier):
    full = tier != 'quick'
    for name, A, b in systems():
        for ot in TYPES:
            yield ['types', name, ot]
    for m, n in ((1, 1), (2, 2), (3, 2), (2, 3), (6, 4)):
        for ot in TYPES[:6]:
            yield ['ls', m, n, ot]
    for d in itertools.product((1, 2, 3), repeat=2):
        for z in (0, 1, -1, 1j, -1j, 1 + 1j, 1 - 1j):
            yield ['herm', [[d[0], c(z)], [c(np.conj(z)), d[1]]]]
    for e in itertools.product(ALPHA, repeat=4):
        yield ['cpx', [[c(e[0]), c(e[1])], [c(e[2]), c(e[3])]]]
    for a in (1, 2j, -1j, 1 + 1j, 3 - 2j):
        yield ['cpx', [[c(a)]]]
    if full:
        for e in itertools.product((0, 1, 1j), repeat=6):
            H = [[3, e[0], e[1]], [np.conj(e[0]), 3, e[2]], [np.conj(e[1]), np.conj(e[2]), 2]]
            yield ['herm', [[c(z) for z in row] for row in H]]
            yield ['cpx', [[c(2 + e[3]), c(e[0]), c(e[1])], [c(e[4]), c(1), c(e[2])], [c(e[5]), c(e[0]), c(1j)]]]
    for kind in ('clap', 'cuns', 'lap', 'uns'):
        for n in (5, 10, 15):
            yield ['big', kind, n]


def c(z):
    z = complex(z)
    return [z.real, z.imag]


def cm(M):
    return np.array([[complex(*z) if isinstance(z, list) else complex(z) for z in row] for row in M])


def run(ctx, case):
    if case[0] == 'types':
        types(ctx, case[1], case[2])
    elif case[0] == 'ls':
        least(ctx, *case[1:])
    elif case[0] == 'herm':
        A = cm(case[1])
        if np.linalg.eigvalsh(A)[0] > 1e-9:
            complexes(ctx, ('cg',) + sq.UNSYM, A)
    elif case[0] == 'cpx':
        A = cm(case[1])
        if abs(np.linalg.det(A)) > 1e-9:
            complexes(ctx, sq.UNSYM, A)
    else:
        big(ctx, case[1], case[2])


def types(ctx, name, ot):
    A0, b0 = [(A, b) for k, A, b in systems() if k == name][0]
    n = len(b0)
    g0 = np.arange(n) % 3
    names = list(sq.UNSYM)
    if name[:3] != 'uns':
        names = list(sq.ALL)
    cond = np.linalg.cond(A0)
    for solver in names:
        for bt in TYPES:
            for gt in (None,) + TYPES:
                cplx = np.dtype(ot).kind == 'c' or np.dtype(bt).kind == 'c'
                if solver in ('minres', 'symmlq') and (cplx or gt is not None):
                    continue
                A, b = A0.astype(ot), b0.astype(bt)
                g = None if gt is None else g0.astype(gt)
                s, a, _ = sq.run(solver, A, b.copy(), 10 * n, g)
                x = s.bestSolution
                info = dict(solver=solver, system=name, operator=ot, rhs=bt, guess=gt, x=x, converged=s.converged, nMatvec=s.nMatvec)
                ctx.step(a.count)
                ctx.state(solver, name, ot, bt, gt)
                ctx.trace('%s %s' % (solver, x.dtype))
                want = np.promote_types(np.result_type(ot, bt), np.float64) if np.result_type(ot, bt).kind in 'iu' else np.result_type(ot, bt)
                if solver != 'symmlq':
                    ctx.check(x.dtype == want, 'solution is not of the floating-point promotion of the types of operator and right-hand side', got=str(x.dtype), want=str(want), **info)
                single = ot in SINGLE or bt in SINGLE
                xs = np.linalg.solve(A0 * 1., b0 * 1.)
                tol = (2e-4 if single else 1e-5) * cond * (1 + np.abs(xs).max())
                ctx.check(np.isfinite(x).all() and np.abs(x - xs).max() <= tol, 'not the solution of the system', want=xs, **info)
                if not single:
                    ctx.check(s.converged, 'convergence not reported', **info)
                    t, a2, _ = sq.run(solver, A0.astype('complex128' if np.dtype(ot).kind == 'c' else 'float64'), b0.astype('complex128' if np.dtype(bt).kind == 'c' else 'float64'), 10 * n, None if gt is None else g0 * 1.)
                    d = sq.differs(sq.snapshot(s), sq.snapshot(t), 0)
                    ctx.check(d is None, 'not the result of the floating-point equivalents', attribute=d, got=getattr(s, d or 'x'), want=getattr(t, d or 'x'), **info)


def least(ctx, m, n, ot):
    i, j = np.meshgrid(np.arange(m), np.arange(n), indexing='ij')
    A0 = 4 * (i == j) + (i * 2 + j) % 3
    b0 = np.array([1, 3, 2, 0, 1, 2])[:m]
    for solver in sq.LS:
        for bt in TYPES[:6]:
            for w in (0, 1):
                for damp in (0., .5) if solver in ('lsqr', 'lsmr') else (0.,):
                    def go(A, b):
                        P = ls.Problem(A0, b0, damp, ls.spdweight(m, w), ls.spdweight(n, w))
                        kw = P.options(solver)
                        a = sq.Op(A, flags=False)
                        return P, sq.solve(solver, sq.make(solver, a.op), b, 40, **kw)
                    P, s = go(A0.astype(ot), b0.astype(bt))
                    info = dict(solver=solver, shape=(m, n), operator=ot, rhs=bt, weights=w, damp=damp, x=s.x, istop=s.istop)
                    ctx.step(s.itn)
                    ctx.state(solver, m, n, ot, bt, w, damp)
                    ctx.trace('%s %s' % (solver, s.x.dtype))
                    single = ot in SINGLE or bt in SINGLE
                    if solver in ('lsqr', 'lsmr'):
                        got, want = s.x, P.solution()
                    elif solver == 'craig':
                        got, want = np.concatenate((s.x, s.r)), np.concatenate(P.sqd())
                    else:
                        got, want = s.x, P.sqd()[1]
                    ctx.check(s.x.dtype.kind == 'f', 'solution is not floating-point', dtype=str(s.x.dtype), **info)
                    ctx.check(np.isfinite(got).all() and np.abs(got - want).max() <= (5e-4 if single else 1e-5) * (1 + np.abs(want).max()), 'not the solution of the problem', want=want, **info)
                    if not single:
                        t = go(A0 * 1., b0 * 1.)[1]
                        d = sq.differs(sq.snapshot(s), sq.snapshot(t), 0)
                        ctx.check(d is None, 'not the result of the floating-point equivalents', attribute=d, got=getattr(s, d or 'x'), want=getattr(t, d or 'x'), **info)


def complexes(ctx, names, A):
    n = len(A)
    bs = [[1], [1j], [2 - 1j]] if n == 1 else [[1, 0], [1j, 1], [1 + 1j, -1], [2, -1j]] if n == 2 else [[1, 0, 1j], [1j, 1, -1]]
    for name in names:
        for b in bs:
            b = np.array(b)
            for g in (None, np.array([1 - 1j] * n)):
                for M in (None, np.diag(1. + np.arange(n))):
                    pts, end = sq.model(name, A, b, g, M)
                    for bud in (None, 1, 2, 3, 4):
                        if bud is not None and g is not None and bud < 2:
                            continue
                        out, s, a = sq.conform(ctx, name, A, b, pts, end, bud, g, M, effective=False)
                        ctx.check(s.bestSolution.dtype == np.complex128, 'solution is not complex', solver=name, dtype=str(s.bestSolution.dtype))
                        ctx.state(name, repr(A.tolist()), repr(b.tolist()), g is None, M is None, bud)
                        ctx.trace('%s complex %s' % (name, out))


def big(ctx, kind, n):
    A = sq.big(kind, n) + (kind == 'clap') * np.eye(n)
    herm = np.array_equal(A, A.conj().T)
    for name in (('cg',) if herm else ()) + sq.UNSYM:
        for b in (sq.rhs('cmix', n), sq.rhs('mix', n), 1j * sq.rhs('ones', n)):
            for g in (None, sq.rhs('cmix', n)[::-1].copy(), np.ones(n)):
                s, a, _ = sq.run(name, A, b, 20 * n, g)
                x = s.bestSolution
                info = dict(solver=name, kind=kind, n=n, complex_rhs=b.dtype.kind == 'c', guess=None if g is None else str(g.dtype), converged=s.converged, x=x[:4])
                ctx.step(a.count)
                ctx.state(name, kind, n, repr(b[:2].tolist()), None if g is None else g.dtype.kind)
                ctx.trace('%s %s' % (name, kind))
                ctx.check(x.dtype == np.result_type(A.dtype, b.dtype), 'solution is of the wrong type', dtype=str(x.dtype), **info)
                r = np.linalg.norm(b - np.dot(A, x))
                g1 = None if g is None else g.astype(x.dtype)
                thr = max(1e-8, 1e-6 * np.linalg.norm(b if g is None else b - np.dot(A, g1)))
                ctx.check(s.converged, 'does not converge', residual=r, **info)
                ctx.check(r <= thr * 1.01, 'converged but the residual is not small', residual=r, threshold=thr, **info)
                ctx.check(abs(s.residNorm - r) <= thr * .01 + 1e-10 or name == 'tfqmr', 'reported residual norm is not that of the solution', got=s.residNorm, want=r, **info)
