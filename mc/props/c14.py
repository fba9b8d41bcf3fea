"""C14: solvers converge to the solution within finite termination."""
import numpy as np
from mc import sq

BOUNDS = dict(exact='CG: every SPD 2x2 over -3..6 and 3x3 over -1..3 (diagonal 1..3); MINRES, SYMMLQ: every nonsingular symmetric 2x2 over -3..3, 3x3 over {-1,0,2}; '
                    'CGS, Bi-CGSTAB, TFQMR: every nonsingular 2x2 over -2..2, 3x3 over {-1,0,1} (quick: every 9th)',
              rhs='3-8 integer right-hand sides each, each run replayed by the exact rational model of the method',
              big='structured families of sizes 4..40 (thorough 100) with 5 right-hand sides, default settings or a budget of 10n')
ASSUMPTIONS = ['systems on which the exact method breaks down are compared up to the breakdown only',
               'float64 data of condition at most 1e3']


def cases(tier):
    full = tier != 'quick'
    for A in sq.symmats(2, range(-3, 7)):
        if A[0, 0] > 0 and np.linalg.det(A) > .5:
            yield ['cg', A.tolist()]
    for A in sq.symmats(3, range(-1, 4)):
        if A[0, 0] > 0 and A[0, 0] * A[1, 1] - A[0, 1] ** 2 > 0 and np.linalg.det(A) > .5:
            yield ['cg', A.tolist()]
    for A in sq.symmats(2, range(-3, 4)):
        if abs(np.linalg.det(A)) > .5:
            yield ['lanczos', A.tolist()]
    for A in sq.symmats(3, (-1, 0, 2) if not full else (-2, -1, 0, 1, 3)):
        if abs(np.linalg.det(A)) > .5:
            yield ['lanczos', A.tolist()]
    for a in (-3, -1, 1, 2, 5):
        for k in ('lanczos', 'uns') + (('cg',) if a > 0 else ()):
            yield [k, [[a]]]
    for A in sq.mats(2, 2, range(-2, 3) if not full else range(-3, 4)):
        if abs(np.linalg.det(A)) > .5:
            yield ['uns', A.tolist()]
    for i, A in enumerate(sq.mats(3, 3, (-1, 0, 1))):
        if (full or i % 9 == 4) and abs(np.linalg.det(A)) > .5:
            yield ['uns', A.tolist()]
    for n in (4, 7, 10, 20, 40) + ((100,) if full else ()):
        for kind in ('lap', 'diag', 'few', 'spd', 'cond3', 'indef', 'indefdiag', 'pm', 'neg', 'ident', 'conv', 'uns', 'skew', 'cyc'):
            yield ['big', [kind, n]]


def run(ctx, case):
    cls, spec = case
    if cls == 'big':
        return big(ctx, *spec)
    A = np.array(spec)
    n = len(A)
    names = dict(cg=('cg',), lanczos=('minres', 'symmlq'), uns=sq.UNSYM)[cls]
    bs = dict(enumerate([[(1,), (-2,)], [(1, 0), (0, 1), (1, 1), (2, -1)], [(1, 0, 0), (0, 1, 2), (1, -1, 1)]]))[n - 1]
    for b in bs:
        b = np.array(b)
        want = np.linalg.solve(A * 1., b * 1.)
        grade = sq.krylov(A * 1., b, n).shape[1]
        for name in names:
            ctx.state(name, tuple(A.ravel()), tuple(b))
            if cls == 'lanczos':
                s, a, m = sq.run(name, A, b)
                ctx.step(a.count)
                info = dict(solver=name, A=A, b=b, x=s.x, want=want, istop=s.istop, count=a.count, grade=grade)
                ctx.check(s.converged, 'does not converge on a symmetric nonsingular system', **info)
                ctx.check(a.count <= grade + (2 if name == 'symmlq' else 1), 'needs more products than finite termination', **info)
                o = 'converged'
            else:
                pts, end = sq.model(name, A, b)
                o, s, a = sq.conform(ctx, name, A, b, pts, end)
                info = dict(solver=name, A=A, b=b, x=s.x, want=want)
                if end == 'exact':
                    ctx.check(s.converged, 'does not converge although the method does not break down', **info)
            if s.converged:
                ctx.check(np.abs(s.x - want).max() <= 1e-5 * (1 + np.abs(want).max()), 'wrong solution', **info)
            ctx.trace('%s %s' % (name, o))


def big(ctx, kind, n):
    A = sq.big(kind, n)
    sym = bool((A == A.T).all())
    w = np.linalg.eigvalsh(A) if sym else None
    spd = sym and w[0] > 0
    names = (('cg',) if spd else ()) + (('minres', 'symmlq') if sym else ())
    if kind in ('conv', 'uns', 'skew', 'lap', 'diag', 'few', 'ident'):
        names += sq.UNSYM
    cond = np.linalg.cond(A)
    for rk in ('ones', 'e1', 'alt', 'mix', 'huge'):
        b = sq.rhs(rk, n)
        want = np.linalg.solve(A, b)
        grade = sq.krylov(A, b, n).shape[1]
        for name in names:
            bud = None
            if kind == 'cond3' and name == 'symmlq':
                bud = 10 * n
            if kind in ('diag', 'lap') and name in sq.UNSYM or kind == 'cond3' and name == 'cg':
                bud = 10 * n
            s, a, m = sq.run(name, A, b, bud)
            ctx.step(a.count)
            ctx.state(name, kind, n, rk)
            err = np.linalg.norm(s.x - want)
            info = dict(solver=name, kind=kind, n=n, rhs=rk, count=a.count, error=err, residual=np.linalg.norm(b - np.dot(A, s.x)), istop=getattr(s, 'istop', None), grade=grade)
            ctx.check(s.converged, 'does not converge', **info)
            tol = 3e-6 * cond
            ctx.check(err <= tol * np.linalg.norm(want), 'wrong solution', **info)
            per = dict(cgs=2, bicgstab=2, tfqmr=2).get(name, 1)
            slack = 1.3 if cond < 100 else 6
            ctx.check(a.count <= per * (slack * grade + 3), 'needs many more products than finite termination', **info)
            ctx.trace('%s big' % name)
