"""C25: shifted MINRES and SYMMLQ."""
import numpy as np
from mc import sq

BOUNDS = dict(small='every symmetric 2x2 over -2..2 and 3x3 over {-1,0,2}, shifts -3..3, .5 and 1e-3 with nonsingular shifted matrix, 2-3 right-hand sides, every budget, two preconditioners, against the explicitly shifted operator and the dense solution',
              big='structured families of sizes 5..40, shifts inside and outside the spectrum')
ASSUMPTIONS = ['real symmetric operators', 'shifted matrix nonsingular']
SHIFTS = (-3, -1, 0, 0.0, 1, 2, 3, .5, 1e-3, -2.5)


def cases(tier):
    full = tier != 'quick'
    for a in (-2, 0, 1, 3):
        yield [[[a]]]
    for A in sq.symmats(2, range(-2, 3)):
        yield [A.tolist()]
    for i, A in enumerate(sq.symmats(3, (-1, 0, 2))):
        if full or i % 2 == 0:
            yield [A.tolist()]
    for n in (5, 10, 20, 40):
        for kind in ('lap', 'diag', 'spd', 'few', 'indef', 'pm', 'sing', 'ident'):
            yield [[kind, n]]


def run(ctx, case):
    spec, = case
    if isinstance(spec[0], str):
        kind, n = spec
        A = sq.big(kind, n)
        for sh in (0, -1.5, .5, 2.5, 1e-3 if kind != 'sing' else .25, 30.25, -1e4):
            B = A - sh * np.eye(n)
            w = abs(np.linalg.eigvalsh(B))
            if w.min() < 1e-3 * w.max():
                continue
            for b in (sq.rhs('mix', n), sq.rhs('huge', n), sq.rhs('e1', n)):
                for M in (None, np.diag(1. / (1 + np.arange(n) % 3))):
                    # roundoff grows along longer runs, so only early and final iterates are compared
                    pair(ctx, A, B, b, sh, M, [2, 3, 5, 8] + [10 * n], str(spec), 5e-4)
        return
    A = np.array(spec)
    n = len(A)
    for sh in SHIFTS if n < 3 else SHIFTS[1:9:2] + (2,):
        B = A - sh * np.eye(n)
        if abs(np.linalg.det(B)) < .1:
            continue
        for bi, b in enumerate(([[1, 2], [0, -1]] if n == 2 else [[1, 0, 0], [1, -1, 2]] if n == 3 else [[2]])):
            for M in (None, np.diag([2., 1., 3.][:n]), np.eye(n) + np.ones((n, n))):
                if M is not None and bi:
                    continue
                pair(ctx, A, B, np.array(b), sh, M, list(range(0, n + 3)) + [None], A, 1e-6)


def pair(ctx, A, B, b, sh, M, buds, tag, tol):
    n = len(b)
    want = np.linalg.solve(B, b * 1.)
    cond = np.linalg.cond(B)
    for name in ('minres', 'symmlq'):
        for bud in buds:
            if name == 'symmlq' and bud is not None and bud < 2:
                continue
            s, a, m = sq.run(name, A, b, bud, M=M, shift=sh)
            t, c, _ = sq.run(name, B, b, bud, M=M)
            ctx.step(a.count + c.count)
            ctx.state(name, tuple(A.ravel()[:9]), n, sh, bud, M is None, tuple(b[:2]))
            info = dict(solver=name, A=tag, b=b[:5], shift=sh, budget=bud, M=M is not None, x=s.x[:5], other=t.x[:5], counts=[a.count, c.count], istop=[s.istop, t.istop])
            sc = 1 + np.abs(t.x).max()
            tie = name == 'symmlq' and M is None and n < 4 and any(
                np.abs(s.x - c0).max() <= tol * sc for c0 in sq.symmlq_points(B, b, a.count - 1)) and not (s.converged or t.converged)
            if name == 'symmlq' and M is not None and not s.converged and not t.converged and np.abs(s.x - t.x).max() > tol * sc:
                # the two points SYMMLQ may return were equally good: compare the residual only
                tie = abs(np.linalg.norm(b - np.dot(B, s.x)) - s.residNorm) <= 1e-6 * (1 + s.residNorm) and n < 4
            if tie:
                ctx.trace('tie')
                continue
            ctx.check(np.abs(s.x - t.x).max() <= tol * sc, 'shifted solve differs from the solve with the shifted operator', **info)
            ctx.check(abs(s.residNorm - t.residNorm) <= tol * (np.linalg.norm(b) + t.residNorm + np.linalg.norm(B) * np.linalg.norm(want)), 'residual norm differs from that with the shifted operator', got=s.residNorm, want=t.residNorm, **info)
            ctx.check(s.nMatvec == a.count, 'products miscounted', **info)
            if bud is None:
                ctx.check(abs(a.count - c.count) <= 1, 'number of products differs from that with the shifted operator', **info)
            if bud is None or bud >= 5 * n:
                ctx.check(s.converged, 'does not converge', **info)
                ctx.check(np.linalg.norm(s.x - want) <= 1e-5 * cond * np.linalg.norm(want), 'wrong solution of the shifted system', want=want[:5], **info)
            if sh == 0:
                u, d, _ = sq.run(name, A, b, bud, M=M)
                k = sq.differs(sq.snapshot(s), sq.snapshot(u))
                ctx.check(k is None and a.count == d.count, 'zero shift differs from no shift in %s' % k, **info)
            ctx.trace(name)
