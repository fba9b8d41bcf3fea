"""C17: initial guesses."""
import itertools
import numpy as np
from mc import sq

BOUNDS = dict(exact='2x2 over -1..2 (quick) / -2..2 and a 3x3 family; every guess of the lattice {-1,0,2}^n (3x3: 6 guesses), the exact solution and near-solutions; budgets 0..4 and default; replayed by the exact rational method',
              shift='guess g for b against zero guess for b - A g under the same absolute threshold, every budget, sizes 2..25', precon='with and without')
ASSUMPTIONS = ['iterates past an exact breakdown are not compared', 'differential iterates are compared for well-conditioned matrices, up to 1e-6']


def cases(tier):
    full = tier != 'quick'
    for A in sq.mats(2, 2, range(-1, 3) if not full else range(-2, 3)):
        yield ['exact', A.tolist()]
    for i, A in enumerate(sq.mats(3, 3, (-1, 0, 1))):
        if i % (181 if not full else 20) == 7:
            yield ['exact', A.tolist()]
    for A in sq.symmats(3, (-1, 0, 1)):
        yield ['exact', (A + 3 * np.eye(3, dtype=int)).tolist()]
    for n in (2, 5, 12, 25):
        for kind in ('lap', 'spd', 'few', 'diag', 'indef', 'conv', 'uns', 'skew', 'cyc', 'ident'):
            yield ['shift', [kind, n]]


def run(ctx, case):
    cls, spec = case
    if cls == 'shift':
        return shift(ctx, *spec)
    A = np.array(spec)
    n = len(A)
    sym = (A == A.T).all()
    b = np.array([1, 2] if n == 2 else [2, -1, 1])
    gs = [np.array(g) for g in itertools.product((-1, 0, 2), repeat=n)]
    if n == 3:
        gs = gs[::5]
    for name in (sq.SQ4 if sym else sq.UNSYM):
        for g in gs:
            for M in (None, np.diag([2, 1, 3][:n])):
                if M is not None and g[0] == 0:
                    continue
                pts, end = sq.model(name, A, b, g, M)
                for bud in (0, 1, 2, 3, 4, None):
                    o, s, a = sq.conform(ctx, name, A, b, pts, end, bud, g, M)
                    ctx.state(name, tuple(A.ravel()), tuple(g), M is None, bud)
                    if bud in (0, 1) and name != 'tfqmr' or bud == 0:
                        ctx.check((s.x == g).all(), 'guess stopped before any iteration is not returned as it was', solver=name, A=A, b=b, guess=g, x=s.x)
                    ctx.trace('%s %s' % (name, o))
            # a right-hand side that the guess solves exactly
            c = np.dot(A, g)
            for bud in (None, 0, 1):
                s, a, m = sq.run(name, A, c, bud, g)
                ctx.step(a.count)
                info = dict(solver=name, A=A, b=c, guess=g, x=s.x, count=a.count, converged=s.converged)
                ctx.check(s.converged, 'an exact guess is not reported as converged', **info)
                ctx.check((s.x == g).all(), 'an exact guess is not returned unchanged', **info)
                ctx.check(a.count == 1 and s.nMatvec == 1, 'iterates from an exact guess', **info)
                ctx.check(s.residNorm == 0 and s.residNorm0 == 0, 'residual of an exact guess is not zero', **info)
                ctx.trace('%s exact guess' % name)
            # a guess off by less than the absolute tolerance
            h = g + 1e-10
            s, a, m = sq.run(name, A, c, None, h)
            ctx.check(s.converged and (s.x == h).all() and a.count == 1, 'a guess within tolerance is not returned unchanged', solver=name, A=A, b=c, guess=h, x=s.x)


def shift(ctx, kind, n):
    A = sq.big(kind, n)
    sym = (A == A.T).all()
    spd = sym and np.linalg.eigvalsh(A)[0] > 0
    M = np.diag(1. / (1 + np.arange(n) % 3))
    for rk, gk in (('mix', 'alt'), ('ones', 'e1'), ('e1', 'huge'), ('huge', 'mix'), ('ones', 'ones')):
        b, g = sq.rhs(rk, n), sq.rhs(gk, n)
        r0 = b - np.dot(A, g)
        ctor = dict(reltol=0., abstol=1e-6 * max(np.linalg.norm(r0), 1e-3))
        for name in (('cg',) if sym else ()) + sq.UNSYM:
            for m in (None, M):
                for bud in list(range(1, min(2 * n, 16))) + [2 * n]:
                    if bud > 10 and (name != 'cg' or not spd) and kind in ('indef', 'diag', 'spd', 'lap'):
                        continue      # the unsymmetric methods amplify roundoff there
                    s, a, _ = sq.run(name, A, b, bud + 1, g, m, ctor=ctor)
                    t, c, _ = sq.run(name, A, r0, bud, None, m, ctor=ctor)
                    ctx.step(a.count + c.count)
                    y = g + t.x
                    sc = 1 + np.linalg.norm(y) + np.linalg.norm(g)
                    info = dict(solver=name, kind=kind, n=n, rhs=rk, guess=gk, budget=bud, precon=m is not None, counts=[a.count, c.count], diff=np.linalg.norm(s.x - y))
                    ctx.check(abs(s.residNorm0 - t.residNorm0) <= 1e-9 * (t.residNorm0 + 1e-3), 'initial residual norm is not that of the guess', **info)
                    # roundoff may move the moment of convergence by a step
                    if bool(s.converged) == bool(t.converged) and abs(a.count - c.count) == 1:
                        ctx.check(np.linalg.norm(s.x - y) <= 1e-6 * sc, 'solving from a guess differs from solving for its residual', **info)
                        ctx.trace('%s same' % name)
                    else:
                        r = np.linalg.norm(b - np.dot(A, s.x)) - np.linalg.norm(r0 - np.dot(A, t.x))
                        ctx.check(abs(r) <= 20 * ctor['abstol'], 'solving from a guess differs from solving for its residual', **info)
                        ctx.trace('%s other step' % name)
                    ctx.state(name, kind, n, rk, bud, m is None, bool(s.converged))
