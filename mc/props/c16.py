"""C16: preconditioned solves."""
import numpy as np
from mc import sq

BOUNDS = dict(exact='CG: SPD 2x2 over -2..4 and 3x3 family x 6 SPD preconditioners; CGS/Bi-CGSTAB/TFQMR: nonsingular 2x2 over -1..2 and 3x3 family x 8 nonsingular preconditioners; replayed by the exact rational preconditioned method at default and two more budgets',
              split='MINRES/SYMMLQ/CG with M=C^2 against the same solver on CAC, at every budget',
              inverse='exact inverse as preconditioner (all solvers)', scale='multiples 1e-4..1e4 of a preconditioner', big='sizes 10..40', reuse='three solves with one object; preconditioner given to MINRES.solve')
ASSUMPTIONS = ['breakdown-free systems for the unsymmetric solvers']


def spd(n):
    e = np.eye(n, dtype=int)
    o = np.ones((n, n), dtype=int)
    t = e * 2 - (abs(np.subtract.outer(range(n), range(n))) == 1)
    return [e * 3, np.diag([1, 4, 9, 2][:n]), e + o, t, np.diag([8, 1, 2, 1][:n]), e * 2 + o * 3]


def nons(n):
    e = np.eye(n, dtype=int)
    up = e + np.triu(np.ones((n, n), dtype=int), 1)
    return spd(n)[:4] + [-e, up, up.T * 2 - np.diag([0, 1, 0][:n]), e - 3 * np.roll(e, 1, 0)]


def cases(tier):
    full = tier != 'quick'
    for A in sq.symmats(2, range(-2, 5)):
        if A[0, 0] > 0 and np.linalg.det(A) > .5:
            yield ['cg', A.tolist()]
    for i, A in enumerate(sq.symmats(3, range(-1, 4))):
        if A[0, 0] > 0 and A[0, 0] * A[1, 1] - A[0, 1] ** 2 > 0 and np.linalg.det(A) > .5 and (full or i % 5 == 0):
            yield ['cg', A.tolist()]
    for A in sq.mats(2, 2, range(-1, 3) if not full else range(-2, 3)):
        if abs(np.linalg.det(A)) > .5:
            yield ['uns', A.tolist()]
    for i, A in enumerate(sq.mats(3, 3, (-1, 0, 1))):
        if abs(np.linalg.det(A)) > .5 and i % (83 if not full else 7) == 1:
            yield ['uns', A.tolist()]
    for A in sq.symmats(2, range(-2, 4)):
        if abs(np.linalg.det(A)) > .5:
            yield ['split', A.tolist()]
    for i, A in enumerate(sq.symmats(3, (-1, 0, 2))):
        if abs(np.linalg.det(A)) > .5 and (full or i % 2 == 0):
            yield ['split', A.tolist()]
    for A in sq.symmats(2, range(-2, 4)):
        if abs(round(np.linalg.det(A))) == 1:
            yield ['inv', A.tolist()]
    for n in (3, 10, 20, 40):
        for kind in ('lap', 'spd', 'cond3', 'cond6', 'diag', 'conv', 'uns', 'skew', 'indef', 'few'):
            yield ['inv', [kind, n]]
            yield ['big', [kind, n]]


def run(ctx, case):
    cls, spec = case
    if cls in ('cg', 'uns'):
        A = np.array(spec)
        n = len(A)
        for b in ([[1, 2], [-1, 0]] if n == 2 else [[1, -1, 2]]):
            b = np.array(b)
            want = np.linalg.solve(A * 1., b * 1.)
            for name in (('cg',) if cls == 'cg' else sq.UNSYM):
                for mi, M in enumerate(spd(n) if cls == 'cg' else nons(n)):
                    pts, end = sq.model(name, A, b, None, M)
                    for bud in (None, 1, 3):
                        o, s, a = sq.conform(ctx, name, A, b, pts, end, bud, None, M)
                        ctx.state(name, tuple(A.ravel()), tuple(b), mi, bud)
                        if end == 'exact' and bud is None:
                            ctx.check(s.converged, 'does not converge with a preconditioner', solver=name, A=A, b=b, M=M, x=s.x)
                            ctx.check(np.abs(s.x - want).max() <= 1e-5 * (1 + np.abs(want).max()), 'preconditioning changes the solution', solver=name, A=A, b=b, M=M, x=s.x, want=want)
                        ctx.trace('%s %s' % (name, o))
    elif cls == 'split':
        split(ctx, np.array(spec))
    elif cls == 'inv':
        inverse(ctx, spec)
    else:
        big(ctx, *spec)


def split(ctx, A):
    """M = C*C: the preconditioned solve is the plain solve of C A C y = C b with x = C y."""
    n = len(A)
    Cs = [np.diag([2., 1., 3.][:n]), np.eye(n) * .5, np.eye(n) + np.ones((n, n))]
    b = np.array([1., 2., -1.][:n])
    want = np.linalg.solve(A * 1., b)
    isspd = np.linalg.eigvalsh(A * 1.)[0] > 0
    for C in Cs:
        M = np.dot(C, C)
        B = sq.sy(np.dot(C, np.dot(A, C)))
        c = np.dot(C, b)
        for name in ('minres', 'symmlq') + (('cg',) if isspd else ()):
            for bud in (0 if name == 'minres' else 2, 1, 2, 3, 4, None):
                if name == 'symmlq' and bud == 1:
                    continue
                s, a, m = sq.run(name, A * 1., b, bud, M=M)
                t, a2, _ = sq.run(name, B, c, bud)
                ctx.step(a.count + a2.count)
                y = np.dot(C, t.x)
                info = dict(solver=name, A=A, C=C, budget=bud, x=s.x, other=y, istop=getattr(s, 'istop', None))
                tie = name == 'symmlq' and not (s.converged and t.converged) and any(
                    np.abs(s.x - np.dot(C, p)).max() <= 1e-6 * (1 + np.abs(y).max()) for p in sq.symmlq_points(B, c, a.count - 1))
                ctx.check(tie or np.abs(s.x - y).max() <= 1e-6 * (1 + np.abs(y).max()), 'preconditioned iterate differs from that of the split system', **info)
                ctx.check(abs(s.residNorm0 - t.residNorm0) <= 1e-8 * t.residNorm0, 'initial residual norm is not that of the preconditioned system', got=s.residNorm0, want=t.residNorm0, **info)
                if bud is None:
                    ctx.check(s.converged and np.abs(s.x - want).max() <= 1e-5 * (1 + np.abs(want).max()), 'preconditioned solve does not reach the solution', want=want, **info)
                    ctx.check(m.count >= 1, 'preconditioner not used', **info)
                ctx.state('split', name, tuple(A.ravel()), tuple(C.ravel()), bud)
                ctx.trace('%s split' % name)


def inverse(ctx, spec):
    if isinstance(spec[0], str):
        A = sq.big(*spec)
        n = len(A)
        bs = [sq.rhs('mix', n), sq.rhs('e1', n)]
    else:
        A = np.array(spec) * 1.
        n = len(A)
        bs = [np.array([1., 2., -1.][:n])]
    sym = (A == A.T).all()
    spdA = sym and np.linalg.eigvalsh(A)[0] > 0
    Ai = np.linalg.inv(A)
    if sym:
        Ai = sq.sy(Ai)
    for b in bs:
        want = np.linalg.solve(A, b)
        for name in (('cg', 'minres', 'symmlq') if spdA else ()) + sq.UNSYM:
            s, a, m = sq.run(name, A, b, None, M=Ai)
            ctx.step(a.count)
            ctx.state('inv', name, repr(spec), tuple(b[:3]))
            info = dict(solver=name, spec=spec, count=a.count, x=s.x[:5], want=want[:5], istop=getattr(s, 'istop', None))
            ctx.check(s.converged and np.linalg.norm(s.x - want) <= 1e-5 * np.linalg.norm(want), 'exact inverse as preconditioner does not give the solution', **info)
            its = dict(cgs=4, bicgstab=4, tfqmr=4, symmlq=3).get(name, 2)
            ctx.check(a.count <= its, 'more than two iterations with the exact inverse as preconditioner', **info)
            ctx.check(m.count >= 1, 'preconditioner not used', **info)
            ctx.trace('%s inverse' % name)


def big(ctx, kind, n):
    A = sq.big(kind, n)
    sym = (A == A.T).all()
    spdA = sym and np.linalg.eigvalsh(A)[0] > 0
    b = sq.rhs('mix', n)
    want = np.linalg.solve(A, b)
    names = (('cg',) if spdA else ()) + (('minres', 'symmlq') if sym else ())
    if kind in ('lap', 'few', 'conv', 'uns', 'skew'):
        names += sq.UNSYM
    L = np.eye(n) + .3 * np.diag(np.ones(n - 1), -1)
    Ms = [np.diag(1. / (1 + np.arange(n) % 3)), sq.sy(np.dot(L, L.T))]
    for name in names:
        for mi, M0 in enumerate(Ms):
            for scale in (1., 1e-4, 1e4):
                M = M0 * scale
                if kind == 'cond6':
                    M = np.linalg.inv(A + np.diag(1. + np.arange(n) % 2))
                    M = sq.sy(M) * scale
                a, m = sq.Op(A), sq.Op(M)
                s = sq.make(name, a.op, m.op)
                first = None
                if name in sq.SQ4:
                    s.abstol = 0.
                bud = 10 * n
                for rep in range(2 if scale == 1. else 1):
                    a.reset()
                    m.reset()
                    sq.solve(name, s, b, bud)
                    ctx.step(a.count)
                    ctx.state('big', name, kind, n, mi, scale, rep)
                    err = np.linalg.norm(s.x - want) / np.linalg.norm(want)
                    info = dict(solver=name, kind=kind, n=n, M=mi, scale=scale, error=err, count=a.count, mcount=m.count, rep=rep, istop=getattr(s, 'istop', None))
                    ctx.check(s.converged, 'does not converge with a preconditioner', **info)
                    r = b - np.dot(A, s.x)
                    if name == 'cg':
                        ctx.check(np.sqrt(np.dot(r, np.dot(M, r))) <= 1e-6 * 1.01 * np.sqrt(np.dot(b, np.dot(M, b))) + 1e-12 * np.linalg.cond(A), 'own stopping test not met', **info)
                    elif name in sq.UNSYM:
                        ctx.check(np.linalg.norm(r) <= 1.01e-6 * np.linalg.norm(b) + 1e-10, 'own stopping test not met', **info)
                    ctx.check(err <= 3e-6 * np.linalg.cond(A), 'preconditioning changes the solution', **info)
                    ctx.check(m.count >= 1, 'preconditioner not used', **info)
                    if first is not None:
                        ctx.check(sq.same(first, s.x) and m.count == mc, 'second solve with the same preconditioner differs', **info)
                    first, mc = s.x.copy(), m.count
                if name == 'minres':
                    s2 = sq.make(name, sq.Op(A).op)
                    sq.solve(name, s2, b, bud, precon=sq.Op(M).op)
                    ctx.check(sq.same(first, s2.x), 'preconditioner given to solve differs from one given to the constructor', **info)
                ctx.trace('%s big' % name)
