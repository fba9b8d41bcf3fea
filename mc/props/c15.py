"""C15: products counted and budgeted, at every budget."""
import numpy as np
from mc import sq, ls

BOUNDS = dict(exact='CG/CGS/Bi-CGSTAB/TFQMR: every 2x2 over -1..2 (quick) / -2..2, 3x3 family; budgets 0..2n+2 and default; no guess and 3 guesses; no preconditioner and 2',
              lanczos='MINRES/SYMMLQ: every symmetric 2x2 over -2..2 and 3x3 over {-1,0,1} nonsingular, every budget, shifts none, 1/2, -3, with and without preconditioner, against the subspace definition of the iterates',
              big='structured families of sizes 6, 12, 25 with every budget 0..3n, sizes 70 and 140 with budgets around 32, 50, 64, 100, 128, 200, 256 and 500: counts, limits and the reported residual norm',
              oracle='exact rational replay of the method; every (system, guess, preconditioner, budget) is a stopping point')
ASSUMPTIONS = ['SYMMLQ needs two products (one for its final residual) and is given at least that many',
               'iterates past an exact breakdown are not compared', 'optional symmetry checks are off']


def cases(tier):
    full = tier != 'quick'
    for A in sq.mats(2, 2, range(-1, 3) if not full else range(-2, 3)):
        yield ['exact', A.tolist()]
    for i, A in enumerate(sq.mats(3, 3, (-1, 0, 1))):
        if i % (211 if not full else 20) == 5:
            yield ['exact', A.tolist()]
    for A in sq.symmats(3, (-1, 0, 2)):
        if full or A.trace() >= 1:
            yield ['cg', (A + 2 * np.eye(3, dtype=int)).tolist()]
    for A in sq.symmats(2, range(-2, 3)):
        yield ['lanczos', A.tolist()]
    for A in sq.symmats(3, (-1, 0, 1) if not full else (-1, 0, 1, 2)):
        yield ['lanczos', A.tolist()]
    for n in (6, 12, 25) + ((50,) if full else ()):
        for kind in ('lap', 'spd', 'few', 'cond3', 'indef', 'pm', 'conv', 'uns', 'skew', 'cyc', 'shift', 'sing', 'ident'):
            yield ['big', [kind, n]]
    # runs of hundreds of products
    for n in (70, 140):
        for kind in ('lap', 'spd', 'cond3', 'cond6', 'indef', 'conv', 'skew', 'uns', 'diag', 'indefdiag'):
            yield ['big', [kind, n, LONG if n == 70 else LONGER]]


def run(ctx, case):
    cls, spec = case
    if cls == 'big':
        return big(ctx, *spec)
    A = np.array(spec)
    n = len(A)
    if cls == 'lanczos':
        return lanczos(ctx, A)
    b = np.array([1, 2] if n == 2 else [1, -1, 2])
    Ms = [None, np.diag([2, 1, 3][:n]), (np.eye(n, dtype=int) * 2 + np.ones((n, n), dtype=int))]
    gs = [None, np.zeros(n, dtype=int), np.array([1, -1, 0][:n]), np.array([3, 5, -2][:n])]
    names = ('cg',) if cls == 'cg' else sq.SQ4
    for name in names:
        if name == 'cg' and not (A == A.T).all():
            continue
        for gi, g in enumerate(gs):
            for mi, M in enumerate(Ms):
                if gi in (1, 3) and mi:
                    continue
                pts, end = sq.model(name, A, b, g, M)
                for bud in list(range(0, 2 * n + 3)) + [None]:
                    o, s, a = sq.conform(ctx, name, A, b, pts, end, bud, g, M)
                    ctx.state(name, tuple(A.ravel()), gi, mi, s.nMatvec, bool(s.converged))
                    ctx.trace('%s %s' % (name, o))
                    if o != 'past breakdown' and end == 'exact' and bud is None and name != 'cg':
                        # the norm reported for the final iterate
                        true = np.linalg.norm(b - np.dot(A, s.x))
                        f = np.sqrt(2. * a.count + 2) if name == 'tfqmr' else 1.
                        ctx.check(true <= f * s.residNorm + 1e-6 and (name == 'tfqmr' or abs(true - s.residNorm) <= 1e-6),
                                  'reported residual norm is not that of the solution', solver=name, A=A, b=b, true=true, reported=s.residNorm)


def lanczos(ctx, A):
    n = len(A)
    lanczos1(ctx, A, A * 1., None, None)
    for shift, M in ((.5, None), (-3., None), (None, 0), (.5, 1)):
        if n == 3 and M is not None and shift is None:
            continue
        W = None if M is None else np.diag([1., 4., .25][:n]) if M else np.eye(n) + .5
        lanczos1(ctx, A, A - (shift or 0.) * np.eye(n), shift, W)


def lanczos1(ctx, A, As, shift, M):
    """A and its shifted version; the method works on R As R with R R = M."""
    n = len(A)
    nonsing = abs(np.linalg.det(As)) > .2
    R = np.eye(n) if M is None else ls.root(M)
    Af = np.dot(R, np.dot(As, R))
    kw = {} if shift is None else dict(shift=shift)
    for b in ([[1, 2], [0, -1]] if n == 2 else [[1, 0, 0], [1, -1, 2]]):
        b = np.array(b)
        bt = np.dot(R, b)
        grade = sq.krylov(Af, bt, n).shape[1]
        for name in ('minres', 'symmlq'):
            for bud in list(range(0 if name == 'minres' else 2, n + 4)) + [None]:
                s, a, m = sq.run(name, A, b, bud, M=M, **kw)
                ctx.step(a.count)
                ctx.state(name, tuple(A.ravel()), tuple(b), bud, shift, M is None)
                lim = bud if bud is not None else (5 * n if name == 'minres' else 2 * n + 2)
                true = np.linalg.norm(np.dot(R if name == 'minres' else np.eye(n), b - np.dot(As, s.x)))
                info = dict(solver=name, A=A, b=b, shift=shift, M=M, budget=bud, count=a.count, nMatvec=s.nMatvec, x=s.x, istop=s.istop, true=true, reported=s.residNorm)
                ctx.check(s.nMatvec == a.count, 'reported number of products differs from those performed', **info)
                ctx.check(a.count <= lim, 'more products than the maximum given', **info)
                if nonsing or name == 'symmlq':
                    ctx.check(abs(true - s.residNorm) <= 1e-7 * (1 + np.linalg.norm(s.x)), 'reported residual norm is not that of the solution', **info)
                if nonsing:
                    k = a.count - (name == 'symmlq')
                    if name == 'symmlq':
                        cand = sq.symmlq_points(Af, bt, k)
                    elif k == 0:
                        cand = [np.zeros(n)]
                    else:
                        K = sq.krylov(Af, bt, k)
                        cand = [np.dot(K, sq.lstsq(np.dot(Af, K), bt))]
                    cand = [np.dot(R, c) for c in cand]
                    ctx.check(any(np.abs(s.x - c).max() <= 1e-6 * (1 + np.abs(c).max()) for c in cand),
                              'solution is not the iterate of the method after that many products', want=cand, **info)
                    if k < grade:
                        ctx.check(s.converged or a.count == lim, 'gives up before the maximum number of products', **info)
                ctx.trace('%s %s' % (name, 'converged' if s.converged else 'stopped'))


LONG = [31, 32, 33, 49, 50, 51, 52, 53, 63, 64, 65, 66, 74, 99, 100, 101, 102, 103, 120, 127, 128, 129, 130, 137, 140, 150, 200, 201, 202, 255, 256, 257, 258]
LONGER = [60, 100, 101, 150, 199, 200, 201, 202, 250, 255, 256, 257, 280, 301, 350, 400, 501, 514]


def big(ctx, kind, n, buds=None):
    A = sq.big(kind, n)
    sym = bool((A == A.T).all())
    b = sq.rhs('mix', n)
    for name in sq.ALL:
        if name in ('cg', 'minres', 'symmlq') and not sym:
            continue
        xs = []
        for bud in buds or list(range(2 if name == 'symmlq' else 0, 3 * n + 1, 1 if n < 20 else 3)):
            for g in (None, sq.rhs('alt', n)) if name in sq.SQ4 and bud % 3 == 0 else (None,):
                # a shift (into the spectrum or out of it) now and then
                shift = {1: .3, 2: -2.}.get(bud % 3) if name in ('minres', 'symmlq') and kind not in ('sing', 'pm', 'ident') else None
                s, a, m = sq.run(name, A, b, bud, g, **({} if shift is None else dict(shift=shift)))
                ctx.step(a.count)
                ctx.state(name, kind, n, bud, g is None)
                x = s.x
                xs.append(x)
                true = np.linalg.norm(b - np.dot(A, x) + (shift or 0.) * x)
                att = sq.attainable(A, xs, b)
                info = dict(solver=name, kind=kind, n=n, budget=bud, guess=g is not None, count=a.count, nMatvec=s.nMatvec, true=true, reported=s.residNorm, istop=getattr(s, 'istop', None))
                ctx.check(s.nMatvec == a.count, 'reported number of products differs from those performed', **info)
                ctx.check(a.count <= max(bud, 0 if g is None else 1), 'more products than the maximum given', **info)
                used = a.count + (2 if name == 'cgs' else 1) > bud
                if name == 'cg':
                    used = used or not s.definite
                if kind not in ('sing', 'shift'):
                    ctx.check(s.converged or used or getattr(s, 'istop', 0) == 4, 'gives up before the maximum number of products', **info)
                if name == 'tfqmr':
                    ctx.check(true <= s.residNorm * np.sqrt(2. * a.count + 2) * (1 + 1e-6) + att, 'residual norm beyond the documented bound', **info)
                elif (name != 'minres' or kind != 'sing'):
                    ctx.check(abs(true - s.residNorm) <= 1e-6 * true + att, 'reported residual norm is not that of the solution', rounding=att, **info)
                ctx.trace('%s %s' % (name, 'converged' if s.converged else 'stopped'))
