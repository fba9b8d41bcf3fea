"""C30: reported norms and estimates are those of the returned solution, wherever the solve stops."""
import numpy as np
from mc import sq, ls
from mc.props.c21 import matrix, KINDS, RHS

BOUNDS = dict(ls='every 1x1..2x2 matrix over {-1,0,1,2}, every 3x1, 1x3 and half of the 3x2, 2x3 over {-1,0,1}, a stride of the 3x3 ones (thorough: all 3x2/2x3, denser 3x3, 3x4/4x3); damping 0, 1/2, 2; two weightings',
              sym='every symmetric 1x1 and 2x2 over -2..2, 3x3 over {-1,0,1} (thorough: -2..2), shifts 0, 1/2, -2, two preconditioners',
              stops='every iteration limit 1..6 (every one up to 2n for the structured), default, 50', structured='11 rectangular and 9 symmetric families up to 40x25',
              oracle='dense norms of the returned vectors; explicit Krylov bases for the estimates')
ASSUMPTIONS = ['operator-norm and condition estimates are compared while the Krylov basis is exact (up to the grade and at most 6 iterations)',
               'right-hand sides that are in the null space but for roundoff are left out',
               'solution norm and undamped residual norm of LSQR and the norms of CRAIG within one per cent past 5 iterations of a structured problem (their recurrences need orthogonality)',
               'the Arnorm of MINRES and CRAIG is that of the iterate before the last (except at a least-squares stop of MINRES)',
               'CRAIG-MR reports its norms in its histories only']

SYMKINDS = ('lap', 'diag', 'few', 'spd', 'cond3', 'indef', 'indefdiag', 'pm', 'neg')


def cases(tier):
    full = tier != 'quick'
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2)):
        for A in sq.mats(m, n, (-1, 0, 1, 2)):
            yield ['ls', A.tolist()]
    for a in range(-3, 4):
        yield ['sym', [[a]]]
    for A in sq.symmats(2, range(-2, 3)):
        yield ['sym', A.tolist()]
    for A in sq.symmats(3, (-1, 0, 1) if not full else range(-2, 3)):
        yield ['sym', A.tolist()]
    for m, n in ((3, 1), (1, 3), (3, 2), (2, 3)):
        for i, A in enumerate(sq.mats(m, n, (-1, 0, 1))):
            if full or m * n < 6 or i % 4 == 3:
                yield ['ls', A.tolist()]
    for i, A in enumerate(sq.mats(3, 3, (-1, 0, 1))):
        if i % (97 if not full else 5) == 11:
            yield ['ls', A.tolist()]
    if full:
        for m, n in ((3, 4), (4, 3)):
            for i, A in enumerate(sq.mats(m, n, (0, 1, -1))):
                if i % 997 == 9:
                    yield ['ls', A.tolist()]
    for kind in KINDS:
        for m, n in ((4, 3), (6, 10), (10, 6), (15, 15), (40, 25), (25, 40)):
            yield ['lsbig', kind, m, n]
    for kind in SYMKINDS:
        for n in (5, 8, 15, 30):
            yield ['symbig', kind, n]


def run(ctx, case):
    if case[0] == 'ls':
        A = np.array(case[1])
        m, n = A.shape
        for b in RHS[m]:
            for damp, w in ((0., 0), (.5, 0), (2., 0), (0., 1), (.5, 2)):
                least(ctx, ls.Problem(A, np.array(b), damp, ls.spdweight(m, w), ls.spdweight(n, w)), (None, 1, 2, 3, 4, 6, 50))
    elif case[0] == 'lsbig':
        _, kind, m, n = case
        A = matrix(kind, m, n)
        nA = np.linalg.norm(A, 2)
        for bk in ('mix', 'range', 'e1'):
            b = np.dot(A, sq.rhs('alt', n)) if bk == 'range' else sq.rhs(bk, m) * nA
            for damp, w in ((0., 0), (.3, 0), (0., 1), (1., 2)):
                P = ls.Problem(A, b, damp * (nA if kind in ('tiny', 'huge') else 1.), ls.spdweight(m, w), ls.spdweight(n, w))
                least(ctx, P, [None] + list(range(1, min(2 * n, 12))) + [2 * n, 8 * max(m, n)], big=True)
    elif case[0] == 'sym':
        A = np.array(case[1])
        n = len(A)
        for b in RHS[n][-2:] if n == 3 else RHS[n]:
            for i, shift in enumerate((0., .5, -2.)):
                for j, M in enumerate((None, np.diag(1. + np.arange(n) % 3), np.eye(n) + 1.)):
                    if n < 3 or j == 0 or j == 1 + i % 2:
                        symm(ctx, A, np.array(b), shift, M, [None, 1, 2, 3, 4, 8])
    else:
        _, kind, n = case
        A = sq.big(kind, n)
        for bk in ('mix', 'ones', 'e1', 'tiny', 'huge'):
            for shift in (0., .25):
                for M in (None, np.diag(1. / (1 + np.arange(n) % 4))):
                    symm(ctx, A, sq.rhs(bk, n), shift, M, [None] + list(range(1, min(2 * n, 14))) + [2 * n, 4 * n], big=True)


def close(got, want, tol):
    return abs(got - want) <= tol


def least(ctx, P, limits, big=False):
    bn = np.linalg.norm(P.bt)
    for name in sq.LS:
        grade = P.grade(name)
        for k in limits:
            kw = dict(store_iterates=True, store_resids=True)
            if name == 'lsqr':
                kw['wantvar'] = True
            s = P.solve(name, k, **kw)
            ctx.step(s.itn)
            info = dict(solver=name, A=P.A[:5, :5], shape=P.A.shape, b=P.b[:5], damp=P.damp, W1=P.W1 is not None, W2=P.W2 is not None, itnlim=k, itn=s.itn, istop=s.istop, x=s.x[:5])
            ctx.state(name, repr(P.A.tolist()), repr(P.b.tolist()), P.damp, P.W1 is None, s.itn)
            ctx.trace('%s itn %d' % (name, min(s.itn, 8)))
            if name in ('lsqr', 'lsmr'):
                lsq(ctx, name, P, s, grade, bn, big, info)
            else:
                sqd(ctx, name, P, s, grade, bn, big, info)
            if k is not None and s.itn < k:
                break       # finished: a larger limit changes nothing (C14)


def lsq(ctx, name, P, s, grade, bn, big, info):
    x, k = s.x, s.itn
    d2 = P.damp ** 2
    xn = P.xnorm(x)
    xs = max(xn, max(P.xnorm(z) for z in s.iterates))
    tol = 1e-8 * (bn + P.norm * xs)
    nrm = P.norm + P.damp
    # without exact orthogonality the recurred norms drift with the iteration count
    if big:
        tol *= 10
    late = 1e-2 * (bn + P.norm * xs) if big and k > 2 and P.damp else 0.
    obj = P.objective(x)
    ctx.check(close(s.r2norm, obj, tol), 'reported (damped) residual norm is not that of the solution', got=s.r2norm, want=obj, **info)
    ctx.check(s.residNorm == s.r2norm, 'residNorm is not the reported residual norm', got=s.residNorm, want=s.r2norm, **info)
    if name == 'lsqr':
        ctx.check(close(s.r1norm, P.resid(x), tol * 3 + late) or close(abs(s.r1norm) ** 2, P.resid(x) ** 2, tol * bn), 'reported residual norm is not that of the solution', got=s.r1norm, want=P.resid(x), **info)
    ctx.check(close(s.Arnorm, P.normal(x), tol * nrm), 'reported normal-equations residual is not that of the solution', got=s.Arnorm, want=P.normal(x), **info)
    want = xn if name == 'lsqr' else np.linalg.norm(x)
    ctx.check(close(s.xnorm, want, (1e-6 if not big or k < 3 else 1e-2) * (want + 1e-300) + tol * (0 if not P.norm else 1e-4 / P.norm)), 'reported solution norm is not that of the solution', got=s.xnorm, want=want, **info)
    if not bn:
        ctx.check(s.Anorm == 0 or s.Anorm >= 0, 'operator-norm estimate is no number', got=s.Anorm, **info)
        return
    if not np.linalg.norm(P.g) > 1e-13 * P.norm * bn:
        return
    V = P.V(min(k, grade))
    if big and k > 1 and np.linalg.cond(np.dot(P.At, V)) > (20 if k > 3 else 200):
        return
    if 1 <= k <= min(grade, 6):
        fro2 = np.linalg.norm(np.dot(P.At, V)) ** 2
        want = np.sqrt(fro2 + (k * d2 if name == 'lsqr' else 0))
        ctx.check(close(s.Anorm, want, 1e-5 * want), 'operator-norm estimate is not the Frobenius norm on the subspace', got=s.Anorm, want=want, **info)
        B = np.dot(V.T, np.dot(P.N, V)) + d2 * np.eye(k)
        w = np.linalg.eigvalsh(B)
        if w[0] > 1e-9 * w[-1]:
            inv = np.linalg.inv(B)
            D = np.dot(P.R2, np.dot(V, np.dot(inv, np.dot(V.T, P.R2.T))))
            if name == 'lsqr':
                ctx.check(np.abs(s.var - np.diag(D)).max() <= 1e-4 * np.abs(D).max(), 'variances are not those of the subspace', got=s.var, want=np.diag(D), **info)
                want = s.Anorm * np.sqrt(np.trace(inv))
                ctx.check(close(s.Acond, want, 1e-4 * want), 'condition estimate is not the product of the norm estimates', got=s.Acond, want=want, **info)
            elif k < grade:
                # the singular values of the bidiagonal factor bound the estimate
                ub = np.linalg.norm(np.vstack((np.dot(P.At, V), P.damp * V))) * np.linalg.norm(np.linalg.pinv(np.vstack((np.dot(P.At, V), P.damp * V))))
                ctx.check(1 - 1e-9 <= s.Acond <= ub * (1 + 1e-6), 'condition estimate below one or above that of the subspace', got=s.Acond, bound=ub, **info)
    ctx.check(np.isfinite(s.Anorm) and s.Anorm <= np.sqrt(max(k, 1) * (P.norm ** 2 + d2)) * (1 + 1e-6), 'operator-norm estimate above sqrt(iterations) times the norm', got=s.Anorm, norm=P.norm, **info)
    if name == 'lsqr' and k == grade == P.n and np.linalg.norm(P.N) > 0 and not big:
        full = np.linalg.inv(P.N + d2 * np.eye(P.n)) if np.linalg.cond(P.N + d2 * np.eye(P.n)) < 1e8 else None
        if full is not None:
            want = np.diag(np.dot(P.R2, np.dot(full, P.R2.T)))
            ctx.check(np.abs(s.var - want).max() <= 1e-5 * np.abs(want).max(), 'variances are not those of the full problem', got=s.var, want=want, **info)


def sqd(ctx, name, P, s, grade, bn, big, info):
    cond = 1 + P.norm ** 2
    if cond > 1e8:
        return
    # the recurrences need orthogonality
    tol = (1e-7 if not big else 1e-6 if s.itn < 6 else 1e-2) * bn * np.sqrt(cond)
    if name == 'craig':
        its = s.iterates_d
        x, r = s.x, s.r
        en = np.sqrt(max(P.energy('craig', r), 0))
        r1 = np.linalg.norm(np.linalg.solve(P.R1, r))
        ctx.check(close(s.r2norm, en, tol), 'reported objective is not that of the solution', got=s.r2norm, want=en, **info)
        ctx.check(close(s.r1norm, r1, tol), 'reported residual norm is not that of the solution', got=s.r1norm, want=r1, **info)
        ctx.check(close(s.xnorm, np.linalg.norm(x), tol), 'reported solution norm is not that of the solution', got=s.xnorm, want=np.linalg.norm(x), **info)
        if s.itn >= 1:
            want = P.sqdres(its[-2])
            ctx.check(close(s.Arnorm, want, tol * cond), 'reported residual is not that of the iterate before the last', got=s.Arnorm, want=want, **info)
    else:
        want = P.sqdres(s.x)
        ctx.check(close(s.normal_eqns_resids[-1], want, tol * cond), 'last stored residual is not that of the solution', got=s.normal_eqns_resids[-1], want=want, **info)


def symm(ctx, A, b, shift, M, budgets, big=False):
    n = len(b)
    As = A - shift * np.eye(n)
    R = np.eye(n) if M is None else ls.root(M)
    At, bt = np.dot(R, np.dot(As, R)), np.dot(R, b)
    At = (At + At.T) / 2
    nA = np.linalg.norm(At, 2)
    bn = np.linalg.norm(bt)
    sing = np.linalg.svd(At, compute_uv=False)[-1] <= 1e-9 * nA
    null = np.linalg.norm(np.dot(At, bt))
    if 0 < null <= 1e-13 * nA * bn:
        return      # in the null space but for roundoff
    V = sq.krylov(At, bt, n)
    grade = V.shape[1]
    for name in ('minres', 'symmlq'):
        done = 0
        for bud in budgets:
            if name == 'symmlq' and bud is not None and bud < 2 or done > 1:
                continue
            s, a, m = sq.run(name, A, b, bud, M=M, shift=shift, store_iterates=True)
            x = s.x
            done += bud is not None and a.count < bud
            info = dict(solver=name, A=A[:5, :5], n=n, b=b[:5], shift=shift, M=None if M is None else M[:5, :5], budget=bud, itn=s.itn, istop=s.istop, x=x[:5])
            ctx.step(a.count)
            ctx.state(name, repr(np.array(A).tolist()), repr(np.array(b).tolist()), shift, M is None, s.itn)
            ctx.trace('%s itn %d' % (name, min(s.itn, 8)))
            k = s.itn
            r = b - np.dot(As, x)
            nx = max(np.linalg.norm(x), max(np.linalg.norm(z) for z in s.iterates))
            tol = 1e-9 * (bn + nx * np.linalg.norm(As, 2) * np.linalg.norm(R, 2)) * (10 if big else 1)
            ctx.check(close(s.residNorm0, bn, 1e-12 * bn), 'reported initial residual norm is wrong', got=s.residNorm0, want=bn, **info)
            if name == 'symmlq':
                ctx.check(close(s.residNorm, np.linalg.norm(r), tol), 'reported residual norm is not that of the solution', got=s.residNorm, want=np.linalg.norm(r), **info)
                for q in ('xNorm', 'solutionNorm'):
                    ctx.check(close(getattr(s, q), np.linalg.norm(x), 1e-12 * (1 + nx)), 'reported solution norm is not that of the solution', which=q, got=getattr(s, q), want=np.linalg.norm(x), **info)
            else:
                want = np.linalg.norm(np.dot(R, r))
                if not sing or k <= grade:
                    ctx.check(close(s.residNorm, want, tol * 100), 'reported residual norm is not that of the solution', got=s.residNorm, want=want, **info)
                ctx.check(s.rnorm == s.residNorm, 'rnorm and residNorm differ', got=(s.rnorm, s.residNorm), **info)
                ctx.check(close(s.ynorm, np.linalg.norm(x), 1e-12 * (1 + nx)), 'reported solution norm is not that of the solution', got=s.ynorm, want=np.linalg.norm(x), **info)
            if not bn:
                continue
            if name == 'minres' and k >= 1:
                # norm of A times the residual: one iterate late unless it made the method stop
                stay = len(s.iterates) == k
                rp = np.dot(R, b - np.dot(As, s.iterates[-1 if stay else -2]))
                want = np.linalg.norm(np.dot(At, rp))
                if not sing or k <= grade:
                    ctx.check(close(s.Arnorm, want, nA * tol * 100), 'reported |A r| is not that of the iterate it belongs to', got=s.Arnorm, want=want, **info)
            if 1 <= k <= min(grade, 6):
                W = V[:, :k]
                # beta_(grade+1) is roundoff when the space is exhausted
                T = np.dot(V.T, np.dot(At, W))[:k + 1]
                want = np.linalg.norm(T)
                if s.istop != 8 and nA:
                    got = s.Anorm if name == 'minres' else s.anorm
                    ctx.check(close(got, want, 1e-5 * want + 1e-12 * nA), 'operator-norm estimate is not the Frobenius norm on the subspace', got=got, want=want, **info)
                g = np.abs(np.diag(np.linalg.qr(T)[1]))
                if g.min() <= 1e-6 * g.max():
                    continue
                if name == 'minres':
                    if len(s.iterates) == k + 1:
                        ctx.check(close(s.Acond, g.max() / g.min(), 1e-4 * g.max() / g.min()), 'condition estimate is not the ratio of the diagonal of R', got=s.Acond, want=g.max() / g.min(), **info)
                elif s.istop in (-1, 1, 2, 5):
                    gb = abs(np.diag(np.linalg.qr(T[:k])[1]))[-1]
                    h = np.append(g[:-1], gb)
                    c = [g[:-1].max() / g[:-1].min() if k > 1 else 1., h.max() / h.min() if h.min() > 0 else np.inf]
                    ctx.check(any(close(s.acond, q, 1e-4 * q) for q in c) or gb <= 1e-9 * nA, 'condition estimate is not the ratio of the diagonal of L', got=s.acond, want=c, **info)
            if name == 'minres' and 1 <= k:
                ctx.check(s.Anorm <= np.sqrt(k) * nA * (1 + 1e-6) + 1e-12, 'operator-norm estimate above sqrt(iterations) times the norm', got=s.Anorm, norm=nA, **info)
