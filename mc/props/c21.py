"""C21: LSQR and LSMR solve (damped, weighted) least-squares problems."""
import itertools
import numpy as np
from mc import sq, ls

BOUNDS = dict(exact='every 1x1..2x3 matrix over {-1,0,1} (1x1, 1x2, 2x1, 2x2 over {-1,0,1,2}), every 7th 3x3 over {-1,0,1} (thorough: all, and 3x4, 4x3 families); every right-hand side of {0,1}^m plus mixed ones; damping 0, 1/2, 2; 2 weightings',
              windows='direct-error windows 1..12 x 4 tolerances',
              stops='every iteration limit 1..5, default and 50', tolerances='default, loose, tight, off; conlim default, 10, off; etol and window variants on the structured family',
              structured='shapes up to 40x25: full rank, rank deficient, graded (condition 1e2..1e6), orthogonal columns, diagonal, scaled 1e-8..1e8',
              oracle='dense subspace minimizers for every iterate; pseudo-inverse solution; stop rules recomputed from dense norms')
ASSUMPTIONS = ['iterates are compared up to the grade of the right-hand side (where the method terminates exactly)']

RHS = {1: [[1], [-2], [0]], 2: [[1, 0], [0, 1], [1, 1], [2, -1]], 3: [[1, 0, 0], [0, 0, 1], [1, 1, 1], [1, 2, -1]], 4: [[1, 0, 0, 0], [1, 2, -1, 1]]}


def cases(tier):
    full = tier != 'quick'
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2)):
        for A in sq.mats(m, n, (-1, 0, 1, 2)):
            yield ['int', A.tolist()]
    for m, n in ((3, 1), (1, 3), (3, 2), (2, 3)):
        for i, A in enumerate(sq.mats(m, n, (-1, 0, 1))):
            if full or m * n < 6 or i % 4 == 1:
                yield ['int', A.tolist()]
    for i, A in enumerate(sq.mats(3, 3, (-1, 0, 1))):
        if i % (61 if not full else 5) == 7:
            yield ['int', A.tolist()]
    if full:
        for m, n in ((3, 4), (4, 3)):
            for i, A in enumerate(sq.mats(m, n, (0, 1, -1))):
                if i % 997 == 3:
                    yield ['int', A.tolist()]
    for m, n in ((20, 20), (24, 18), (18, 24)):
        for w in ls.WINDOWS:
            yield ['window', m, n, w]
    for kind in KINDS:
        for m, n in ((4, 3), (6, 10), (10, 6), (15, 15), (40, 25), (25, 40)):
            yield ['big', kind, m, n]


KINDS = ('dense', 'rank', 'g2', 'g4', 'g6', 'orth', 'diag', 'tiny', 'huge', 'cols', 'poly')


def matrix(kind, m, n):
    i, j = np.meshgrid(np.arange(m), np.arange(n), indexing='ij')
    k = min(m, n)
    U, V = sq.orth(m)[:, :k], sq.orth(n + 1)[:n, :n]
    V = np.linalg.qr(V)[0][:, :k]
    if kind == 'dense':
        return np.cos(1.3 * i + j * j) + 2. * (i == j)
    if kind == 'rank':
        s = np.array([1. + q % 3 if q < max(1, k // 2) else 0. for q in range(k)])
        return np.dot(U * s, V.T)
    if kind[0] == 'g':
        return np.dot(U * np.logspace(0, -float(kind[1]), k), V.T)
    if kind == 'orth':
        return np.dot(U, V.T) * 3.
    if kind == 'diag':
        return 1. * (i == j) * (1. + j % 4)
    if kind == 'tiny':
        return 1e-8 * matrix('poly', m, n)
    if kind == 'huge':
        return 1e8 * matrix('poly', m, n)
    if kind == 'cols':
        return 1. * (i == j) + .5 * (i == j + 1) + (j == 1) * .25
    return 2. * (i == j) - 1. * (abs(i - j) == 1) + (i >= n) * .5 + (j >= m) * .5


def run(ctx, case):
    if case[0] == 'int':
        A = np.array(case[1])
        m, n = A.shape
        for b in RHS[m]:
            for damp in (0., .5, 2.):
                for w in (0, 1, 2):
                    if (w == 2 and damp == 2.) or (w == 1 and damp == 0. and n == 3 and m == 3):
                        continue
                    P = ls.Problem(A, np.array(b), damp, ls.spdweight(m, w), ls.spdweight(n, w))
                    every(ctx, P, (None, 1, 2, 3, 5, 50), True)
    elif case[0] == 'window':
        window(ctx, *case[1:])
    else:
        _, kind, m, n = case
        A = matrix(kind, m, n)
        for bk in ('mix', 'range', 'e1'):
            b = np.dot(A, sq.rhs('alt', n)) if bk == 'range' else sq.rhs(bk, m) * np.linalg.norm(A, 2)
            for damp in (0., .1, 3.):
                for w in (0, 1) if kind in ('dense', 'orth', 'diag', 'poly', 'rank') else (0,):
                    P = ls.Problem(A, b, damp * (np.linalg.norm(A, 2) if kind in ('tiny', 'huge') else 1.), ls.spdweight(m, w), ls.spdweight(n, w))
                    every(ctx, P, (None, 1, 2, 4, 10 * max(m, n)), kind in ('dense', 'orth', 'diag', 'poly', 'cols', 'rank'), big=True)
                    if w == 0:
                        variants(ctx, P)


def window(ctx, m, n, w):
    """Direct-error stops for every window length, against the energies of the iterates."""
    for A, b in ls.window_problems(m, n):
        for damp in (0., .5):
            for wt in (0, 1):
                P = ls.Problem(A, b, damp, ls.spdweight(m, wt), ls.spdweight(n, wt))
                for name in ('lsqr', 'lsmr'):
                    for etol in (.3, .1, 1e-2, 1e-3):
                        s = P.solve(name, 40, store_iterates=True, window=w, etol=etol, atol=0., btol=0., conlim=0.)
                        s.lim = 40
                        ctx.step(s.itn)
                        E = ls.steps(P, name, s.iterates)
                        info = dict(solver=name, shape=(m, n), damp=damp, weighted=wt, window=w, etol=etol, itn=s.itn, istop=s.istop)
                        ls.windowed(ctx, name, s, E, w, etol, 8, False, **info)
                        ctx.state(name, 'window', m, n, w, etol, damp, wt, float(b[0]), float(A[0, 0]))
                        ctx.trace('%s window istop %d' % (name, s.istop))


def every(ctx, P, limits, iterates, big=False):
    want = P.solution()
    for name in ('lsqr', 'lsmr'):
        grade = P.grade(name)
        for k in limits:
            s = P.solve(name, k)
            lim = k if k is not None else (3 * P.n if name == 'lsqr' else min(P.m, P.n))
            info = dict(solver=name, A=P.A, b=P.b, damp=P.damp, W1=P.W1, W2=P.W2, itnlim=k, itn=s.itn, istop=s.istop, x=s.x)
            judge(ctx, name, P, s, lim, info, {})
            if iterates and s.itn <= min(grade, 4):
                it = P.iterate(name, s.itn)
                ctx.check(np.abs(s.x - it).max() <= 1e-6 * (1e-12 + np.abs(it).max() + (0 if big else 1)), 'the iterate is not the one defined by the method', want=it, **info)
            if k is not None and k >= 50 and P.g.any():
                # with enough iterations the problem is solved, and said to be
                acc = accuracy(P)
                ctx.check(s.optimal or s.istop in (3, 6), 'the method does not finish', **info)
                if s.istop in (1, 2, 4, 5):
                    ctx.check(np.linalg.norm(s.x - want) <= acc * np.linalg.norm(want) + 1e-8 * (not big), 'not the (minimum-norm) solution of the problem', want=want, **info)
            elif k is None and not big:
                ctx.check(np.abs(s.x - want).max() <= 1e-6 * (1 + np.abs(want).max()), 'the default limit does not reach the solution', want=want, **info)
            ctx.state(name, repr(P.A.tolist()), repr(P.b.tolist()), P.damp, P.W1 is None, k)
            ctx.trace('%s istop %d' % (name, s.istop))


def accuracy(P):
    sv = np.linalg.svd(P.At, compute_uv=False)
    sv = np.sqrt(sv ** 2 + P.damp ** 2)[sv > 1e-9 * sv[0]] if sv[0] > 0 else np.array([1.])
    c = sv.max() / sv.min()
    return min(1e-7 * c ** 2 + 1e-9, 1.) if c < 1e3 else 2.


def judge(ctx, name, P, s, lim, info, o):
    """The flags and codes of a solve against dense norms of what it returned."""
    atol, btol, conlim, etol, window = o.get('atol', 1e-9), o.get('btol', 1e-9), o.get('conlim', 1e8), o.get('etol', 1e-6), o.get('window', 5)
    x = s.x
    ctx.check(x.shape == (P.n,) and np.isfinite(x).all(), 'solution not finite or of the wrong size', **info)
    ctx.check(s.bestSolution is s.x, 'bestSolution is not the solution', **info)
    ctx.check(s.itn <= lim, 'more iterations than the limit', limit=lim, **info)
    ctx.check(P.last.count <= lim and P.last.tcount <= lim + 1, 'more products than the limit allows', limit=lim, products=(P.last.count, P.last.tcount), **info)
    ctx.check(s.optimal == (s.istop in (0, 1, 2, 4, 5, 8)), 'optimal flag contradicts the stop code', optimal=s.optimal, **info)
    bn, res, nrm = np.linalg.norm(P.bt), P.objective(x), P.normal(x)
    ctx.step(s.itn)
    # the norm estimate is that of A on the subspace; without exact orthogonality it grows with sqrt(itn)
    AF = np.sqrt(max(P.normF ** 2, s.itn * P.norm ** 2) + (max(P.n, s.itn) * P.damp ** 2 if name == 'lsqr' else 0))
    # a posteriori rounding allowance of the recurred norms
    xn = max(P.xnorm(x), np.linalg.norm(x))
    eps = 1e-12 * (AF * xn + bn)
    i = s.istop
    if i == 0:
        ctx.check(not x.any() and nrm <= 1e-12 * (1 + AF * bn), 'claims that zero is a solution', normal=nrm, **info)
    elif i == 1:
        ctx.check(res <= 1.01 * (btol * bn + atol * AF * xn) + eps, 'claims a compatible system but the residual is large', residual=res, **info)
    elif i == 4:
        ctx.check(res <= 1e-14 * (bn + AF * xn) + eps, 'claims machine precision but the residual is large', residual=res, **info)
    elif i == 2:
        ctx.check(nrm <= 1.01 * atol * AF * res + AF * eps * 10, 'claims a least-squares solution but the normal residual is large', normal=nrm, residual=res, **info)
    elif i == 5:
        ctx.check(nrm <= 1e-14 * AF * res + AF * eps * 10, 'claims machine precision but the normal residual is large', normal=nrm, **info)
    elif i in (3, 6):
        Ab = np.vstack((P.At, P.damp * np.eye(P.n)))
        sv = np.linalg.svd(Ab, compute_uv=False)
        g = P.grade(name)
        V = P.V(g)
        k = np.linalg.norm(np.dot(Ab, V)) * np.linalg.norm(np.linalg.pinv(np.dot(Ab, V)))
        ctx.check(k >= (conlim if i == 3 else 1e12) * .9, 'claims an ill-conditioned operator', condition=k, conlim=conlim, sv=sv[:5], **info)
    elif i == 7:
        ctx.check(s.itn >= lim, 'claims that the iteration limit was reached', **info)
    elif i == 8:
        ctx.check(s.itn > window, 'direct error judged before the window is full', **info)
        k = s.itn
        t = P.solve(name, k + 1, store_iterates=True, **o)
        ctx.check(t.istop == 8 and len(t.iterates) == k + 1, 'does not stop again at the same iteration', **info)
        E = [P.energy(name, t.iterates[q]) for q in (k, k - window)]
        if k > 10 or np.linalg.cond(P.At) > 30:
            return          # without exact orthogonality the terms do not add up
        ctx.check(E[0] - E[1] <= etol ** 2 * E[0] * 1.1 + 1e-9 * E[0], 'claims a small direct error', energies=E, **info)
    else:
        ctx.fail('unknown stop code', **info)
    if i not in (7,) and s.itn == lim and lim > 0:
        pass
    # a solution that meets the tolerances clearly must not be run past
    if i == 7 and s.itn > 0:
        ctx.check(res > .5 * btol * bn - eps or nrm > .5 * atol * AF * res - AF * eps, 'solved but reported as unfinished', residual=res, normal=nrm, **info)


def variants(ctx, P):
    """Tolerances, conditioning limit, direct-error options."""
    for o in (dict(atol=1e-3, btol=1e-3), dict(atol=1e-12, btol=1e-12), dict(atol=0., btol=0.), dict(atol=1e-6, btol=0.), dict(atol=0., btol=1e-5),
              dict(conlim=10.), dict(conlim=0.), dict(conlim=1e3), dict(etol=.5, window=2), dict(etol=.1, window=1), dict(etol=0.), dict(etol=1e-2, window=4, atol=0., btol=0.)):
        for name in ('lsqr', 'lsmr'):
            lim = 8 * max(P.m, P.n)
            if o.get('atol') == 0. and o.get('btol') == 0.:
                lim = 3 * P.n
            s = P.solve(name, lim, **o)
            info = dict(solver=name, A=P.A[:4, :4], shape=P.A.shape, b=P.b[:4], damp=P.damp, options=o, itn=s.itn, istop=s.istop)
            judge(ctx, name, P, s, lim, info, o)
            ctx.state(name, 'variant', repr(P.A.tolist())[:200], repr(P.b.tolist())[:200], P.damp, repr(sorted(o.items())))
            ctx.trace('%s %s istop %d' % (name, '+'.join(sorted(o)), s.istop))
