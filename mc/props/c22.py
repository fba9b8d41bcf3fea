"""C22: CRAIG and CRAIG-MR solve the symmetric quasi-definite system."""
import itertools
import numpy as np
from mc import sq, ls
from mc.props.c21 import matrix, KINDS, RHS

BOUNDS = dict(exact='every 1x1..2x3 matrix over {-1,0,1} (up to 2x2 over {-1,0,1,2}), a stride of the 3x3 ones (thorough: denser, and 3x4/4x3), several right-hand sides, no weights and 2 weightings (M only, N only, both)',
              stops='every iteration limit 1..6, default, 50; window and etol variants', windows='direct-error windows 1..12 x 4 tolerances',
              structured='11 kinds x 6 shapes up to 40x25', scale='right-hand sides times 1e-6..1e6',
              oracle='dense Galerkin (CRAIG) / minimum-residual (CRAIG-MR) solution over the explicit subspace for every iterate; dense solution of the block system')
ASSUMPTIONS = ['iterates are compared one by one up to the grade of the right-hand side']


def cases(tier):
    full = tier != 'quick'
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2)):
        for A in sq.mats(m, n, (-1, 0, 1, 2)):
            yield ['int', A.tolist()]
    for m, n in ((3, 1), (1, 3), (3, 2), (2, 3)):
        for i, A in enumerate(sq.mats(m, n, (-1, 0, 1))):
            if full or m * n < 6 or i % 2 == 1:
                yield ['int', A.tolist()]
    for i, A in enumerate(sq.mats(3, 3, (-1, 0, 1))):
        if i % (31 if not full else 3) == 7:
            yield ['int', A.tolist()]
    if full:
        for m, n in ((3, 4), (4, 3)):
            for i, A in enumerate(sq.mats(m, n, (0, 1, -1))):
                if i % 499 == 3:
                    yield ['int', A.tolist()]
    for m, n in ((20, 20), (24, 18), (18, 24)):
        for w in ls.WINDOWS:
            yield ['window', m, n, w]
    for kind in KINDS:
        for m, n in ((4, 3), (6, 10), (10, 6), (15, 15), (40, 25), (25, 40)):
            yield ['big', kind, m, n]


def weights(m, n):
    yield None, None
    yield ls.spdweight(m, 1), ls.spdweight(n, 2)
    yield ls.spdweight(m, 2), None
    yield None, ls.spdweight(n, 1)


def run(ctx, case):
    if case[0] == 'int':
        A = np.array(case[1])
        m, n = A.shape
        for b in RHS[m]:
            for W1, W2 in weights(m, n):
                every(ctx, ls.Problem(A, np.array(b), 0., W1, W2), (None, 1, 2, 3, 4, 6, 50))
        for sc in (1e-6, 1e6):
            every(ctx, ls.Problem(A, np.array(RHS[m][-2]) * sc, 0., None, None), (2, 50))
    elif case[0] == 'window':
        window(ctx, *case[1:])
    else:
        _, kind, m, n = case
        A = matrix(kind, m, n)
        for b in (sq.rhs('mix', m), np.dot(A, sq.rhs('alt', n)), sq.rhs('e1', m)):
            for W1, W2 in weights(m, n):
                P = ls.Problem(A, b, 0., W1, W2)
                every(ctx, P, (None, 1, 2, 3, 10, 10 * max(m, n)), big=True)
        for o in (dict(window=1, etol=.3), dict(window=2, etol=.05), dict(etol=1e-2), dict(etol=1e-10), dict(window=8), dict(etol=0., btol=0.), dict(btol=.5), dict(btol=.05)):
            every(ctx, P, (8 * max(m, n),), big=True, o=o)
            every(ctx, ls.Problem(A, b), (8 * max(m, n),), big=True, o=o)


def window(ctx, m, n, w):
    """Direct-error stops for every window length, against the energies of the iterates."""
    for A, b in ls.window_problems(m, n):
        for W1, W2 in weights(m, n):
            P = ls.Problem(A, b, 0., W1, W2)
            for name in ('craig', 'craigmr'):
                for etol in (.3, .1, 1e-2, 1e-3):
                    s = P.solve(name, 40, store_iterates=True, window=w, etol=etol, btol=0.)
                    s.lim = 40
                    ctx.step(s.itn)
                    its = s.iterates_d if name == 'craig' else s.iterates
                    E = ls.steps(P, name, its)
                    info = dict(solver=name, shape=(m, n), weights=(W1 is not None, W2 is not None), window=w, etol=etol, itn=s.itn, istop=s.istop)
                    ls.windowed(ctx, name, s, E, w, etol, 8, False, base=P.energy(name, its[0]), **info)
                    ctx.state(name, 'window', m, n, w, etol, W1 is None, W2 is None, float(b[0]), float(A[0, 0]))
                    ctx.trace('%s window istop %d' % (name, s.istop))


def every(ctx, P, limits, big=False, o=None):
    o = o or {}
    xs, rs = P.sqd()
    etol, window, btol = o.get('etol', 1e-6), o.get('window', 5), o.get('btol', 1e-9)
    # condition of the reduced system
    cond = 1 + P.norm ** 2
    bn = np.linalg.norm(P.bt)
    for name in ('craig', 'craigmr'):
        grade = P.grade(name)
        for k in limits:
            s = P.solve(name, k, store_iterates=True, **o)
            lim = k if k is not None else (3 * P.n if name == 'craig' else min(P.m, P.n))
            r = s.r if name == 'craig' else s.x
            info = dict(solver=name, A=P.A[:5, :5], b=P.b[:5], W1=P.W1 is not None, W2=P.W2 is not None, itnlim=k, options=o, itn=s.itn, istop=s.istop, r=r[:5], x=s.x[:5])
            ctx.step(s.itn)
            ctx.check(r.shape == (P.m,) and np.isfinite(r).all() and s.x.shape == ((P.n,) if name == 'craig' else (P.m,)) and np.isfinite(s.x).all(), 'solution not finite or of the wrong size', **info)
            ctx.check(s.itn <= lim and P.last.count <= s.itn and P.last.tcount <= s.itn + 1, 'more iterations or products than the limit', products=(P.last.count, P.last.tcount), **info)
            ctx.check(s.optimal == (s.istop in (0, 1, 2, 4, 5, 8)), 'optimal flag contradicts the stop code', **info)
            done = s.itn + (name == 'craig') >= grade
            err = np.linalg.norm(r - rs)
            nr = np.linalg.norm(rs)
            tol = (1e-7 if cond < 1e5 else 1e-3) * (nr + 1e-300)
            if cond < 1e8:
                if done and (not big or grade < 8):
                    ctx.check(err <= tol, 'r is not the solution after enough iterations', want=rs, **info)
                    if name == 'craig':
                        ctx.check(np.linalg.norm(s.x - xs) <= tol * cond + 1e-12 * bn, 'x is not the solution after enough iterations', want=xs, **info)
                if s.itn <= min(grade, 4):
                    it = P.iterate(name, s.itn)
                    ri = it[1] if name == 'craig' else it
                    ctx.check(np.linalg.norm(r - ri) <= 1e-6 * (np.linalg.norm(ri) + nr + 1e-300), 'r is not the iterate defined by the method', want=ri, **info)
                    if name == 'craig':
                        ctx.check(np.linalg.norm(s.x - it[0]) <= 1e-6 * (np.linalg.norm(it[0]) + np.linalg.norm(xs) + 1e-6 * bn * (1 + P.norm)), 'x is not the iterate defined by the method', want=it[0], **info)
                if name == 'craig':
                    # A' r = N x for every iterate
                    Nx = s.x if P.W2 is None else np.linalg.solve(P.W2, s.x)
                    g = np.dot(P.A.T, r)
                    ctx.check(np.linalg.norm(g - Nx) <= 1e-7 * (np.linalg.norm(P.A, 2) * np.linalg.norm(r) + np.linalg.norm(Nx) + bn), 'the second block of equations does not hold', got=Nx, want=g, **info)
                if k is not None and k >= 50 and not o:
                    ctx.check(s.optimal, 'the method does not finish', **info)
            i = s.istop
            if i == 0:
                ctx.check(not P.b.any() and not r.any(), 'claims a zero right-hand side', **info)
            elif i in (1, 4) and name == 'craig':
                ctx.check(np.sqrt(P.energy('craig', r)) <= (btol if i == 1 else 1e-15) * bn * 1.01 + 1e-10 * bn, 'claims a small residual', objective=P.energy('craig', r), **info)
            elif i == 7:
                ctx.check(s.itn >= lim, 'claims that the iteration limit was reached', **info)
            elif i == 8:
                its = s.iterates_d if name == 'craig' else s.iterates
                ctx.check(s.itn > window and len(its) == s.itn + 1, 'direct error judged before the window is full', **info)
                if cond < 100 and s.itn <= 12:
                    E = [P.energy(name, its[q]) for q in (s.itn, s.itn - window)]
                    ctx.check(E[0] - E[1] <= etol ** 2 * E[0] * 1.1 + 1e-9 * E[0], 'claims a small direct error', energies=E, **info)
                    if s.itn > window + 1:
                        E = [P.energy(name, its[q]) for q in (s.itn - 1, s.itn - 1 - window)]
                        ctx.check(E[0] - E[1] >= etol ** 2 * E[0] * .9 - 1e-9 * E[0], 'the direct error was small before', energies=E, **info)
                if not big or (cond < 50 and window == 5 and etol <= 1e-6):
                    ctx.check(err <= 1e-4 * nr, 'claims a small direct error but the error is large', want=rs, **info)
            else:
                ctx.fail('unexpected stop code', **info)
            ctx.state(name, repr(P.A.tolist()), repr(P.b.tolist()), P.W1 is None, P.W2 is None, k, repr(sorted(o.items())))
            ctx.trace('%s istop %d' % (name, i))
