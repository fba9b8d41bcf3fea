"""C23: trivial and degenerate problems end cleanly."""
import contextlib
import io
import itertools
import numpy as np
import pykrylov.linop as lo
from mc import sq, ls

BOUNDS = dict(square='24 operators of sizes 1 to 5 (zero, identity, scaled identities from 1e-60 to 1e60, nilpotent, permutation, rank one, singular, skew, projector, saddle) x every right-hand side of {-1,0,1}^n (n <= 3) or a list, x guesses (none, zero, exact, other) x preconditioners (none, identity, diagonal, zero) x shifts (none, 1, making it singular) x budgets (default, 0..3, 20) x tolerances (default, zero)',
              ls='every m x n matrix over {0,1} up to 2x3 and 3x2, zero/identity/rank-one matrices up to 5x4, 1xn, mx1; every right-hand side of {-1,0,1}^m (m <= 2) and a list; damping, weights, limits 0..3 and default, tolerances off, store and variance options',
              wrong='wrong sizes, non-square operators', empty='0 x 0 systems, and problems with 0 to 3 equations or unknowns, every subset of the printing, storing and checking options')
ASSUMPTIONS = ['a zero right-hand side means zero solution and success for every method that reports one; TFQMR, CGS, BiCGSTAB and CG with a guess iterate from it']


def operators(n):
    i = np.arange(n)
    I, J = np.meshgrid(i, i, indexing='ij')
    yield 'zero', np.zeros((n, n))
    yield 'identity', np.eye(n)
    yield 'minus', -np.eye(n)
    for s in (1e-60, 1e-20, 1e-8, 1e8, 1e20, 1e60):
        yield 'id%g' % s, s * np.eye(n)
    if n == 1:
        yield 'int', np.array([[3]])
        return
    yield 'nilpotent', 1. * (J == I + 1)
    yield 'shift', 1. * ((I - J) % n == 1)
    yield 'e1e1', 1. * ((I == 0) & (J == 0))
    yield 'ones', np.ones((n, n))
    yield 'diagsing', np.diag(1. * i)
    yield 'pmdiag', np.diag((-1.) ** i)
    yield 'skew', 1. * (J == I + 1) - 1. * (I == J + 1)
    yield 'flip', 1. * (I + J == n - 1)
    yield 'proj', np.eye(n) - np.ones((n, n)) / n
    yield 'intlap', (2 * (I == J) - (abs(I - J) == 1)).astype(int)
    yield 'neglap', -2. * (I == J) + (abs(I - J) == 1)
    yield 'upper', 1. * (J >= I)
    yield 'rank1', np.outer(1. + i, (-1.) ** i)


def cases(tier):
    full = tier != 'quick'
    for n in (1, 2, 3, 5) + ((4, 8) if full else ()):
        for name, A in operators(n):
            for s in sq.ALL:
                if s in sq.UNSYM or s == 'cg' or np.array_equal(A, A.T):
                    yield ['sq', s, n, name]
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)):
        for i, A in enumerate(sq.mats(m, n, (0, 1))):
            yield ['ls', A.tolist()]
    for m, n in ((1, 4), (4, 1), (5, 4), (4, 5), (3, 3)):
        I, J = np.meshgrid(np.arange(m), np.arange(n), indexing='ij')
        for A in (0 * I, 1 * (I == J), 1 + 0 * I, (1 + I) * (-1) ** J, -3 * (I == J) * (I > 0)):
            yield ['ls', A.tolist()]
    for s in (1e-60, 1e-20, 1e-8, 1e8, 1e20, 1e60):
        for m, n in ((1, 1), (2, 2), (3, 2), (2, 3)):
            yield ['ls', (s * np.eye(max(m, n))[:m, :n]).tolist()]
    yield ['wrong']
    for s in sq.ALL + sq.LS:
        yield ['empty', s]


def run(ctx, case):
    if case[0] == 'sq':
        _, name, n, op = case
        square(ctx, name, dict(operators(n))[op], op)
    elif case[0] == 'ls':
        least(ctx, np.array(case[1]))
    elif case[0] == 'empty':
        empty(ctx, case[1])
    else:
        wrong(ctx)


def rhss(n):
    if n <= 2:
        for b in itertools.product((-1, 0, 1), repeat=n):
            yield np.array(b)
    else:
        for b in ([0] * n, [1] + [0] * (n - 1), [0] * (n - 1) + [1], [1] * n, [1, -1] + [0] * (n - 2), [(-1) ** i for i in range(n)], list(range(n))):
            yield np.array(b)
        yield np.zeros(n)
    yield 1e-30 * np.ones(n)
    yield 1e30 * (np.arange(n) == 0)


def square(ctx, name, A, op):
    n = len(A)
    buds = [None, 0, 1, 2, 3, 20]
    for b in rhss(n):
        exact = sq.lstsq(A, b)
        confs = []
        for M in (None, np.eye(n), np.diag(1. + np.arange(n)), np.zeros((n, n))):
            if symlike(name):
                confs += [dict(M=M, shift=sh) for sh in ((0., 1., float(A[0, 0])) if M is None else (0.,))]
            else:
                confs += [dict(M=M, guess=g) for g in ((None, np.zeros(n), exact, np.ones(n)) if M is None or not M.any() else (None, exact))]
        for conf in confs:
            for bud in buds:
                for tol in (False, True):
                    if tol and (conf['M'] is not None or bud not in (None, 20)):
                        continue
                    one(ctx, name, A, b, dict(conf), bud, tol, op)


def symlike(name):
    return name in ('minres', 'symmlq')


def one(ctx, name, A, b, conf, bud, tol, op):
    n = len(b)
    g, M, shift = conf.get('guess'), conf.get('M'), conf.get('shift', 0.)
    kw, ctor = {}, {}
    if 'shift' in conf:
        kw['shift'] = shift
        if tol:
            kw.update(rtol=0., etol=0.)
    elif tol:
        ctor.update(abstol=0., reltol=0.)
    s, a, m = sq.run(name, A, b, bud, g, M, ctor, **kw)
    x = s.bestSolution
    As = A - shift * np.eye(n)
    info = dict(solver=name, op=op, A=A, b=b, guess=g, M=M, shift=shift, budget=bud, zero_tolerances=tol, converged=s.converged, x=x,
                residNorm=s.residNorm, nMatvec=s.nMatvec, istop=getattr(s, 'istop', None))
    ctx.step(a.count)
    ctx.state(name, repr(A.tolist()), repr(b.tolist()), repr(None if g is None else g.tolist()), repr(None if M is None else M.tolist()), shift, bud, tol)
    ctx.trace('%s %s' % (name, 'success' if s.converged else 'none'))
    ctx.check(isinstance(x, np.ndarray) and x.shape == (n,), 'solution missing or of the wrong size', **info)
    ctx.check(np.isfinite(x).all(), 'solution not finite', **info)
    ctx.check(s.converged in (True, False) and s.residNorm is not None and not np.isnan(s.residNorm), 'no outcome reported', **info)
    lim = 2 * n if bud is None else bud
    if name == 'symmlq':
        lim = max(2 * n + 2 if bud is None else bud, 2)
    elif name == 'minres':
        lim = 5 * n if bud is None else bud
    elif g is not None:
        lim = max(lim, 1)
    ctx.check(a.count <= lim, 'more products than allowed', limit=lim, products=a.count, **info)
    r = b - np.dot(As, x)
    if symlike(name) and np.linalg.norm(np.dot(As, b)) <= 1e-13 * (np.linalg.norm(A, 2) + abs(shift)) * np.linalg.norm(b) and np.dot(As, b).any():
        return      # in the null space but for roundoff
    if not b.any():
        if g is None or not g.any():
            ctx.check(not x.any() and s.converged and s.residNorm == 0, 'a zero right-hand side does not give the zero solution and a success', **info)
    if s.converged:
        R = np.eye(n) if M is None else M
        b1 = np.linalg.norm(b)
        sc = np.linalg.norm(As, 2) * max(np.linalg.norm(x), 0 if g is None else np.linalg.norm(g)) + b1
        r0 = b if g is None else b - np.dot(A, g)
        if name == 'cg':
            rn, r0n = np.sqrt(abs(np.dot(r, np.dot(R, r)))), np.sqrt(abs(np.dot(r0, np.dot(R, r0))))
        else:
            rn, r0n = np.linalg.norm(r), np.linalg.norm(r0)
        thr = sq.threshold(r0n, ctor) if 'shift' not in conf else 1e-6 * sc
        if name == 'minres' and s.istop == 2 and rn > thr:
            rn, thr = np.linalg.norm(np.dot(As, np.dot(R, r))), 1e-10 * np.linalg.norm(As, 2) * rn * max(1, np.linalg.norm(R, 2))
        if M is None or M.any():
            ok = rn <= thr * 1.01 + 1e-12 * sc
            if not ok:
                # rounding allowance: iterates may have been much larger on the way
                xs = [sq.run(name, A, b, k, g, M, ctor, **kw)[0].bestSolution for k in range(a.count + 1)]
                ok = rn <= thr * 1.01 + sq.attainable(As, xs, b)
            ctx.check(ok, 'success reported for a nonzero residual', residual=rn, threshold=thr, **info)
    elif name in sq.SQ4 and M is None and not tol and g is None and sq.threshold(np.linalg.norm(b), ctor) > 1e-10 * np.linalg.norm(A, 2) * np.linalg.norm(x):
        ctx.check(np.linalg.norm(r) > 0 or bud is not None and bud < 2, 'no success reported for an exact solution', **info)


def least(ctx, A):
    m, n = A.shape
    for b in rhss(m):
        for damp, w in ((0., 0), (.5, 0), (0., 1)):
            if np.abs(A).max() not in (0, 1, 3) and (damp or w):
                continue
            P = ls.Problem(A, b, damp, ls.spdweight(m, w), ls.spdweight(n, w))
            for name in sq.LS:
                for k in (None, 0, 1, 2, 3, 20):
                    for o in ({}, dict(atol=0., btol=0., etol=0., conlim=0.), dict(store_iterates=True, store_resids=True, show=True), dict(wantvar=True, window=1, conlim=1e-3)):
                        if name != 'lsqr':
                            o.pop('wantvar', None)
                        if k not in (None, 20) and ('atol' in o or 'window' in o):
                            continue
                        s = P.solve(name, k, **o)
                        ctx.step(s.itn)
                        vec = [s.x] + ([s.r] if name == 'craig' else [])
                        info = dict(solver=name, A=A, b=b, damp=damp, weights=w, itnlim=k, options=o, itn=s.itn, istop=s.istop, optimal=s.optimal, x=vec)
                        ctx.state(name, repr(A.tolist()), repr(b.tolist()), damp, w, k, repr(sorted(o)))
                        ctx.trace('%s istop %s' % (name, s.istop))
                        sizes = [(n,), (m,)] if name == 'craig' else [(m,)] if name == 'craigmr' else [(n,)]
                        ctx.check([v.shape for v in vec] == sizes, 'solution of the wrong size', want=sizes, **info)
                        ctx.check(all(np.isfinite(v).all() for v in vec), 'solution not finite', **info)
                        ctx.check(s.optimal in (True, False), 'no outcome reported', **info)
                        for q in ('r1norm', 'r2norm', 'Arnorm', 'xnorm', 'Anorm', 'Acond'):
                            ctx.check(np.isfinite(getattr(s, q)), 'a reported norm is not finite', which=q, got=getattr(s, q), **info)
                        if not b.any():
                            ctx.check(not any(v.any() for v in vec) and s.optimal and s.istop == 0, 'a zero right-hand side does not give the zero solution and a success', **info)
                        elif not np.dot(P.A.T, P.b if P.W1 is None else np.dot(P.W1, P.b)).any() and name in ('lsqr', 'lsmr'):
                            ctx.check(not s.x.any() and s.optimal, 'a right-hand side orthogonal to the range does not give the zero solution and a success', **info)
                        if s.optimal and name in ('lsqr', 'lsmr') and b.any() and np.linalg.norm(P.g) > 0:
                            AF = P.normF + damp
                            ctx.check(P.normal(s.x) <= 1e-5 * AF * np.linalg.norm(P.bt), 'success reported for a large residual', normal=P.normal(s.x), scale=AF * np.linalg.norm(P.bt), **info)
                        if s.optimal and name in ('craig', 'craigmr') and b.any() and P.norm < 1e4:
                            r = s.r if name == 'craig' else s.x
                            ctx.check(P.sqdres(r) <= 1e-5 * (1 + P.norm ** 2) * np.linalg.norm(P.bt), 'success reported for a large residual', residual=P.sqdres(r), **info)


def wrong(ctx):
    """Right-hand sides that do not fit must not be answered by numbers."""
    for name in sq.ALL + sq.LS:
        for shape in ((2, 2), (3, 2), (2, 3)):
            if name in sq.ALL and shape[0] != shape[1]:
                continue
            A = np.eye(3)[:shape[0], :shape[1]]
            for k in (1, 4):
                if k == shape[0] or (name in sq.LS and k > shape[0]):
                    continue
                try:
                    s = sq.make(name, sq.Op(A, flags=name not in sq.LS).op)
                    sq.solve(name, s, np.ones(k), 5)
                except Exception as e:
                    ctx.trace('refused ' + type(e).__name__)
                    continue
                ctx.fail('a right-hand side of the wrong size is accepted', solver=name, shape=shape, size=k)


def empty(ctx, name):
    """Systems without unknowns or without equations have the empty (or zero) solution."""
    square = name in sq.ALL
    opts = dict(cg=('store_iterates', 'store_resids', 'check_symmetric'), minres=('show', 'check', 'store_iterates', 'store_resids'), symmlq=('check', 'store_iterates'),
                lsqr=('show', 'store_iterates', 'store_resids', 'wantvar'), lsmr=('show', 'store_iterates', 'store_resids'),
                craig=('show', 'store_iterates', 'store_resids'), craigmr=('show', 'store_iterates', 'store_resids')).get(name, ())
    for m, n in ((0, 0),) if square else ((0, 0), (0, 1), (0, 3), (1, 0), (3, 0)):
        for pick in itertools.product((False, True), repeat=len(opts)):
            kw = {o: True for o, p in zip(opts, pick) if p}
            for extra in range(4):
                more, M, guess = {}, None, None
                if square:
                    if extra % 2:
                        M = np.eye(0)
                    if extra > 1:
                        if symlike(name):
                            more = dict(shift=1.)
                        else:
                            guess = np.zeros(0)
                else:
                    if extra % 2:
                        more = dict(M=lo.IdentityOperator(m), N=lo.DiagonalOperator(np.ones(n)))
                    if extra > 1 and name in ('lsqr', 'lsmr'):
                        more['damp'] = .5
                for bud in (None, 0, 3):
                    out = io.StringIO()
                    with contextlib.redirect_stdout(out):
                        a = sq.Op(np.zeros((m, n)))
                        s = sq.make(name, a.op, None if M is None else sq.Op(M).op)
                        sq.solve(name, s, np.ones(m), bud, guess, **dict(kw, **more))
                    ctx.step(a.count + a.tcount)
                    ctx.state(name, m, n, pick, extra, bud)
                    info = dict(solver=name, shape=(m, n), options=sorted(kw), extra=extra, budget=bud, x=s.x, converged=s.converged, istop=getattr(s, 'istop', None))
                    # the system of CRAIG and CRAIG-MR is then I y = b: they may take a step, or run out of steps
                    ident = name in ('craig', 'craigmr') and n == 0 and m > 0
                    ctx.check(s.x.shape == ((m if name == 'craigmr' else n),) and np.all(np.isfinite(s.x)) and (ident or not np.any(s.x)), 'the solution of a problem without unknowns or equations is not the empty or zero one', **info)
                    if square:
                        ctx.check(s.converged and s.residNorm == 0, 'no success on a system without unknowns', **info)
                    else:
                        ctx.check(s.istop == 0 or ident, 'no success on a problem without unknowns or equations', **info)
    ctx.trace('empty ' + name)
