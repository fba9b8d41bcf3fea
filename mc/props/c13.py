"""C13: reported convergence against the true residual, for every budget and tolerance."""
import itertools
import numpy as np
from mc import sq, ls
from mc.sq import EPS

TOLS = [{}, dict(reltol=1e-1), dict(abstol=1., reltol=0.), dict(abstol=0., reltol=0.)]
MTOLS = [{}, dict(rtol=1e-3), dict(etol=0.), dict(rtol=1e-6, etol=1e-4)]
LTOLS = [{}, dict(rtol=1e-3), dict(rtol=0.)]

BOUNDS = dict(small='every 1x1 and 2x2 integer matrix over -2..2, 3x3 over {-1,0,1} (quick: every 8th unsymmetric, every symmetric), 2-4 right-hand sides, budgets 0..2n+1 and default',
              tolerances='default, relative 1e-1, absolute 1, zero (MINRES/SYMMLQ: relative 1e-3, no/large direct-error tolerance, zero)',
              big='17 structured families of sizes 5, 10, 20, 40, 5 right-hand sides, every budget of a ladder', precon='CG: two preconditioners', windows='MINRES direct-error windows 1..12 x 4 tolerances')
ASSUMPTIONS = ['real symmetric operators for MINRES and SYMMLQ', 'larger singular inconsistent systems are left out for MINRES and SYMMLQ (roundoff decides)',
               'rounding allowance: 2000 n eps (|A| max|x_k| + |b|) over the iterates of all budgets']

KINDS = ('lap', 'diag', 'few', 'spd', 'cond3', 'cond6', 'indef', 'indefdiag', 'pm', 'sing', 'neg', 'ident', 'conv', 'uns', 'skew', 'cyc', 'shift')
SYM = ('lap', 'diag', 'few', 'spd', 'cond3', 'cond6', 'indef', 'indefdiag', 'pm', 'neg', 'ident')


def cases(tier):
    full = tier != 'quick'
    for name in sq.ALL:
        for a in range(-3, 4):
            yield [name, [[a]]]
    for A in sq.mats(2, 2, range(-2, 3)):
        sym = A[0, 1] == A[1, 0]
        for name in sq.ALL:
            if sym or name in sq.SQ4:
                yield [name, A.tolist()]
    for A in sq.symmats(3, (-1, 0, 1)):
        for name in sq.ALL:
            yield [name, A.tolist()]
    for i, A in enumerate(sq.mats(3, 3, (-1, 0, 1))):
        if full or i % 8 == 2:
            yield [sq.UNSYM[i // 8 % 3] if not full else 'all', A.tolist()]
    for w in ls.WINDOWS:
        for kind in ('lap', 'diag', 'spd', 'indefdiag'):
            yield ['minres', ['window', kind, w]]
    for n in (5, 10, 20, 40) + ((80,) if full else ()):
        for kind in KINDS:
            for name in sq.ALL:
                if kind in SYM or name in sq.UNSYM:
                    yield [name, [kind, n]]
    if full:
        for A in sq.symmats(3, range(-2, 3)):
            yield ['all', A.tolist()]


def judge(ctx, name, A, b, tol, budgets, M=None):
    n = len(b)
    nA = np.linalg.norm(A, 2)
    xs = []
    r0 = np.linalg.norm(b)
    for bud in budgets:
        kw = dict(tol) if name in ('minres', 'symmlq') else {}
        ctor = {} if name in ('minres', 'symmlq') else dict(tol)
        s, a, m = sq.run(name, A, b, bud, M=M, ctor=ctor, **kw)
        ctx.step(a.count)
        x = np.asarray(s.bestSolution)
        xs.append(x)
        r = b - np.dot(A, x)
        rn = np.linalg.norm(r)
        att = sq.attainable(A, xs, b)
        if name in sq.SQ4:
            if M is not None:
                rn = np.sqrt(max(np.dot(r, np.dot(M, r)), 0))
                att *= np.sqrt(np.linalg.norm(M, 2))
                thr = sq.threshold(np.sqrt(np.dot(b, np.dot(M, b))), ctor)
            else:
                thr = sq.threshold(r0, ctor)
        else:
            k = 3 * np.sqrt(a.count + 2.) * nA
            nx = np.linalg.norm(x)
            thr = max(kw.get('rtol', 1e-12 if name == 'minres' else 1e-9), 2 * EPS) * k * nx
            if name == 'minres':
                # a least-squares stop has a negligible normal residual
                if s.istop == 2:
                    rn, thr = np.linalg.norm(np.dot(A, r)), max(kw.get('rtol', 1e-12), 10 * EPS) * k * rn * 2 + nA * att
                elif s.istop == 10:
                    thr = max(thr, 20 * kw.get('etol', 1e-6) * r0)
        ok = rn <= thr * (1 + 1e-6) + att
        info = dict(solver=name, A=A if n < 5 else 'n=%d' % n, b=b if n < 5 else None, tol=tol, budget=bud, residual=rn, threshold=thr, rounding=att, istop=getattr(s, 'istop', None), x=x[:5], reported=s.residNorm)
        ctx.state(name, a.count, bool(s.converged), getattr(s, 'istop', None), tuple(np.round(np.nan_to_num(x[:3]), 6)))
        if s.converged:
            ctx.check(np.isfinite(x).all(), 'convergence reported with a solution that is not finite', **info)
            ctx.check(ok, 'convergence reported but the residual of the solution is too large', **info)
        ctx.trace('%s %s' % (name, 'converged' if s.converged else 'not'))
    ctx.sample(dict(solver=name, A=A.tolist() if n < 4 else 'structured', budgets=len(budgets)))


def window(ctx, kind, w):
    """MINRES's direct-error stop for every window length: the squared step is the fall of the squared residual."""
    for n in (16, 24):
        A = sq.big(kind, n)
        for b in (sq.rhs('ones', n), sq.rhs('mix', n)):
            for etol in (.5, .1, 1e-2, 1e-3):
                s = sq.make('minres', sq.Op(A).op)
                s.lim = 3 * n
                sq.solve('minres', s, b, s.lim, window=w, etol=etol, rtol=0., store_iterates=True)
                ctx.step(s.itn)
                r = [np.linalg.norm(b - np.dot(A, x)) ** 2 for x in s.iterates]
                E = [r[k] - r[k + 1] for k in range(len(r) - 1)]
                if r[-1] < 1e-16 * r[0] * np.linalg.cond(A) ** 2:
                    continue            # nothing left but rounding
                ctx.state('window', kind, n, w, etol, float(b[0]))
                ls.windowed(ctx, 'minres', s, E, w, etol, 10, False, kind=kind, n=n, window=w, etol=etol, itn=s.itn, istop=s.istop)
                ctx.check(s.converged == (s.istop in (-1, 1, 2, 10)), 'flag and code disagree', istop=s.istop)
                ctx.trace('window istop %d' % s.istop)


def run(ctx, case):
    name, spec = case
    if name == 'all':
        for nm in sq.ALL:
            if nm in sq.SQ4 or np.array_equal(np.array(spec), np.array(spec).T):
                run(ctx, [nm, spec])
        return
    if spec[0] == 'window':
        window(ctx, *spec[1:])
        return
    tols = dict(minres=MTOLS, symmlq=LTOLS).get(name, TOLS)
    if isinstance(spec[0], str):
        A = sq.big(*spec)
        n = spec[1]
        lad = sorted(set(list(range(0, 14)) + list(range(n - 2, n + 3)) + [2 * n - 1, 2 * n]))
        for i, rk in enumerate(('mix', 'ones', 'e1', 'tiny', 'huge')):
            b = sq.rhs(rk, n)
            for tol in tols if i == 0 else tols[:1]:
                judge(ctx, name, A, b, tol, lad + [None, 5 * n])
            if name == 'cg' and i < 2:
                for M in (np.diag(1. / (1 + np.arange(n) % 4)), np.linalg.inv(sq.big('lap', n) + np.eye(n))):
                    judge(ctx, name, A, b, tols[0], lad[2::3] + [None], M=M)
        return
    A = np.array(spec)
    n = len(A)
    if n == 3:
        bs = [[1, 0, 0], [1, -2, 1]]
        tols = tols[:1] + tols[-1:]
    elif n == 2:
        bs = [[1, 0], [1, 2], [-2, 1]]
    else:
        bs = [[1], [-3]]
    for b in bs:
        for tol in tols:
            judge(ctx, name, A, np.array(b), tol, list(range(0, 2 * n + 2)) + [None])
    if name == 'cg':
        for M in (np.diag(1. + np.arange(n)), np.eye(n) * 2 + 1.):
            judge(ctx, name, A, np.array(bs[-1]), tols[0], list(range(1, 2 * n + 2)), M=M)
