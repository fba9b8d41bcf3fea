"""C32: solves commute with scaling, sign changes, conjugation and diagonal sign similarities."""
import numpy as np
from mc import sq, ls
from mc.props.c21 import matrix, KINDS

BOUNDS = dict(square='every 1x1, 2x2 over -2..2 symmetric and {-1,0,1,2} unsymmetric, a quarter of the symmetric 3x3 over {-1,0,1} and a stride of the unsymmetric (thorough: all the symmetric, denser); 11 structured families up to n=30; two complex families',
              ls='every 1x1, 1x2, 2x1 and half of the 2x2 over {-1,0,1} (thorough: all), strides of 3x2, 2x3, 3x3, 11 structured families up to 25x15; damping 0, 1/2; two weightings',
              transforms='right-hand side (and guess), operator (with shift, damping), preconditioner and weights times 4^k, k in {-45,30} (right-hand side and operator), {-12,3} (preconditioner, weights) (thorough: {-45,-7,7,45}, {-12,-2,2,12}); right-hand side negated or times i; operator negated, transposed sign similarity; complex conjugation',
              stops='limits 1, 2, 3, 5, default, 40', options='reltol default and loose, with and without preconditioner, shift, guess')
ASSUMPTIONS = ['powers of four, so that the transformed solve has the same rounding errors', 'no absolute tolerance']

BK = (-45, -7, 7, 45)
MK = (-12, -2, 2, 12)
FULL = False


def cases(tier):
    full = tier != 'quick'
    for a in (-3, -1, 1, 2):
        yield ['sym', [[a]]]
    for A in sq.symmats(2, range(-2, 3)):
        yield ['sym', A.tolist()]
    for i, A in enumerate(sq.symmats(3, (-1, 0, 1))):
        if full or i % 4 == 1:
            yield ['sym', A.tolist()]
    for i, A in enumerate(sq.mats(2, 2, (-1, 0, 1, 2))):
        if full or i % 3 == 1:
            yield ['uns', A.tolist()]
    for i, A in enumerate(sq.mats(3, 3, (-1, 0, 1))):
        if i % (11 if full else 211) == 5:
            yield ['uns', A.tolist()]
    for kind in ('lap', 'diag', 'few', 'spd', 'cond3', 'indef', 'indefdiag', 'pm', 'neg'):
        for n in (4, 9, 30):
            yield ['symbig', kind, n]
    for kind in ('conv', 'uns', 'skew', 'cyc', 'clap', 'cuns'):
        for n in (4, 9, 30):
            yield ['unsbig', kind, n]
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2)):
        for i, A in enumerate(sq.mats(m, n, (-1, 0, 1))):
            if full or m * n < 4 or i % 2:
                yield ['ls', A.tolist()]
    for m, n in ((3, 2), (2, 3), (3, 3)):
        for i, A in enumerate(sq.mats(m, n, (-1, 0, 1))):
            if i % ((13 if m * n < 9 else 401) if not full else (2 if m * n < 9 else 23)) == 5:
                yield ['ls', A.tolist()]
    for kind in KINDS:
        for m, n in ((4, 3), (10, 6), (6, 10), (15, 15), (25, 15)):
            yield ['lsbig', kind, m, n]


# ---------------------------------------------------------------- square systems

class Sys(object):
    def __init__(self, A, b, M=None, guess=None, shift=None, eta=(0, 0, 0)):
        self.A, self.b, self.M, self.guess, self.shift, self.eta = A, b, M, guess, shift, eta

    def but(self, **kw):
        d = dict(A=self.A, b=self.b, M=self.M, guess=self.guess, shift=self.shift)
        d.update(kw)
        return Sys(**d)


def opt(f, v):
    return None if v is None else f(v)


def transforms(name, S, cplx):
    """(label, transformed system, map of solutions, powers of two (residual))."""
    n = len(S.b)
    for k in (BK if FULL else (-45, 30)):
        s = 4. ** k
        yield 'b*4^%d' % k, S.but(b=S.b * s, guess=opt(lambda g: g * s, S.guess)), (lambda x, s=s: x * s), s
        yield 'A*4^%d' % k, S.but(A=S.A * s, shift=opt(lambda z: z * s, S.shift), guess=opt(lambda g: g / s, S.guess)), (lambda x, s=s: x / s), 1.
    if S.M is not None:
        for k in (MK if FULL else (-12, 3)):
            s = 4. ** k
            yield 'M*4^%d' % k, S.but(M=S.M * s), (lambda x: x), 2. ** k if name in ('cg', 'minres') else 1.
    yield '-b', S.but(b=-S.b, guess=opt(lambda g: -g, S.guess)), (lambda x: -x), 1.
    if name != 'cg':
        # symmetric preconditioners stay positive definite
        yield '-A', S.but(A=-S.A, shift=opt(lambda z: -z, S.shift), guess=opt(lambda g: -g, S.guess)), (lambda x: -x), 1.
    for d in ((-1.) ** np.arange(n), 1. - 2. * (np.arange(n) == 0)):
        yield 'DAD', S.but(A=S.A * np.outer(d, d), b=S.b * d, M=opt(lambda M: M * np.outer(d, d), S.M), guess=opt(lambda g: g * d, S.guess)), (lambda x, d=d: x * d), 1.
    if cplx:
        yield 'conj', S.but(A=S.A.conj(), b=S.b.conj(), M=opt(np.conj, S.M), guess=opt(np.conj, S.guess)), np.conj, 1.
        if n > 4:
            return          # multiplication by i rounds differently
        yield 'i b', S.but(b=S.b * 1j, guess=opt(lambda g: g * 1j, S.guess)), (lambda x: x * 1j), 1.
        if name != 'cg':
            yield 'i A', S.but(A=S.A * 1j, guess=opt(lambda g: g * -1j, S.guess)), (lambda x: x * -1j), 1.


def dosolve(name, S, budget, kw):
    o = dict(kw)
    if S.shift is not None:
        o['shift'] = S.shift
    if name in ('minres', 'symmlq'):
        o.pop('store', None)
    ctor = dict(abstol=0.) if name in sq.SQ4 else {}
    if 'reltol' in o:
        r = o.pop('reltol')
        if name in sq.SQ4:
            ctor['reltol'] = r
        elif name == 'minres':
            o['rtol'] = r
    s, a, m = sq.run(name, S.A, S.b.copy(), budget, opt(np.copy, S.guess), S.M, ctor, **o)
    return s, a


FLAGS = ('converged', 'nMatvec', 'istop', 'itn', 'definite', 'optimal')


def flags(s):
    return dict((k, getattr(s, k)) for k in FLAGS if hasattr(s, k))


def near(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    ok = np.isfinite(a) & np.isfinite(b)
    if not ok.all():
        return bool((np.isfinite(a) == np.isfinite(b)).all())
    m = max(np.abs(a).max(), np.abs(b).max()) if a.size else 0
    return not a.size or bool(np.abs(a - b).max() <= tol * m)


def compare(ctx, name, S, budget, kw, cplx=False):
    s0, a0 = dosolve(name, S, budget, kw)
    f0 = flags(s0)
    ctx.state(name, repr(S.A.tolist())[:300], repr(S.b.tolist())[:200], S.M is None, S.guess is None, S.shift, budget, repr(sorted(kw.items())))
    for label, T, f, rs in transforms(name, S, cplx):
        s1, a1 = dosolve(name, T, budget, kw)
        f1 = flags(s1)
        ctx.step(a1.count)
        ctx.trace('%s %s' % (name, label.split('*')[0]))
        size = np.linalg.norm(T.b) + np.linalg.norm(T.A) * np.linalg.norm(s1.x)     # of the terms of the residual
        if label[0] == 'M' and name in ('cg', 'minres'):
            size *= rs
        info = dict(solver=name, transform=label, A=S.A[:5, :5], n=len(S.b), b=S.b[:5], M=S.M is not None, guess=S.guess is not None, shift=S.shift, budget=budget, options=kw, plain=f0, transformed=f1)
        ctx.check(f0 == f1 and a0.count == a1.count, 'the outcome of the solve depends on the scale', **info)
        ctx.check(near(s1.x, f(s0.x), 1e-9), 'the solution does not follow the transformation', got=s1.x[:5], want=f(s0.x)[:5], **info)
        ctx.check(near(s1.residNorm, s0.residNorm * rs, 1e-9) or abs(s1.residNorm - s0.residNorm * rs) <= 1e-11 * size, 'the residual norm does not follow the transformation', got=s1.residNorm, want=s0.residNorm * rs, **info)
        w = s0.residNorm0 * (rs if name != 'symmlq' or label[0] != 'M' else 2. ** int(label[4:]))
        ctx.check(near(s1.residNorm0, w, 1e-9), 'the initial residual norm does not follow the transformation', got=s1.residNorm0, want=w, **info)
        d0, d1 = getattr(s0, 'infiniteDescent', None), getattr(s1, 'infiniteDescent', None)
        ctx.check((d0 is None) == (d1 is None), 'the direction of curvature depends on the scale', **info)


def square(ctx, A, b, names, budgets, big=False):
    n = len(b)
    A = np.asarray(A) * (1. if np.asarray(A).dtype.kind != 'c' else 1)
    b = np.asarray(b) * 1.
    cplx = A.dtype.kind == 'c' or b.dtype.kind == 'c'
    M1 = np.diag(1. / (1 + np.arange(n) % 4))
    for name in names:
        for budget in budgets:
            if name in ('minres', 'symmlq'):
                for shift, M in ((None, None), (.5, None), (None, M1)):
                    compare(ctx, name, Sys(A, b, M, None, shift), budget, {})
                if name == 'minres':
                    compare(ctx, name, Sys(A, b), budget, dict(rtol=1e-3, etol=0.))
                else:
                    compare(ctx, name, Sys(A, b), budget, dict(rtol=1e-3))
            else:
                g = np.cos(1. + np.arange(n)) * (1 + (1j if cplx else 0))
                for M, guess, kw in ((None, None, {}), (M1, None, {}), (None, g, {}), (M1, g, dict(reltol=1e-2))):
                    compare(ctx, name, Sys(A, b, M, guess), budget, kw, cplx)


# ---------------------------------------------------------------- least squares

LSA = dict(lsqr=('r1norm', 'r2norm', 'Arnorm', 'xnorm', 'Anorm', 'Acond'), lsmr=('r2norm', 'Arnorm', 'xnorm', 'Anorm', 'Acond'),
           craig=('Arnorm', 'Anorm', 'Acond'), craigmr=())
# powers of the scale of the right-hand side and of the operator
RATE = dict(r1norm=(1, 0), r2norm=(1, 0), Arnorm=(1, 1), xnorm=(1, -1), Anorm=(0, 1), Acond=(0, 0))


def lstransforms(name, P):
    for k in (BK if FULL else (-45, 30)):
        s = 4. ** k
        yield 'b*4^%d' % k, ls.Problem(P.A, P.b * s, P.damp, P.W1, P.W2), (lambda x, s=s: x * s), (s, 1.)
        if name in ('lsqr', 'lsmr'):
            yield 'A*4^%d' % k, ls.Problem(P.A * s, P.b, P.damp * s, P.W1, P.W2), (lambda x, s=s: x / s), (1., s)
    yield '-b', ls.Problem(P.A, -P.b, P.damp, P.W1, P.W2), (lambda x: -x), (1., 1.)
    yield '-A', ls.Problem(-P.A, P.b, P.damp, P.W1, P.W2), (lambda x: x if name == 'craigmr' else -x), (1., 1.)
    d, e = (-1.) ** np.arange(P.m), 1. - 2. * (np.arange(P.n) % 3 == 0)
    yield 'DAE', ls.Problem(P.A * np.outer(d, e), P.b * d, P.damp, opt(lambda W: W * np.outer(d, d), P.W1), opt(lambda W: W * np.outer(e, e), P.W2)), (lambda x: x * (d if name == 'craigmr' else e)), (1., 1.)
    if P.W1 is not None and P.W2 is not None:
        for k in (MK if FULL else (-12, 3)):
            s = 4. ** k
            # weights against each other: the scaled operator keeps its size
            yield 'M*4^%d N/4^%d' % (k, k), ls.Problem(P.A, P.b, P.damp, P.W1 * s, P.W2 / s), (lambda x, s=s: x * (s if name == 'craigmr' else 1.)), (2. ** k, 1.)
    if name in ('lsqr', 'lsmr'):
        for k in (MK if FULL else (-12, 3)):
            s = 4. ** k
            if P.W1 is not None:
                yield 'M*4^%d' % k, ls.Problem(P.A, P.b, P.damp * 2. ** k, P.W1 * s, P.W2), (lambda x: x), (2. ** k, 2. ** k)
            if P.W2 is not None:
                yield 'N*4^%d' % k, ls.Problem(P.A, P.b, P.damp * 2. ** k, P.W1, P.W2 * s), (lambda x: x), (1., 2. ** k)


def least(ctx, P, limits, o):
    for name in sq.LS:
        if P.damp and name not in ('lsqr', 'lsmr'):
            continue
        for k in limits:
            s0 = P.solve(name, k, **o)
            f0 = flags(s0)
            c0 = (P.last.count, P.last.tcount)
            ctx.state(name, repr(P.A.tolist())[:300], repr(P.b.tolist())[:200], P.damp, P.W1 is None, k, repr(o))
            for label, T, f, (sb, sa) in lstransforms(name, P):
                s1 = T.solve(name, k, **o)
                f1 = flags(s1)
                ctx.step(s1.itn)
                ctx.trace('%s %s' % (name, label.split('*')[0]))
                info = dict(solver=name, transform=label, A=P.A[:5, :5], shape=P.A.shape, b=P.b[:5], damp=P.damp, W=P.W1 is not None, itnlim=k, options=o, plain=f0, transformed=f1)
                ctx.check(f0 == f1 and c0 == (T.last.count, T.last.tcount), 'the outcome of the solve depends on the scale', **info)
                ctx.check(near(s1.x, f(s0.x), 1e-9), 'the solution does not follow the transformation', got=s1.x[:5], want=f(s0.x)[:5], **info)
                for q in LSA[name]:
                    pb, pa = RATE[q]
                    if label[0] in 'MN' and q == 'xnorm':
                        continue        # Euclidean (LSMR) or weighted (LSQR)
                    w = getattr(s0, q) * sb ** pb * sa ** pa
                    ctx.check(near(getattr(s1, q), w, 1e-9), q + ' does not follow the transformation', got=getattr(s1, q), want=w, **info)


def run(ctx, case):
    global FULL
    FULL = ctx.tier != 'quick'
    k = case[0]
    if k in ('sym', 'uns'):
        A = np.array(case[1])
        n = len(A)
        names = sq.ALL if k == 'sym' else sq.UNSYM
        for b in ([[1.], [-2.]] if n == 1 else [[1., 0], [1, -2]] if n == 2 else [[1., 2, -1]]):
            square(ctx, A, b, names, (2, 3, None))
    elif k in ('symbig', 'unsbig'):
        _, kind, n = case
        A = sq.big(kind, n)
        b = sq.rhs('cmix' if A.dtype.kind == 'c' else 'mix', n)
        names = sq.ALL if k == 'symbig' else sq.SQ4 if kind == 'clap' else sq.UNSYM
        square(ctx, A, b, names, (1, 2, 5, None, 40), True)
    elif k == 'ls':
        A = np.array(case[1])
        m, n = A.shape
        b = np.array([2., -1, 1])[:m]
        for damp, w in ((0., 0), (.5, 0), (0., 1), (.5, 2)):
            P = ls.Problem(A, b, damp, ls.spdweight(m, w), ls.spdweight(n, w))
            least(ctx, P, (1, 2, None, 40), {})
    else:
        _, kind, m, n = case
        A = matrix(kind, m, n)
        nA = np.linalg.norm(A, 2)
        for b in (sq.rhs('mix', m), np.dot(A, sq.rhs('alt', n))):
            for damp, w in ((0., 0), (.25, 0), (0., 1), (.25, 2)):
                P = ls.Problem(A, b, damp * nA, ls.spdweight(m, w), ls.spdweight(n, w))
                least(ctx, P, (1, 3, None, 60), {} if w else dict(etol=1e-3))
