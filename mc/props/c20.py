"""C20: watching a solve does not change it; the stored histories are those of the iterates."""
import itertools
import logging
import numpy as np
from mc import sq, ls

BOUNDS = dict(options='every subset of {store iterates, store residuals, display, argument checks, variance, logger at DEBUG and at WARNING}',
              problems='every nonzero symmetric 2x2 over -1..2 (quick) / -2..3 and 3x3 over {-1,0,2} sampled by index only in the quick tier; every 2x2, 3x2, 2x3 over {-1,0,1,2} sub-family for least squares; sizes 8 and 15; guesses, preconditioners, shifts, damping, weights',
              budgets='default, 0, 1, 2, 3 and 20 products/iterations; long runs of 60..240 products at size 120 (each option alone, all together)', windows='direct-error windows 1..12 of the five solvers that record them',
              oracle='unwatched real solve (exact equality); dense residuals and energy norms of every stored iterate; independence of the snapshots')
ASSUMPTIONS = ['operators are symmetric when symmetry is checked', 'MINRES stores residual norms only']

OPTS = dict(cg=('store_iterates', 'store_resids', 'check_symmetric', 'log'), cgs=('log', 'warn'), bicgstab=('log', 'warn'), tfqmr=('log', 'warn'),
            minres=('store_iterates', 'store_resids', 'show', 'check', 'log'), symmlq=('store_iterates', 'check', 'log'),
            lsqr=('store_iterates', 'store_resids', 'show', 'wantvar', 'log'), lsmr=('store_iterates', 'store_resids', 'show', 'log'),
            craig=('store_iterates', 'store_resids', 'show', 'log'), craigmr=('store_iterates', 'store_resids', 'show', 'log'))
FAR = 100   # long histories: more entries than any small cap
LONG = (('lap', 120), ('cond3', 120))
HIST = ('iterates', 'resids', 'residHistory', 'normal_eqns_resids', 'norms', 'iterates_p', 'iterates_d', 'var')


def cases(tier):
    full = tier != 'quick'
    for A in sq.symmats(2, range(-1, 3) if not full else range(-2, 4)):
        if A.any():
            yield ['sq', A.tolist()]
    for i, A in enumerate(sq.symmats(3, (-1, 0, 2))):
        if A.any() and (full or i % 9 == 2):
            yield ['sq', A.tolist()]
    for kind in ('lap', 'spd', 'indef', 'diag', 'few', 'clap', 'cond3'):
        for n in (8, 15):
            yield ['big', kind, n]
    for m, n in ((2, 2), (3, 2), (2, 3), (1, 2), (2, 1), (1, 1)):
        for i, A in enumerate(sq.mats(m, n, (-1, 0, 1, 2))):
            if full and (m * n <= 4 or i % 7 == 3) or i % {1: 1, 2: 2, 4: 11}.get(m * n, 167) == (3 if m * n > 2 else 0):
                yield ['ls', A.tolist()]
    for m, n in ((8, 5), (5, 8), (12, 12)):
        yield ['lsbig', m, n]
    for kind, n in LONG if full else LONG[:1]:
        for name in sq.ALL:
            yield ['long', kind, n, name]
    for m, n in ((120, 120), (125, 115), (115, 125)) if full else ((120, 120),):
        for name in sq.LS:
            yield ['lslong', m, n, name]
    for m, n in ((20, 20), (24, 18), (18, 24)):
        for w in ls.WINDOWS:
            yield ['window', m, n, w]


def some(k, n):
    return n < FAR or k in (1, 50, 100, 101, 127)


def logger(level):
    log = logging.getLogger('mc.c20.%s' % level)
    log.propagate = False
    if not log.handlers:
        log.addHandler(logging.NullHandler())
    log.setLevel(level)
    return log


def run(ctx, case):
    if case[0] in ('sq', 'big'):
        A = np.array(case[1]) if case[0] == 'sq' else sq.big(case[1], case[2])
        n = len(A)
        cpx = A.dtype.kind == 'c'
        b = np.array([1, 2, -1][:n]) if n < 4 else sq.rhs('mix', n)
        D = np.diag(1. + np.arange(n) % 3)
        for name in sq.ALL:
            if cpx and name not in sq.SQ4:
                continue
            confs = [dict(), dict(M=D)]
            if name in sq.SQ4:
                confs += [dict(guess=np.arange(n) - 1.), dict(M=D, guess=np.ones(n))]
            else:
                confs += [dict(shift=.5), dict(M=D, shift=-.5)]
            for conf in confs:
                for bud in (None, 1, 3) if n < 4 else (None, 2, 5, 20):
                    if name == 'symmlq' and bud is not None and bud < 2:
                        continue
                    square(ctx, name, A, b, conf, bud)
    elif case[0] == 'ls':
        A = np.array(case[1])
        for b in ([1, 2, -1], [0, 1, 0]):
            for damp, w in ((0., 0), (.5, 0), (0., 1), (1., 2)):
                least(ctx, ls.Problem(A, np.array(b[:len(A)]), damp, ls.spdweight(A.shape[0], w), ls.spdweight(A.shape[1], w)), (None, 2, 10))
    elif case[0] == 'long':
        kind, n, name = case[1:]
        A = sq.big(kind, n)
        for conf in (dict(), dict(M=np.diag(1. + np.arange(n) % 3))):
            for bud in (None, 105):
                square(ctx, name, A, sq.rhs('mix', n), conf, bud)
    elif case[0] == 'lslong':
        m, n, name = case[1:]
        A = np.diag(1. + np.arange(max(m, n)) ** 1.5 / 40)[:m, :n]
        for damp, w in ((.3, 0), (.5, 1)):
            least(ctx, ls.Problem(A, sq.rhs('mix', m), damp, ls.spdweight(m, w), ls.spdweight(n, w)), (60, 101, 128) if m != n else (105,), [name])
    elif case[0] == 'window':
        window(ctx, *case[1:])
    else:
        m, n = case[1:]
        i, j = np.meshgrid(np.arange(m), np.arange(n), indexing='ij')
        A = .4 * np.cos(i * 1.3 + j * j) + 3. * (i == j) + 1. * (j == i + 1)
        for damp, w in ((0., 0), (.3, 0), (0., 1), (.5, 2)):
            least(ctx, ls.Problem(A, sq.rhs('mix', m), damp, ls.spdweight(m, w), ls.spdweight(n, w)), (None, 1, 7, 20))


def window(ctx, m, n, w):
    """Stored direct errors for every window length."""
    for A, b in ls.window_problems(m, n):
        for damp, wt in ((0., 0), (.5, 1)):
            P = ls.Problem(A, b, damp, ls.spdweight(m, wt), ls.spdweight(n, wt))
            for name in ('lsqr', 'lsmr', 'craig', 'craigmr'):
                for lim in (w, w + 1, w + 2, 14, 16):
                    s = P.solve(name, lim, store_iterates=True, window=w, etol=0.)
                    ctx.step(s.itn)
                    E = ls.steps(P, name, s.iterates_d if name == 'craig' else s.iterates)
                    ls.windowed(ctx, name, s, E, w, 0., 8, True, base=P.energy(name, s.iterates_d[0]) if name == 'craig' else 0., solver=name, shape=(m, n), damp=damp, weighted=wt, window=w, itn=s.itn, istop=s.istop)
                    ctx.state(name, 'window', m, n, w, damp, lim, float(b[0]), float(A[0, 0]))
                    ctx.trace('%s windows' % name)
    if m == n:
        for kind in ('lap', 'spd', 'indefdiag'):
            A = sq.big(kind, n)
            b = sq.rhs('mix', n)
            for lim in (w, w + 1, w + 2, 14, 16):
                s = sq.make('minres', sq.Op(A).op)
                sq.solve('minres', s, b, lim, window=w, etol=0., rtol=0., store_iterates=True)
                r = [np.linalg.norm(b - np.dot(A, x)) ** 2 for x in s.iterates]
                ls.windowed(ctx, 'minres', s, [r[k] - r[k + 1] for k in range(len(r) - 1)], w, 0., 10, True, kind=kind, window=w, itn=s.itn, istop=s.istop)
                ctx.state('minres', 'window', kind, w, lim)
                ctx.trace('minres windows')


def opts(name, long=False):
    if long:
        return [[]] + [[o] for o in OPTS[name]] + [[o for o in OPTS[name] if o.startswith('store')], list(OPTS[name])]
    return subsets(name)


def subsets(name):
    for mask in itertools.product((0, 1), repeat=len(OPTS[name])):
        yield [o for o, v in zip(OPTS[name], mask) if v]


def kws(on):
    kw = dict((o, True) for o in on if o not in ('log', 'warn'))
    ctor = {}
    if 'log' in on:
        ctor['logger'] = logger('DEBUG')
    elif 'warn' in on:
        ctor['logger'] = logger('WARNING')
    return kw, ctor


def strip(s):
    return dict((k, v) for k, v in sq.snapshot(s).items() if k not in HIST)


def independent(ctx, s, info):
    arrs = []
    for k in HIST:
        v = getattr(s, k, None)
        if isinstance(v, list):
            arrs += [('%s[%d]' % (k, i), w) for i, w in enumerate(v) if isinstance(w, np.ndarray)]
    arrs += [('x', s.x)]
    ext = sorted(np.byte_bounds(w) + (k,) for k, w in arrs if w.size)
    for u, v in zip(ext, ext[1:]):
        ctx.check(v[0] >= u[1], '%s and %s are the same memory' % (u[2], v[2]), **info)


def square(ctx, name, A, b, conf, bud):
    base = None
    for on in opts(name, len(b) >= FAR):
        kw, ctor = kws(on)
        c = dict(conf)
        g, M = c.pop('guess', None), c.pop('M', None)
        kw.update(c)
        np.random.seed(1)
        s, a, m = sq.run(name, A, b, bud, g, M, ctor, **kw)
        ctx.step()
        got = strip(s)
        if base is None:
            base = got
        info = dict(solver=name, A=A, b=b, conf=conf, budget=bud, options=on)
        d = sq.differs(got, base)
        ctx.check(d is None, 'watching the solve changes its result', attribute=d, got=got.get(d), want=base.get(d), **info)
        ctx.state(name, repr(A.tolist()), repr(sorted(conf)), bud, tuple(on))
        histories(ctx, name, s, A, b, g, M, conf.get('shift', 0.), on, info, bud)
        ctx.trace(name)


def histories(ctx, name, s, A, b, g, M, shift, on, info, bud):
    its, res, hist = getattr(s, 'iterates', []), getattr(s, 'resids', []), getattr(s, 'residHistory', [])
    n = len(b)
    As = A - shift * np.eye(n)
    x0 = np.zeros(n) if g is None else g
    Mx = np.eye(n) if M is None else M
    if 'store_iterates' not in on:
        ctx.check(len(its) == 0, 'iterates stored without being asked for', **info)
    else:
        ctx.check(len(its) >= 1 and np.array_equal(its[0], x0), 'stored iterates do not start at the initial guess', got=its[:1], **info)
        tol = 0 if name != 'symmlq' else 1e-13
        ctx.check(np.abs(its[-1] - s.x).max() <= tol * (1 + np.abs(s.x).max()), 'stored iterates do not end with the solution', got=its[-1], want=s.x, **info)
        ctx.check(all(v.shape == (n,) for v in its), 'an iterate has the wrong size', **info)
    sc = [np.linalg.norm(As) * np.linalg.norm(v) for v in its] + [np.linalg.norm(b)]
    tol = 1e-9 * max(sc) + 1e-12
    if name == 'cg':
        if 'store_resids' not in on:
            ctx.check(len(res) == 0, 'residuals stored without being asked for', **info)
        ctx.check(hist and hist[0] == s.residNorm0 and hist[-1] == s.residNorm, 'residual history does not go from the initial to the final norm', history=hist, **info)
        steps = s.nMatvec - (g is not None) - (s.definite is False)
        if its:
            ctx.check(len(hist) == len(its), 'not one residual norm for each iterate', iterates=len(its), norms=len(hist), **info)
            for x, h in zip(its, hist):
                r = np.dot(A, x) - b
                want = np.sqrt(abs(np.vdot(r, np.dot(Mx, r))))
                ctx.check(abs(h - want) <= tol, 'a stored residual norm is not that of its iterate', got=h, want=want, **info)
            for k in range(len(its)):
                # the stored iterate is what a solve limited to that many steps returns
                if (bud is None or k <= 3) and 'store_resids' in on and len(on) == 2 and n < 4:
                    t, _, _ = sq.run(name, A, b, k + (g is not None), g, M)
                    ctx.check(np.array_equal(t.x, its[k]), 'a stored iterate is not that of a solve stopped there', step=k, got=its[k], want=t.x, **info)
        if res:
            ctx.check(len(res) == len(hist), 'not one residual for each step', **info)
            if its:
                for x, r in zip(its, res):
                    want = np.dot(Mx, np.dot(A, x) - b)
                    ctx.check(np.abs(r - want).max() <= tol * (1 + abs(Mx).max()), 'a stored residual is not that of its iterate', got=r, want=want, **info)
    if name == 'minres':
        ctx.check(hist and hist[0] == s.residNorm0 and hist[-1] == s.residNorm, 'residual history does not go from the initial to the final norm', history=hist, norms=(s.residNorm0, s.residNorm), **info)
        if its:
            ctx.check(len(hist) == len(its), 'not one residual norm for each iterate', iterates=len(its), norms=len(hist), **info)
            if abs(np.linalg.det(As)) > 1e-6:
                for x, h in zip(its, hist):
                    r = np.dot(As, x) - b
                    want = np.sqrt(abs(np.vdot(r, np.dot(Mx, r))))
                    ctx.check(abs(h - want) <= 1e-7 * max(sc) + 1e-10, 'a stored residual norm is not that of its iterate', got=h, want=want, istop=s.istop, **info)
            for k in range(len(its)):
                if len(on) == 1 and k < s.itn and some(k, n):
                    t, _, _ = sq.run(name, A, b, k, None, M, shift=shift)
                    ctx.check(np.array_equal(t.x, its[k]), 'a stored iterate is not that of a solve stopped there', step=k, got=its[k], want=t.x, **info)
    independent(ctx, s, info)


def least(ctx, P, budgets, names=sq.LS):
    for name in names:
        for bud in budgets:
            base = None
            for on in opts(name, len(P.b) >= FAR):
                kw, ctor = kws(on)
                o = P.options(name)
                o.update(kw)
                a = sq.Op(P.A, flags=False)
                s = sq.solve(name, sq.make(name, a.op, **ctor), P.b.copy(), bud, **o)
                ctx.step()
                got = strip(s)
                if base is None:
                    base = got
                info = dict(solver=name, A=P.A, b=P.b, damp=P.damp, W1=P.W1, W2=P.W2, budget=bud, options=on)
                d = sq.differs(got, base)
                ctx.check(d is None, 'watching the solve changes its result', attribute=d, got=got.get(d), want=base.get(d), **info)
                lshist(ctx, name, s, P, on, info)
                ctx.state(name, repr(P.A.tolist()), repr(P.b.tolist()), P.damp, P.W1 is None, bud, tuple(on))
                ctx.trace(name)


def lshist(ctx, name, s, P, on, info):
    its = s.iterates_p if name == 'craig' else s.iterates
    dual = s.iterates_d if name == 'craig' else its
    res, nres, norms = s.resids, s.normal_eqns_resids, getattr(s, 'norms', [])
    if 'store_iterates' in on:
        ctx.check(len(its) == s.itn + 1 and len(dual) == len(its), 'not one stored iterate for each step', stored=len(its), itn=s.itn, **info)
        ctx.check(np.array_equal(its[-1], s.x), 'stored iterates do not end with the solution', got=its[-1], want=s.x, **info)
        if name == 'craig':
            ctx.check(np.array_equal(dual[-1], s.r), 'stored dual iterates do not end with the solution', got=dual[-1], want=s.r, **info)
        else:
            ctx.check(not its[0].any(), 'stored iterates do not start at zero', got=its[0], **info)
        for k, x in enumerate(its):
            if len(on) == 1 and k < s.itn and k > 0 and some(k, len(x)):
                t = P.solve(name, k)
                ctx.check(np.array_equal(t.x, x), 'a stored iterate is not that of a solve stopped there', step=k, got=x, want=t.x, **info)
    else:
        ctx.check(not its and not dual, 'iterates stored without being asked for', **info)
    if 'store_resids' not in on:
        ctx.check(not res and not nres and not norms, 'residuals stored without being asked for', **info)
    elif 'store_iterates' in on:
        bt = np.linalg.norm(P.bt)
        tol = 1e-6 * (bt + 1e-12)
        L = len(its)
        far = 1 if L < 50 else 1e4   # rounding errors add up
        if name in ('lsqr', 'lsmr'):
            ctx.check(len(res) == len(nres) == L and (name == 'lsqr' or len(norms) == L), 'not one stored norm for each iterate', lengths=(L, len(res), len(nres), len(norms)), **info)
            for k, x in enumerate(its):
                ctx.check(abs(res[k] - P.objective(x)) <= tol, 'a stored residual norm is not that of its iterate', step=k, got=res[k], want=P.objective(x), **info)
                ctx.check(abs(nres[k] - P.normal(x)) <= tol * (1 + P.norm), 'a stored normal-equations residual is not that of its iterate', step=k, got=nres[k], want=P.normal(x), **info)
            ctx.check(res[-1] == s.r2norm and nres[-1] == s.Arnorm, 'histories do not end with the reported norms', **info)
        elif name == 'craig':
            ctx.check(len(res) == len(norms) == L and len(nres) == s.itn, 'not one stored norm for each iterate', lengths=(L, len(res), len(nres), len(norms)), **info)
            for k in range(L):
                want = P.energy(name, dual[k])
                ctx.check(abs(res[k] - want) <= tol * far * (1 + want), 'a stored objective is not that of its iterate', step=k, got=res[k], want=want, **info)
            for k in range(s.itn):
                ctx.check(abs(nres[k] - P.sqdres(dual[k])) <= tol * (1 + P.norm ** 2), 'a stored residual is not that of its iterate', step=k, got=nres[k], want=P.sqdres(dual[k]), **info)
        else:
            ctx.check(len(nres) == len(norms) == L, 'not one stored norm for each iterate', lengths=(L, len(nres), len(norms)), **info)
            for k in range(L):
                ctx.check(abs(nres[k] - P.sqdres(its[k])) <= tol * (1 + P.norm ** 2), 'a stored residual is not that of its iterate', step=k, got=nres[k], want=P.sqdres(its[k]), **info)
        for k in range(L):
            if norms:
                want = P.energy(name, dual[k])
                ctx.check(abs(norms[k] - want) <= tol * (1 + want) * (1 + P.norm ** 2), 'a stored energy norm is not that of its iterate', step=k, got=norms[k], want=want, **info)
    win = s.dir_errors_d_window if name == 'craig' else s.dir_errors_window
    if 'store_iterates' in on and win:
        E = [P.energy(name, p) for p in dual]
        for j, w in enumerate(win):
            k = 6 + j
            want = (E[k] - E[k - 5]) / E[k]
            if len(dual) > 50:
                break   # the estimates of long runs lose their accuracy with the orthogonality
            ctx.check(abs(w ** 2 - want) <= (1e-7 if len(dual) < 50 else 1e-3), 'a stored direct error is not that of its window', step=k, got=w, want=want, **info)
    independent(ctx, s, info)
