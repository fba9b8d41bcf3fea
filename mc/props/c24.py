"""C24: CG and non-positive curvature, against exact CG."""
import numpy as np
from mc import sq

BOUNDS = dict(exact='every symmetric 2x2 over -2..3 and 3x3 over {-1,0,2} (thorough -2..2), 1x1, 4-9 right-hand sides, checking on/off, with/without preconditioner and guess, every budget to 2n+1; exact rational CG decides the first direction of non-positive curvature',
              complex='2x2 Gaussian-integer matrices (Hermitian and not)', big='indefinite, semidefinite and definite structured families of sizes 5..40')
ASSUMPTIONS = ['a curvature that is exactly zero after the first step may be seen as tiny positive by roundoff; both outcomes are accepted there']


def cases(tier):
    full = tier != 'quick'
    for a in range(-2, 4):
        yield ['exact', [[a]]]
    for A in sq.symmats(2, range(-2, 4)):
        yield ['exact', A.tolist()]
    for A in sq.symmats(3, (-1, 0, 2) if not full else range(-2, 3)):
        yield ['exact', A.tolist()]
    for a in (-1, 0, 1, 2):
        for d in (-1, 1, 3):
            for z in (0, 1, -1, 2):
                for w in (0, 1, -1):
                    for t in (0, 1, -1):
                        yield ['complex', [a, d, z, w, t]]
    for n in (5, 10, 20, 40):
        for kind in ('lap', 'spd', 'few', 'cond3', 'diag', 'ident', 'indef', 'indefdiag', 'pm', 'neg', 'sing'):
            yield ['big', [kind, n]]


def run(ctx, case):
    cls, spec = case
    if cls == 'big':
        return big(ctx, *spec)
    if cls == 'complex':
        a, d, z, w, t = spec
        A = np.array([[a + 1j * t, z + 1j * w], [z - 1j * w, d + 0j]])
        bs = [[1, 0], [1, 1j], [2, -1]]
    else:
        A = np.array(spec)
        bs = [[[1], [-2]], [[1, 0], [0, 1], [1, 1], [2, -1], [1, -3]], [[1, 0, 0], [0, 1, 1], [1, -1, 2], [1, 2, 3]]][len(A) - 1]
    n = len(A)
    for i, b in enumerate(bs):
        b = np.array(b)
        for M in (None, np.diag([2, 1, 3][:n])):
            for g in (None, np.array([1, -1, 2][:n])):
                if (M is not None and (g is not None or i % 2)) or (g is not None and i % 2 == 0 and n > 1):
                    continue
                for chk in (True, False):
                    one(ctx, A, b, M, g, chk)


def one(ctx, A, b, M, g, chk):
    n = len(b)
    E = sq.exact
    pts, end, p, curv = sq.cg_model(E(A), E(b), None if g is None else E(g), None if M is None else E(M), curvature=chk)
    g0 = 0 if g is None else 1
    for bud in list(range(0, 2 * n + 2)) + [None]:
        # checking is the default
        s, a, m = sq.run('cg', A, b, bud, g, M, **({} if chk and bud != 1 else dict(check_curvature=chk)))
        ctx.step(a.count)
        lim = 2 * n if bud is None else bud
        k = len(pts) - 1                      # complete iterations of the model
        info = dict(A=A, b=b, M=M, guess=g, check=chk, budget=bud, end=end, curvature=complex(curv) if curv is not None else None, definite=s.definite, converged=s.converged,
                    x=s.x, count=a.count, direction=s.infiniteDescent)
        ctx.state(tuple(A.ravel()), tuple(b), M is None, g is None, chk, bud)
        ctx.check(bool(s.definite) == (s.infiniteDescent is None), 'definite flag and stored direction disagree', **info)
        if not chk:
            ctx.check(s.definite, 'stopped for curvature with checking off', **info)
        if end == 'curvature' and max(lim, g0) >= k + 1 + g0:
            fuzzy = curv == 0 and k > 0
            if fuzzy and a.count != k + 1 + g0:
                ctx.trace('fuzzy zero')
            elif not s.definite:
                ctx.check(a.count == k + 1 + g0, 'not stopped at the first direction of non-positive curvature', want=k + 1 + g0, **info)
                d = np.asarray(s.infiniteDescent)
                q = np.vdot(d, np.dot(A, d))
                sc = np.linalg.norm(d) ** 2 * max(np.linalg.norm(A), 1)
                ctx.check(np.linalg.norm(d) > 0 and (q.real <= 1e-10 * sc or abs(q.imag) > 1e-9 * abs(q)), 'stored direction has positive curvature', form=complex(q), **info)
                ctx.check(np.linalg.norm(d * np.vdot(d, p) / np.vdot(d, d) - p) <= 1e-6 * np.linalg.norm(p) , 'stored direction is not the search direction', want=p, **info)
                x = pts[-1].x
                ctx.check(np.abs(s.x - x).max() <= 1e-6 * (1 + np.abs(x).max()), 'iterate before the stop is not that of CG', want=x, **info)
                ctx.trace('not definite')
            else:
                ctx.check(fuzzy, 'non-positive curvature not detected', **info)
                ctx.trace('fuzzy zero')
            r = b - np.dot(A, s.x)
            if M is not None:
                rn = np.sqrt(abs(np.vdot(r, np.dot(M, r))))
            else:
                rn = np.linalg.norm(r)
            r0 = np.sqrt(max(pts[0].r2, 0))
            if not fuzzy and s.converged:
                ctx.check(rn <= sq.threshold(r0, {}) * 1.01, 'convergence reported with a large residual', residual=rn, **info)
        elif chk:
            ctx.check(s.definite, 'stopped for curvature although every direction so far has positive curvature', **info)
            ctx.trace('definite')
        else:
            ctx.trace('unchecked')
        # the iterate is always that of CG, as long as it is defined
        if s.definite and end != 'curvature':
            c = [q for q in pts if q.n == a.count]
            if end == 'breakdown' and a.count > pts[-1].n:
                continue
            if c:
                ctx.check(np.abs(s.x - c[0].x).max() <= 1e-6 * (1 + np.abs(c[0].x).max()), 'iterate is not that of CG', want=c[0].x, **info)
            if end == 'exact' and max(lim, g0) >= pts[-1].n:
                ctx.check(s.converged, 'does not converge', **info)


def big(ctx, kind, n):
    A = sq.big(kind, n)
    w = np.linalg.eigvalsh(A)
    for rk in ('ones', 'e1', 'alt', 'mix', 'tiny', 'huge'):
        b = sq.rhs(rk, n)
        for M in (None, np.diag(1. / (1 + np.arange(n) % 3))):
            for chk in (True, False):
                s, a, m = sq.run('cg', A, b, 4 * n, None, M, **({} if chk else dict(check_curvature=False)))
                ctx.step(a.count)
                ctx.state(kind, n, rk, M is None, chk)
                info = dict(kind=kind, n=n, rhs=rk, M=M is not None, check=chk, count=a.count, definite=s.definite, converged=s.converged)
                if w[0] > 1e-8 or not chk:
                    ctx.check(s.definite and s.infiniteDescent is None, 'stopped for curvature', **info)
                    if w[0] > 1e-8:
                        ctx.check(s.converged, 'does not converge on a positive definite operator', **info)
                if not s.definite:
                    d = s.infiniteDescent
                    q = np.dot(d, np.dot(A, d)) / np.dot(d, d)
                    ctx.check(q <= 1e-9 * abs(w).max(), 'stored direction has positive curvature', form=q, **info)
                    ctx.check(d is not b and np.isfinite(d).all(), 'bad direction', **info)
                if w[-1] < 0 and chk:
                    ctx.check(not s.definite and not s.converged and a.count == 1 and not s.x.any(), 'negative definite operator not detected at once', **info)
                if kind in ('indef', 'indefdiag', 'pm') and chk:
                    # the Krylov space meets negative curvature
                    r = b - np.dot(A, s.x)
                    ctx.check(not s.definite or s.converged, 'indefinite operator neither detected nor solved', **info)
                if s.converged:
                    r = b - np.dot(A, s.x)
                    rn = np.sqrt(np.dot(r, r if M is None else np.dot(M, r)))
                    r0 = np.sqrt(np.dot(b, b if M is None else np.dot(M, b)))
                    if kind != 'sing' and (chk or w[0] > 1e-8):
                        ctx.check(rn <= 1.01 * sq.threshold(r0, {}), 'convergence reported with a large residual', residual=rn, **info)
                ctx.trace('%s %s' % (kind, 'definite' if s.definite else 'not definite'))
