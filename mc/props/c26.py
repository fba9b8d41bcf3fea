"""C26: roots_quadratic on coefficient grids against exact discriminants and 120-digit roots."""
import itertools
from decimal import Decimal as D, getcontext
from fractions import Fraction as F
from pykrylov.tools import roots_quadratic

getcontext().prec = 120
BOUNDS = dict(integers='every triple over -9..9 (quick) / -20..20 (thorough)', powers='every triple over 0 and +-10**k, k=-20..20 step 2 (quick) / 1 (thorough)',
              mixed='every triple over +-{1,3,7}*10**k, k in -12,-6,-1,0,1,6,12', near_double='perturbed squares', refinements='0,1 (default),2,3,5; two tolerances')
ASSUMPTIONS = ['coefficients whose products neither overflow nor underflow']


def cases(tier):
    r = 9 if tier == 'quick' else 20
    for a in range(-r, r + 1):
        for b in range(-r, r + 1):
            yield ['int', a, b, r]
    ks = range(-20, 21, 2 if tier == 'quick' else 1)
    pw = [0.0] + [s * 10.0 ** k for k in ks for s in (1, -1)]
    for a in pw:
        for b in pw:
            yield ['pow', a, b, [pw[1], len(pw)], 2 if tier == 'quick' else 1]
    mx = [s * m * 10.0 ** k for m in (1, 3, 7) for k in (-12, -6, -1, 0, 1, 6, 12) for s in (1, -1)]
    for a in mx:
        for b in mx:
            yield ['mix', a, b]
    for p in range(1, 40):
        for q in range(1, 40):
            yield ['sq', p, q]


def exact(a, b, c):
    """-> number of real roots (with multiplicity) and their values to 120 digits, sorted."""
    A, B, C = F(a), F(b), F(c)
    if A == 0:
        if B == 0:
            return [D(0)] if C == 0 else []
        r = -C / B
        return [D(r.numerator) / D(r.denominator)]
    disc = B * B - 4 * A * C
    if disc < 0:
        return []
    a, b, c = [D(x.numerator) / D(x.denominator) for x in (A, B, C)]
    dd = (D(disc.numerator) / D(disc.denominator)).sqrt()
    d = -(b + (dd if b >= 0 else -dd)) / 2
    if d == 0:
        return [D(0), D(0)]
    return sorted([d / a, c / d])


def judge(ctx, a, b, c):
    want = exact(a, b, c)
    ill = a != 0 and abs(F(a) * F(c)) <= F(1, 10 ** 8) * F(b) * F(b) * F(1000001, 1000000)
    double = False
    if a != 0:
        disc = F(b) ** 2 - 4 * F(a) * F(c)
        # nearly equal roots: rounding the discriminant limits what can be promised
        double = abs(disc) <= F(1, 10 ** 6) * max(F(b) ** 2, abs(4 * F(a) * F(c)))
        if double and disc != 0 and abs(disc) < F(1, 10 ** 14) * F(b) ** 2:
            return
    for kw in ({}, dict(nitref=0), dict(nitref=2), dict(nitref=3), dict(nitref=5), dict(tol=1e-12, nitref=2), dict(tol=1e-12)):
        got = roots_quadratic(a, b, c, **kw)
        ctx.step()
        nit = kw.get('nitref', 1)
        ctx.check(isinstance(got, list) and len(got) == len(want), 'q=(%r,%r,%r) %r: %r instead of %d roots' % (a, b, c, kw, got, len(want)))
        rel = 1e-14
        if ill and nit == 0:
            continue                   # the unrefined roots of an ill-conditioned quadratic are crude by design
        if ill and nit == 1:
            rel = 1.1e-8               # one refinement of a root that is off by the tolerance
        if double:
            rel = max(rel, 1e-7)
        for x, y in zip(sorted(got), want):
            ctx.check(x == x and abs(D(float(x)) - y) <= D(rel) * abs(y) + D('1e-300'), 'q=(%r,%r,%r) %r: root %r instead of %s' % (a, b, c, kw, x, format(y, '.20e')))
        ctx.trace('%d roots' % len(want))


def run(ctx, case):
    kind, a, b = case[:3]
    if kind == 'int':
        r = case[3]
        for c in range(-r, r + 1):
            ctx.state(a, b, c)
            judge(ctx, a, b, c)
    elif kind == 'pow':
        ks = range(-20, 21, case[4])
        for c in [0.0] + [s * 10.0 ** k for k in ks for s in (1, -1)]:
            ctx.state(a, b, c)
            judge(ctx, a, b, c)
    elif kind == 'mix':
        for m in (1, 3, 7):
            for k in (-12, -6, -1, 0, 1, 6, 12):
                for s in (1, -1):
                    ctx.state(a, b, s * m * 10.0 ** k)
                    judge(ctx, a, b, s * m * 10.0 ** k)
    else:
        # (a x - b)(c x - d) with equal, close and opposite roots
        for c, d in ((a, b), (a, -b), (a + 1, b), (1, b), (a, b + 1), (b, a)):
            ctx.state(a, b, c, d)
            judge(ctx, a * c, -(a * d + b * c), b * d)
    ctx.sample(dict(case=case))
