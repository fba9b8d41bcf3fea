"""C10: histories of stores into the inverse operator against the dense BFGS recursion."""
import itertools
import numpy as np
from mc import lb

BOUNDS = dict(memory='1..4 and the default 5', dimensions='1..4, 9', scaling=[False, True],
              history='every sequence of stores of length <= 5 (quick) / 7 (thorough) over 4 accepted pairs and 1 rejected one in dimension 3; length <= 4 in dimensions 1, 2, 4; '
              'sequences of 4 with 5 rejected kinds; cyclic histories of 40 stores with memory up to 9')


def cases(tier):
    top = 5 if tier == 'quick' else 7
    for mem in (1, 2, 3, 4):
        for sc in (False, True):
            for n in (3, 1, 2, 4):
                for k in range(0, (top if n == 3 else 4) + 1):
                    for h in itertools.product((0, 1, 2, 3, -1), repeat=k):
                        if k == 7 and h[0] == -1:
                            continue
                        yield [n, mem, sc, list(h)]
            for h in itertools.product((0, 1, -2, -3, -4, -5), repeat=4):
                if any(x < 0 for x in h):
                    yield [3, mem, sc, list(h)]
    for n in (2, 9, 30):
        for mem in (None, 1, 2, 5, 6, 9, 12):
            for sc in (False, True):
                for p in range(1, 6):
                    yield ['long', n, mem, sc, p]


def judge(ctx, op, n, mem, pairs, sc):
    H = lb.inverse(n, mem, pairs, sc)
    F = op.full()
    ctx.step(n)
    # the conditioning of the recursion bounds what rounding can do
    tol = 1e-13 * max(10, np.linalg.cond(H)) * (1 + len(pairs[-mem:]))
    ctx.check(lb.relclose(F, H, min(1e-5, max(1e-10, tol))), 'the operator is not the BFGS matrix of its last %d accepted pairs' % min(mem, len(pairs)), got=F, want=H)
    ctx.check(lb.relclose(F, F.T, 1e-10 * max(1, np.linalg.cond(H) * 1e-6)), 'the operator is not symmetric', got=F)
    if np.linalg.cond(H) < 1e10:
        ctx.check(np.min(np.linalg.eigvalsh((F + F.T) / 2)) > 0, 'the operator is not positive definite', got=F)
    if pairs:
        s, y = pairs[-1]
        ctx.check(lb.relclose(op * y, s, 1e-7), 'the newest y is not mapped to s', got=op * y, want=s)
    v = np.arange(1., n + 1) * (1 - 2j)
    ctx.check(lb.relclose(op * v, H.dot(v), 1e-6), 'product with a complex vector', got=op * v, want=H.dot(v))
    w = np.arange(1, n + 1)
    ctx.check(lb.relclose(op * w, H.dot(w), 1e-6), 'product with an integer vector')
    ctx.step(3)
    ctx.trace('%d pairs' % min(mem, len(pairs)))


def run(ctx, case):
    if case[0] == 'long':
        _, n, mem, sc, period = case
        op = lb.InverseLBFGSOperator(n, scaling=sc) if mem is None else lb.InverseLBFGSOperator(n, npairs=mem, scaling=sc)
        mem = 5 if mem is None else mem
        ctx.check(op.npairs == mem, 'npairs is %r' % op.npairs)
        pairs = []
        for k in range(40):
            kk = (k * k + k // period) % 11
            p = lb.pair(n, kk if k % 6 != 5 else -1)
            lb.give(op, 'inv', p)
            if k % 6 != 5:
                pairs.append(p)
            ctx.step()
            ctx.state(case, k)
            judge(ctx, op, n, mem, pairs, sc)
        return
    n, mem, sc, hist = case
    op = lb.InverseLBFGSOperator(n, npairs=mem, scaling=sc)
    pairs = []
    for k in hist:
        p = lb.pair(n, k)
        lb.give(op, 'inv', p)
        ctx.step()
        if p[0].dot(p[1]) > 0:
            pairs.append(p)
    ctx.state(n, mem, sc, hist)
    judge(ctx, op, n, mem, pairs, sc)
    ctx.sample(dict(n=n, npairs=mem, scaling=sc, history=hist))
