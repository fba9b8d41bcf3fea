"""C11: forward, compact and structured operators against dense updates and against the inverse operator."""
import itertools
import numpy as np
from mc import lb

BOUNDS = dict(forms=['fwd', 'cmp', 'str'], memory='1..4 and the default 5', dimensions='1..4, 9, 20', scaling=[False, True],
              history='every sequence of stores of length <= 4 (quick) / 6 (thorough) over 4 accepted pairs and 1 rejected one in dimension 3; length <= 3 in dimensions 1, 2, 4; histories of 30 stores')
ASSUMPTIONS = ['structured histories in which the structured formula meets non-positive curvature (its square root is then undefined) are set aside']


def cases(tier):
    top = 4 if tier == 'quick' else 6
    for mem in (1, 2, 3, 4):
        for sc in (False, True):
            for n in (3, 1, 2, 4):
                for k in range(0, (top if n == 3 else 3) + 1):
                    for h in itertools.product((0, 1, 2, 3, -1), repeat=k):
                        if h.count(-1) > 1:
                            continue
                        yield [n, mem, sc, list(h)]
            if mem == 3 and tier == 'quick':
                for h in itertools.product((0, 1, 2), repeat=5):
                    yield [3, mem, sc, list(h)]
            for h in itertools.product((0, 1, -2, -3, -5), repeat=3):
                yield [3, mem, sc, list(h)]
    for n in (2, 9, 20):
        for mem in (None, 1, 2, 5, 6, 9):
            for sc in (False, True):
                for p in range(1, 4):
                    if n == 20 and (p > 1 or mem not in (None, 9)) and tier == 'quick':
                        continue
                    yield ['long', n, mem, sc, p]


def judge(ctx, ops, n, mem, pairs, sc):
    s = pairs[-1] if pairs else None
    B = lb.forward(n, mem, pairs, sc)
    cond = np.linalg.cond(B)
    tol = min(1e-4, max(1e-9, 1e-12 * cond * (1 + min(len(pairs), mem))))
    F = {}
    if cond < 1e8:
        for c in ('fwd', 'cmp'):
            F[c] = ops[c].full()
            ctx.step(n)
            ctx.check(lb.relclose(F[c], B, tol), 'the %s form is not the BFGS matrix' % c, got=F[c], want=B)
            ctx.check(lb.relclose(F[c], F[c].T, tol), 'the %s form is not symmetric' % c)
            if s is not None:
                ctx.check(lb.relclose(ops[c] * s[0], s[1], max(1e-8, tol)), 'the %s form does not map the newest s to y' % c, got=ops[c] * s[0], want=s[1])
            for v in (np.arange(1., n + 1) * (1 - 2j), np.ones(n)):
                w = ops[c] * (ops['inv'] * v)
                u = ops['inv'] * (ops[c] * v)
                ctx.step(4)
                ctx.check(lb.relclose(w, v, 1e-5) and lb.relclose(u, v, 1e-5), 'the %s form does not invert the inverse form' % c, got=w, want=v)
            E = (ops[c] * ops['inv']).full()
            ctx.check(lb.relclose(E, np.eye(n), 1e-5), 'composition of the %s form and the inverse form is not the identity' % c, got=E)
        ctx.check(lb.relclose(F['fwd'], F['cmp'], tol), 'forward and compact forms differ')
        ctx.trace('%d pairs' % min(mem, len(pairs)))


def judge_str(ctx, op, n, mem, triples, sc):
    B = lb.structured(n, mem, triples, sc)
    if B is None or np.max(np.abs(B)) > 1e6:
        ctx.trace('set aside')
        return False
    G = op.full()
    ctx.step(n)
    ctx.check(lb.relclose(G, B, 1e-7), 'the structured operator is not the structured update of its triples', got=G, want=B)
    ctx.check(lb.relclose(G, G.T, 1e-7), 'the structured operator is not symmetric', got=G)
    if triples:
        s, y, yd = triples[-1]
        ctx.check(lb.relclose(op * s, yd, 1e-6), 'the structured operator does not map the newest s to the structured y', got=op * s, want=yd)
    ctx.trace('structured %d' % min(mem, len(triples)))
    return True


def feed(ctx, n, mem, sc, hist, each):
    kw = {} if mem is None else dict(npairs=mem)
    ops = {c: lb.CLS[c](n, scaling=sc, **kw) for c in lb.CLS}
    mem = 5 if mem is None else mem
    pairs, triples, alive = [], [], True
    for i, k in enumerate(hist):
        t = lb.triple(n, k)
        for c in ('inv', 'fwd', 'cmp'):
            lb.give(ops[c], c, t[:2])
            ctx.step()
        if t[0].dot(t[1]) > 0:
            pairs.append(t[:2])
        if alive:
            B = lb.structured(n, mem, triples, sc)
            ys = t[0].dot(t[1])
            alive = B is not None and (ys <= 0 or t[0].dot(B.dot(t[0])) > 1e-6)
            if alive:
                lb.give(ops['str'], 'str', t)
                ctx.step()
                if ys > 0:
                    triples.append(t)
        if each or i == len(hist) - 1:
            judge(ctx, ops, n, mem, pairs, sc)
            if alive:
                alive = judge_str(ctx, ops['str'], n, mem, triples, sc)
    if not hist:
        judge(ctx, ops, n, mem, pairs, sc)
        judge_str(ctx, ops['str'], n, mem, triples, sc)


def run(ctx, case):
    ctx.state(case)
    if case[0] == 'long':
        _, n, mem, sc, p = case
        feed(ctx, n, mem, sc, [(k * k + k // p) % 11 if k % 6 != 5 else -1 for k in range(30)], True)
        return
    n, mem, sc, hist = case
    feed(ctx, n, mem, sc, hist, False)
