"""C12: lifecycle histories (stores, refusals, restarts, products, overwrites) against a list of accepted pairs."""
import itertools
import numpy as np
from mc import lb

ACTS = ['s0', 's1', 's2', 'neg', 'nil', 'orth', 'restart', 'prod', 'clobber', 'sneak']
BOUNDS = dict(forms=sorted(lb.CLS), memory='1..3, default', scaling=[False, True], actions=ACTS,
              history='every history of length <= 4 (quick) / 5 (thorough); 3 with memory 3')


def cases(tier):
    top = 4 if tier == 'quick' else 5
    for cls in ('inv', 'fwd', 'cmp', 'str'):
        for sc in (False, True):
            for mem in (2, 1, 3):
                for h in itertools.product(ACTS, repeat=top if mem == 2 else 3):
                    if tier == 'quick' and mem == 2 and (h[0] not in ('s0', 's1', 'neg', 'restart') or h[2] == h[3]):
                        continue
                    yield [cls, mem, sc, list(h)]
                # more pairs before and after a restart than the memory holds
                for a in range(0, mem + 3):
                    for b in range(0, mem + 3):
                        yield [cls, mem, sc, ['s%d' % (i % 3) for i in range(a)] + ['restart'] + ['s%d' % ((i + 1) % 3) for i in range(b)]]
            for a in range(0, 8):
                for b in range(0, 8):
                    for c in range(0, 3):
                        yield [cls, None, sc, ['s%d' % (i % 4) for i in range(a)] + ['restart'] + ['s%d' % ((i + 1) % 4) for i in range(b)] + ['restart'] * (c > 0) + ['s2'] * (c > 1)]


def run(ctx, case):
    cls, mem, sc, hist = case
    n = 3
    kw = {} if mem is None else dict(npairs=mem)
    op = lb.CLS[cls](n, scaling=sc, **kw)
    mem = 5 if mem is None else mem
    acc = []
    probe = np.array([1., -2., 0.5])
    lent = []                # the caller's own vectors
    results = []
    for pos, a in enumerate(hist):
        ctx.step()
        before = None
        if a[0] == 's' and a != 'sneak' or a in ('neg', 'nil', 'orth'):
            t = lb.triple(n, {'neg': -1, 'nil': -2, 'orth': -3}.get(a) if a[0] != 's' else int(a[1]))
            if a[0] == 's' and cls == 'str':
                B = lb.structured(n, mem, acc, sc)
                if B is None or t[0].dot(B.dot(t[0])) <= 1e-6:
                    ctx.trace('set aside')
                    return
            if a[0] != 's':
                before = op.full()
            mine = [x.copy() for x in t]
            op.store(*(mine if cls == 'str' else mine[:2]))
            for x, x0 in zip(mine, t):
                ctx.check(np.array_equal(x, x0), 'store modified the vectors of the caller')
            lent.append(mine)
            if a[0] == 's':
                acc.append(t if cls == 'str' else t[:2])
            else:
                ctx.check(np.array_equal(op.full(), before), 'a refused pair (%s) changed the operator' % a, history=hist[:pos + 1])
        elif a == 'restart':
            op.restart()
            acc = []
        elif a == 'prod':
            r = op * probe
            results.append((r, r.copy()))
        elif a == 'clobber':          # overwrite everything that was handed over or out
            for mine in lent:
                for x in mine:
                    x[:] = 1e3 + pos
            for r, r0 in results:
                r[:] = -1e3
            results = []
        elif a == 'sneak':            # products with and without views, which must not matter
            op.T * probe
            op.full()
            (2 * op) * probe
        M = lb.reference(cls, n, mem, acc, sc)
        if M is None:
            ctx.trace('set aside')
            return
        ctx.state(cls, mem, sc, hist[:pos + 1])
        if pos >= len(hist) - 2:
            F = op.full()
            ctx.step(n)
            ctx.check(lb.relclose(F, M, 1e-6), 'after %s the operator is not that of the accepted pairs since the last restart' % a, history=hist[:pos + 1], got=F, want=M)
            for r, r0 in results:
                ctx.check(np.array_equal(r, r0), 'an earlier result changed')
    # the same as a new operator given the accepted pairs only
    new = lb.CLS[cls](n, scaling=sc, **kw)
    for t in acc:
        lb.give(new, cls, t)
    ctx.check(lb.relclose(op.full(), new.full(), 1e-12), 'the operator differs from a new one given the same accepted pairs', history=hist, got=op.full(), want=new.full())
    ctx.check(lb.relclose(op * probe, new * probe, 1e-12), 'the product differs from that of a new operator')
    ctx.trace(cls)
