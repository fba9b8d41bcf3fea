"""C19: solver objects can be reused; solver objects are independent."""
import itertools
import greenlet
import numpy as np
from mc import sq

BOUNDS = dict(histories='per solver, operator (definite, indefinite, singular, unsymmetric) and preconditioner: every sequence of two solves of a menu of 9-14 (all outcomes, all options, faults at products), every sequence of three of a sub-menu (thorough: of four), each final solve compared with one by a new object',
              nested='every ordered pair of solvers (same and different classes), inner solve run inside every product of the outer one, operator shared',
              interleaved='every ordered pair of solvers sharing an operator; all schedules of their products (switch points: every product of A, A transposed and the preconditioner), at most 6 products each')
ASSUMPTIONS = ['preemption between products only; products are the only calls into user code']

NEST = ('cg', 'cgs', 'bicgstab', 'tfqmr', 'minres', 'symmlq', 'lsqr', 'lsmr', 'craig', 'craigmr')


# what an aborted solve must not leave behind of an earlier one
AFTER = ('converged', 'optimal', 'definite', 'infiniteDescent', 'x', 'bestSolution', 'nMatvec', 'residNorm', 'residNorm0', 'residHistory', 'resids',
         'iterates', 'normal_eqns_resids', 'dir_errors_window', 'norms', 'iterates_p', 'iterates_d', 'dir_errors_p_window', 'dir_errors_d_window', 'raised')


class Boom(Exception):
    pass


def systems(name):
    if name in sq.LS:
        return dict(tall=np.array([[1., 2, 0], [0, 1, 1], [3, -1, 1], [1, 1, 0]]), wide=np.array([[1., 0, 2, 1], [2, 1, 0, -1]]),
                    rank=np.array([[1., 2], [2, 4], [1, 2]]), square=np.array([[2., 1, 0], [0, 3, 1], [1, 0, 1]]))
    s = dict(spd=np.array([[4., 1, 0], [1, 3, -1], [0, -1, 2]]), indef=np.array([[1., 2, 0], [2, -1, 1], [0, 1, 1]]),
             sing=np.array([[1., 1, 0], [1, 1, 0], [0, 0, 2]]), wide=sq.big('lap', 7))
    if name in sq.UNSYM:
        s['uns'] = np.array([[2., 1, 0], [-1, 3, 1], [1, 0, 1]])
    if name in sq.SQ4:
        s['cplx'] = np.array([[4., 1j, 0], [-1j, 3, -1], [0, -1, 2]])
    return s


def menu(name, A):
    """[(label, rhs, kwargs, budget, fault)]"""
    m, n = A.shape
    b = np.array([1., -2, 3, 1, 2, -1, 1][:m])
    c = np.array([2., 2, 0, 1, 0, 0, 1][:m])
    out = [('normal', b, {}, None, None), ('other', c, {}, None, None), ('zero', b * 0, {}, None, None), ('int', np.array([3, 1, -1, 2, 1, 1, 1][:m]), {}, None, None),
           ('one', b, {}, 2 if name in ('cgs', 'symmlq') else 1, None), ('tiny', c * 1e-11, {}, None, None)]
    if name in sq.SQ4:
        out += [('guess', b, dict(guess=np.array([1., 0, 2, 0, 1, 1, 1][:n])), None, None),
                ('exact', np.dot(A, np.ones(n)), dict(guess=np.ones(n)), None, None)]
        if A.dtype.kind == 'c':
            out.append(('cplx', b + 1j * c, {}, None, None))
    if name == 'cg':
        out += [('store', b, dict(store_iterates=True, store_resids=True), None, None),
                ('checked', c, dict(check_symmetric=True), None, None),
                ('nocurv', b, dict(check_curvature=False), None, None)]
    if name in ('minres', 'symmlq'):
        out += [('shift', b, dict(shift=.5, store_iterates=True), None, None), ('loose', b, dict(rtol=1e-2), None, None),
                ('checked', c, dict(check=True), None, None)]
    if name == 'minres':
        out += [('direct', b, dict(etol=.9, window=1, store_resids=True), None, None)]
    if name in sq.LS:
        out += [('store', b, dict(store_iterates=True, store_resids=True), None, None),
                ('weights', c, dict(M=_diag(m), N=_diag(n)), None, None), ('direct', b, dict(etol=.9, window=1), 10, None)]
    if name in ('lsqr', 'lsmr'):
        out += [('damp', b, dict(damp=.5), None, None)]
    if name == 'lsqr':
        out += [('var', b, dict(wantvar=True), None, None)]
    for k in (0, 1, 3):
        out.append(('fault%d' % k, b, {}, None, k))
    return out


def _diag(n):
    import pykrylov.linop as lo
    return lo.DiagonalOperator(np.array([1., 2., .5, 3., 1., 1., 1.][:n]))


def cases(tier):
    for name in sq.ALL + sq.LS:
        for k, A in systems(name).items():
            for pre in ((0,) if name in sq.LS else (0, 1)):
                for i in range(len(menu(name, A))):
                    yield ['history', name, k, pre, i, 3 if tier == 'quick' else 4]
    for a in NEST:
        for b in NEST:
            yield ['nested', a, b]
            yield ['schedule', a, b, 5 if tier == 'quick' else 7]


def perform(name, s, a, item):
    """Run one solve of the menu; the snapshot of its results, or the exception."""
    label, b, kw, bud, fault = item
    a.reset()
    a.fail_at, a.exc = fault, Boom(label)
    np.random.seed(3)
    try:
        sq.solve(name, s, b.copy(), bud, **dict((k, v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()))
    except Boom as e:
        # an aborted solve leaves what a new object would be left with, nothing of earlier solves
        d = sq.snapshot(s)
        d['raised'] = (str(e), a.count, a.tcount)
        return d
    finally:
        a.fail_at = None
    d = sq.snapshot(s)
    d['products'] = (a.count, a.tcount)
    return d


def build(name, A, pre):
    a = sq.Op(A)
    m = sq.Op(np.diag([1., 2., .5, 1., 3., 1., 1.][:len(A)])) if pre else None
    return sq.make(name, a.op, m.op if pre else None), a


def run(ctx, case):
    if case[0] == 'history':
        history(ctx, *case[1:])
    elif case[0] == 'nested':
        nested(ctx, case[1], case[2])
    else:
        schedule(ctx, *case[1:])


def history(ctx, name, kind, pre, first, depth):
    A = systems(name)[kind]
    items = menu(name, A)
    fresh = []
    for it in items:
        s, a = build(name, A, pre)
        fresh.append(perform(name, s, a, it))
    sub = [i for i, it in enumerate(items) if it[0] in ('normal', 'zero', 'one', 'store', 'shift', 'direct', 'fault1', 'guess')]
    seqs = [(first, j) for j in range(len(items))] + ([t for t in itertools.product(sub, repeat=3) if t[0] == first])
    if depth > 3:
        seqs += [t for t in itertools.product(sub, repeat=4) if t[0] == first]
    for seq in seqs:
        s, a = build(name, A, pre)
        for i in seq:
            last = perform(name, s, a, items[i])
            ctx.step()
        want = fresh[seq[-1]]
        info = dict(solver=name, system=kind, precon=pre, history=[items[i][0] for i in seq])
        if last.get('raised') != want.get('raised'):
            ctx.fail('a solve that raises with a new object does not with a used one', got=last.get('raised'), want=want.get('raised'), **info)
        else:
            # the estimates of the last finished solve may stay after a fault
            d = sq.differs(last, want, keys=AFTER if 'raised' in last else None)
            ctx.check(d is None, 'result of a reused solver differs from that of a new one', attribute=d, got=last.get(d, 'absent'), want=want.get(d, 'absent'), **info)
        ctx.state(name, kind, pre, seq)
        ctx.trace('history %d' % len(seq))


def pairsys(name):
    """A shared definite operator that every solver accepts."""
    return np.array([[4., 1, 0], [1, 3, -1], [0, -1, 2]])


RHS = [np.array([1., -2, 3]), np.array([2., 1, 0])]


def extra(name):
    if name in sq.LS:
        return dict(store_iterates=True, store_resids=True)
    if name in ('cg', 'minres'):
        return dict(store_iterates=True, store_resids=True)
    if name == 'symmlq':
        return dict(store_iterates=True)
    return {}


def lim(name):
    return 3 if name in sq.LS + ('minres',) else 6


def solved(name, op, pre, b):
    s = sq.make(name, op, None if name in sq.LS else pre)
    sq.solve(name, s, b.copy(), lim(name), **extra(name))
    return s


class Hook(object):
    """Operator that calls hook(i) inside its i-th product (of A or A')."""

    def __init__(self, A):
        import pykrylov.linop as lo
        self.A, self.n, self.hook = A, 0, None

        def mv(x):
            if self.hook:
                k = self.n
                self.n += 1
                self.hook(k)
            return np.dot(A, x)
        self.op = lo.LinearOperator(len(A), len(A), mv, matvec_transp=mv)


def nested(ctx, outer, inner):
    A = pairsys(outer)
    want_o = sq.snapshot(solved(outer, Hook(A).op, None, RHS[0]))
    want_i = sq.snapshot(solved(inner, Hook(A).op, None, RHS[1]))
    total = [0]
    h = Hook(A)
    h.hook = lambda k: total.__setitem__(0, k + 1)
    solved(outer, h.op, None, RHS[0])
    for at in list(range(total[0])) + ['all']:
        h = Hook(A)
        got = []
        si = sq.make(inner, h.op)

        def inside(k):
            if at in (k, 'all'):
                h.hook = None
                sq.solve(inner, si, RHS[1].copy(), lim(inner), **extra(inner))
                h.hook = inside
                got.append(sq.snapshot(si))
        h.hook = inside
        so = solved(outer, h.op, None, RHS[0])
        ctx.step(1 + len(got))
        info = dict(outer=outer, inner=inner, at=at)
        d = sq.differs(sq.snapshot(so), want_o)
        ctx.check(d is None, 'a solve nested in a product changed the outer solve', attribute=d, got=getattr(so, str(d), None), want=want_o.get(d), **info)
        ctx.check(got, 'no nested solve was made', **info)
        for q in got:
            d = sq.differs(q, want_i)
            ctx.check(d is None, 'a nested solve gives a different result', attribute=d, got=q.get(d), want=want_i.get(d), **info)
        ctx.state('nested', outer, inner, at)
        ctx.trace('nested')


def schedule(ctx, na, nb, cap):
    """All interleavings of the products of two solves that share an operator."""
    A = pairsys(na)
    D = np.diag([1., 2., .5])
    names = (na, nb)
    want, lens = [], []
    for i, name in enumerate(names):
        h, p = Hook(A), Hook(D)
        cnt = [0]

        def tick(k):
            cnt[0] += 1
        h.hook = p.hook = tick
        want.append(sq.snapshot(solved(name, h.op, p.op, RHS[i])))
        lens.append(cnt[0])
    # a schedule says which solve moves to its next product; solves run on alone past the cap
    la, lb = [min(n, cap) for n in lens]
    for pos in itertools.combinations(range(la + lb), la):
        word = [0 if i in pos else 1 for i in range(la + lb)]
        h, p = Hook(A), Hook(D)
        free = [False]

        def switch(k):
            if not free[0]:
                main.switch()
        h.hook = p.hook = switch
        main = greenlet.getcurrent()
        out = [None, None]

        def body(i):
            out[i] = sq.snapshot(solved(names[i], h.op, p.op, RHS[i]))
        gl = [greenlet.greenlet(lambda i=i: body(i)) for i in (0, 1)]
        for i in word:
            if not gl[i].dead:
                gl[i].switch()
                ctx.step()
        # let the remaining products happen alternately to the end
        while not (gl[0].dead and gl[1].dead):
            for i in (0, 1):
                if not gl[i].dead:
                    gl[i].switch()
        for i in (0, 1):
            d = sq.differs(out[i], want[i])
            ctx.check(d is None, 'interleaving two solves changes a result', solvers=names, schedule=word, which=i, attribute=d, got=out[i].get(d), want=want[i].get(d))
        ctx.state('schedule', na, nb, tuple(word))
        ctx.trace('schedule')
