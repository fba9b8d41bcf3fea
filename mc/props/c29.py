"""C29: a failing product fails the solve cleanly: every product of every solve, then a retry."""
import numpy as np
import pykrylov.linop as lo
from pykrylov.linop import BlockLinearOperator, BlockDiagonalLinearOperator, ReducedLinearOperator, SymmetricallyReducedLinearOperator
from mc import sq, ls

BOUNDS = dict(systems='every symmetric 2x2 over -1..2 and a stride of the unsymmetric 2x2 and symmetric 3x3, five structured families of sizes 6 and 12 for the six square solvers; every 1x1..2x2 and a stride of the 3x2, 2x3 over {-1,0,1}, and three structured shapes for the four least-squares solvers',
              options='no options, guess, preconditioner, shift, stored histories, argument checks; damping, weights, variances',
              faults='a fault at every product of the operator, of its transpose, of the preconditioner and of either weight (one fault per execution), three exception types',
              retries='same solver object and a new one after every fault; two faults in a row at the same place',
              composed='a fault at every leaf product (forward and transposed) of 26 expressions: sums, products, powers, scalings, adjoints, reductions, blocks, nested')
ASSUMPTIONS = ['one fault per execution (two in a row in the retry)']
RULE = 'distinct (system, solver, options, place of the fault, index of the product) executions'


class Fault(Exception):
    pass


class Quit(BaseException):
    pass


def exceptions():
    return (Fault('product refused'), ValueError('product refused'), FloatingPointError('product refused'), ZeroDivisionError('x'), Quit('stop'),
            KeyError('k'), TypeError('t'), AttributeError('a'), StopIteration('s'), NotImplementedError('n'), IndexError('i'), KeyboardInterrupt('k'),
            lo.ShapeError('s'), AssertionError('a'), MemoryError('m'), OSError('o'), RuntimeError('r'), np.linalg.LinAlgError('l'))


def cases(tier):
    full = tier != 'quick'
    yield ['composed']
    for A in sq.symmats(2, range(-1, 3)):
        if A.any():
            yield ['sq', A.tolist()]
    for i, A in enumerate(sq.mats(2, 2, (-1, 0, 2))):
        if A[0, 1] != A[1, 0] and (full or i % 3 == 1):
            yield ['sq', A.tolist()]
    for i, A in enumerate(sq.symmats(3, (-1, 0, 2))):
        if A.any() and (full or i % 29 == 2):
            yield ['sq', A.tolist()]
    for kind in ('lap', 'spd', 'indef', 'uns', 'clap'):
        for n in (6, 12) + ((20,) if full else ()):
            yield ['big', kind, n]
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)):
        for i, A in enumerate(sq.mats(m, n, (-1, 0, 1))):
            if A.any() and (m * n < 4 or i % ((7 if m * n == 4 else 61) if not full else (1 if m * n == 4 else 7)) == 4):
                yield ['ls', A.tolist()]
    for m, n in ((5, 4), (4, 5), (9, 6)):
        yield ['lsbig', m, n]


def run(ctx, case):
    if case[0] == 'composed':
        return composed(ctx)
    if case[0] in ('sq', 'big'):
        A = np.array(case[1]) if case[0] == 'sq' else sq.big(case[1], case[2])
        n = len(A)
        sym = np.array_equal(A, A.T)
        b = np.array([1, 2, -1][:n]) * 1. if n < 4 else sq.rhs('mix', n)
        D = np.diag(1. + np.arange(n) % 3)
        for name in sq.ALL:
            if name in sq.SQ4:
                confs = [dict(), dict(M=D), dict(guess=np.arange(n) - 1.), dict(M=D, guess=np.ones(n))]
                if name == 'cg':
                    confs += [dict(store_resids=True, store_iterates=True)]
                    if sym:
                        confs += [dict(check_symmetric=True)]
                    if not sym and A.dtype.kind != 'c':
                        continue
            else:
                if not sym or A.dtype.kind == 'c':
                    continue
                confs = [dict(), dict(M=D), dict(shift=.5), dict(store_iterates=True), dict(check=True), dict(M=D, check=True)]
            for conf in confs:
                square(ctx, name, A, b, conf)
    else:
        if case[0] == 'ls':
            A = np.array(case[1])
            m, n = A.shape
            b = np.array([1, 2, -1][:m]) * 1.
        else:
            m, n = case[1:]
            i, j = np.meshgrid(np.arange(m), np.arange(n), indexing='ij')
            A = .4 * np.cos(i * 1.3 + j * j) + 3. * (i == j)
            b = sq.rhs('mix', m)
        for name in sq.LS:
            for conf in (dict(), dict(damp=.5), dict(w=1), dict(store_resids=True, store_iterates=True), dict(w=2, damp=1., wantvar=True)):
                least(ctx, name, A, b, conf)


def square(ctx, name, A, b, conf):
    conf = dict(conf)
    g, M = conf.pop('guess', None), conf.pop('M', None)
    def build():
        return dict(A=sq.Op(A), M=None if M is None else sq.Op(M))

    def new(ops):
        return sq.make(name, ops['A'].op, None if M is None else ops['M'].op)

    def go(ops, s, b, g):
        return sq.solve(name, s, b, None, g, **conf)
    inject(ctx, name, build, new, go, b, g, dict(solver=name, A=A, conf=sorted(conf), precon=M is not None, guess=g is not None))


def least(ctx, name, A, b, conf):
    conf = dict(conf)
    m, n = A.shape
    w = conf.pop('w', 0)
    if name not in ('lsqr', 'lsmr'):
        conf.pop('damp', None)
    if name != 'lsqr':
        conf.pop('wantvar', None)

    def build():
        ops = dict(A=sq.Op(A, flags=False))
        if w:
            ops['M'], ops['N'] = sq.Op(ls.spdweight(m, w)), sq.Op(ls.spdweight(n, w))
        return ops

    def new(ops):
        return sq.make(name, ops['A'].op)

    def go(ops, s, b, g):
        kw = dict(conf)
        if w:
            kw['M'], kw['N'] = ops['M'].op, ops['N'].op
        return sq.solve(name, s, b, 12, **kw)
    inject(ctx, name, build, new, go, b, None, dict(solver=name, A=A, conf=sorted(conf), weights=w))


def inject(ctx, name, build, new, go, b, g, info):
    """Undisturbed run, then a fault at every product followed by retries."""
    ops = build()
    np.random.seed(1)
    want = sq.snapshot(go(ops, new(ops), b.copy(), None if g is None else g.copy()))
    counts = dict((k, o.count + o.tcount) for k, o in ops.items() if o)
    excs = exceptions()
    for i, k in enumerate(sorted(counts)):
        for at in range(counts[k]):
            exc = excs[(at + 3 * i + len(name)) % len(excs)]
            ops = build()
            s = new(ops)
            bb, gg = b.copy(), None if g is None else g.copy()
            o = ops[k]
            for again in (0, 1):
                for p in ops.values():
                    if p:
                        p.reset()
                o.fail_at, o.exc = at, exc
                inf = dict(operator=k, product=at, of=counts[k], exception=repr(exc), second=again, **info)
                np.random.seed(1)
                caught = None
                try:
                    go(ops, s, bb, gg)
                except BaseException as e:
                    if type(e).__name__ == 'Hang':
                        raise
                    caught = e
                ctx.step()
                ctx.check(caught is exc, 'the exception of the product does not reach the caller', caught=repr(caught), **inf)
                ctx.check(o.count + o.tcount == at, 'the products before the fault are not those of an undisturbed solve', count=o.count + o.tcount, **inf)
                ctx.check(np.array_equal(bb, b) and (g is None or np.array_equal(gg, g)), 'a vector of the caller is modified by the failed solve', vectors=(bb, gg), **inf)
                o.fail_at = None
                if again == 0 and at % 2:
                    continue        # fail twice in a row
                for t, which in ((s, 'same solver'), (new(ops), 'new solver')):
                    for p in ops.values():
                        if p:
                            p.reset()
                    np.random.seed(1)
                    go(ops, t, bb, gg)
                    ctx.step()
                    got = sq.snapshot(t)
                    d = sq.differs(got, want)
                    ctx.check(d is None, 'a solve after the failed one gives another result', retry=which, attribute=d, got=got.get(d), want=want.get(d), **inf)
                    c = dict((q, p.count + p.tcount) for q, p in ops.items() if p)
                    ctx.check(c == counts, 'a solve after the failed one makes other products', retry=which, got=c, want=counts, **inf)
            ctx.state(name, repr(info), k, at)
            ctx.trace('%s fault in %s' % (name, k))


# ---------------------------------------------------------------- composed operators

class Leaf(object):
    """Leaf operator with a ticking fault shared by all leaves of an expression."""
    def __init__(self, clock, A, sym=False):
        self.A = A
        kw = dict(symmetric=True) if sym else dict(matvec_transp=lambda y: self.tick(clock, self.A.T, y))
        self.op = lo.LinearOperator(A.shape[1], A.shape[0], lambda x: self.tick(clock, self.A, x), **kw)

    def tick(self, clock, A, x):
        i = clock['n']
        clock['n'] += 1
        if i == clock['at']:
            raise clock['exc']
        return np.dot(A, x)


def expressions():
    """name -> function of leaves A (3x2), B (3x2), C (2x3), S (2x2 symmetric), T (3x3)."""
    yield 'A', lambda A, B, C, S, T: A
    yield 'S', lambda A, B, C, S, T: S
    yield 'A+B', lambda A, B, C, S, T: A + B
    yield 'A-B', lambda A, B, C, S, T: A - B
    yield '-A', lambda A, B, C, S, T: -A
    yield '2*A', lambda A, B, C, S, T: 2 * A
    yield 'A*3', lambda A, B, C, S, T: A * 3
    yield 'A/2', lambda A, B, C, S, T: A / 2
    yield 'A*C', lambda A, B, C, S, T: A * C
    yield 'C*A*S', lambda A, B, C, S, T: C * A * S
    yield 'S**3', lambda A, B, C, S, T: S ** 3
    yield 'A.T', lambda A, B, C, S, T: A.T
    yield 'A.H', lambda A, B, C, S, T: A.H
    yield 'A.T*A', lambda A, B, C, S, T: A.T * A
    yield 'A.T*T*B', lambda A, B, C, S, T: A.T * T * B
    yield '(A*C)*T+T', lambda A, B, C, S, T: (A * C) * T + T
    yield '(A*C).T', lambda A, B, C, S, T: (A * C).T
    yield '2*(A+B).T', lambda A, B, C, S, T: 2 * (A + B).T
    yield 'reduced', lambda A, B, C, S, T: ReducedLinearOperator(T, [0, 2], [1, 2])
    yield 'symreduced', lambda A, B, C, S, T: SymmetricallyReducedLinearOperator(T, [2, 0])
    yield 'reduced sum', lambda A, B, C, S, T: ReducedLinearOperator(A + B, [0, 2], [1])
    yield 'block', lambda A, B, C, S, T: BlockLinearOperator([[A, T], [S, C]])
    yield 'symblock', lambda A, B, C, S, T: BlockLinearOperator([[S, C], [S.__class__(3, 3, lambda x: x, symmetric=True)]], symmetric=True)
    yield 'blockdiag', lambda A, B, C, S, T: BlockDiagonalLinearOperator([A, S, T])
    yield 'block.T', lambda A, B, C, S, T: BlockLinearOperator([[A, T], [S, C]]).T
    yield 'blockdiag*block', lambda A, B, C, S, T: BlockDiagonalLinearOperator([C, S]) * BlockLinearOperator([[A, T], [S, C]])
    yield 'block of sums', lambda A, B, C, S, T: BlockLinearOperator([[A + B, T * T], [S * S, C - A.T]])


def composed(ctx):
    A0 = np.array([[1., 2], [0, -1], [3, 1]])
    B0 = np.array([[0., 1], [2, 2], [-1, 0]])
    C0 = np.array([[1., 0, 2], [-1, 1, 1]])
    S0 = np.array([[2., 1], [1, -1]])
    T0 = np.array([[1., 2, 0], [0, 1, 3], [2, 0, 1]])
    excs = exceptions()
    for name, expr in expressions():
        for transp in (False, True):
            def build():
                clock = dict(n=0, at=None, exc=None)
                L = [Leaf(clock, M, s).op for M, s in ((A0, 0), (B0, 0), (C0, 0), (S0, 1), (T0, 0))]
                op = expr(*L)
                return clock, L, op.T if transp else op
            clock, L, op = build()
            x = np.arange(op.shape[1]) - 1.5
            clock['n'] = 0
            want = op * x
            total = clock['n']
            for at in range(total):
                exc = excs[at % len(excs)]
                clock, L, op = build()
                xx = x.copy()
                before = tuple((l.nMatvec, l.T.nMatvec) for l in L)
                clock.update(n=0, at=at, exc=exc)
                caught = None
                try:
                    op * xx
                except BaseException as e:
                    if type(e).__name__ == 'Hang':
                        raise
                    caught = e
                info = dict(expression=name, transposed=transp, leaf_product=at, exception=repr(exc))
                ctx.check(caught is exc, 'the exception of the product does not reach the caller', caught=repr(caught), **info)
                ctx.check(np.array_equal(xx, x), 'the vector is modified by the failed product', x=xx, **info)
                clock.update(at=None)
                for o, w in ((op, want),):
                    clock['n'] = 0
                    got = o * xx
                    ctx.check(np.array_equal(got, w) and clock['n'] == total, 'a product after the failed one differs', got=got, want=w, **info)
                    y = o.T * (np.arange(o.shape[0]) + 1.)
                    D = np.array([o * e for e in np.eye(o.shape[1])]).T
                    ctx.check(np.allclose(y, np.dot(D.T, np.arange(o.shape[0]) + 1.)), 'the transpose after the failed product differs', **info)
                ctx.step(3)
                ctx.state('composed', name, transp, at)
                ctx.trace('composed')
