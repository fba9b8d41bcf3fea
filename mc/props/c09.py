"""C09: product counters along histories, against integer counters and the calls the user functions see."""
import copy
import itertools
import numpy as np
import pykrylov.linop as lo
from pykrylov.linop.lbfgs import InverseLBFGSOperator, LBFGSOperator, CompactLBFGSOperator
from mc import ref

LEAFKINDS = ['r', 'ta', 'sr', 'arr', 'diag', 'id', 'coo']
FORMS = ['leaf', 'sum', 'self+self', 'diff', 'prod', 'A*A', 'cube', 'pow0', 'scal', 'zero', 'neg', 'div', 'nest', 'red', 'sred', 'blk', 'blk4', 'blksym', 'bdi', 'bdisame', 'rblk', 'prodsum', 'lb', 'fb', 'cb']
ACTS = ['E', 'E.T', 'E.H', 'E.bar', 'A', 'A.T', 'A.H', 'A.bar', 'resetE', 'resetA', 'resetAT', 'idle', 'full', 'bad']
BOUNDS = dict(leaves=LEAFKINDS, forms=FORMS, actions=ACTS, history='every history of length <= 3 (quick) / 4 (thorough)', long='histories of 67 and (real leaves) 1100 products', spellings='A * x at even positions; A(x), and rmatvec for the adjoint, at odd ones')
ASSUMPTIONS = ['whether a refused product (wrong size) counts is left open, as is what a transpose or adjoint inferred by conjugation counts on the operator it was inferred from']


class Leaf(object):
    """An operator that counts the calls of its user functions."""

    def __init__(self, kind, seed):
        self.calls = dict(f=0, g=0, h=0)
        M = np.array([[1., 2.], [-1., 3.]]) + seed
        S = np.array([[2., 1.], [1., 3.]]) + seed
        C = M + 1j * np.array([[1, 0], [2, -1]])
        self.counted = kind not in ('arr', 'diag', 'id', 'coo')

        def fn(key, N):
            def f(x):
                self.calls[key] += 1
                return np.dot(N, x)
            return f
        if kind == 'r':
            self.M, self.op = M, lo.LinearOperator(2, 2, fn('f', M), matvec_transp=fn('g', M.T))
        elif kind == 'ta':
            self.M, self.op = C, lo.LinearOperator(2, 2, fn('f', C), matvec_transp=fn('g', C.T), matvec_adj=fn('h', C.conj().T), dtype=complex)
        elif kind == 's':
            H = C + C.T
            self.M, self.op = H, lo.LinearOperator(2, 2, fn('f', H), matvec_adj=fn('h', H.conj()), symmetric=True, dtype=complex)
        elif kind == 'h':
            H = C + C.conj().T
            self.M, self.op = H, lo.LinearOperator(2, 2, fn('f', H), matvec_transp=fn('g', H.T), hermitian=True, dtype=complex)
        elif kind == 'sr':
            self.M, self.op = S, lo.LinearOperator(2, 2, fn('f', S), symmetric=True, hermitian=True)
        elif kind == 'arr':
            self.M, self.op = C, lo.linop_from_ndarray(C)
        elif kind == 'diag':
            self.M, self.op = np.diag(M[0]), lo.DiagonalOperator(M[0])
        elif kind == 'id':
            self.M, self.op = np.eye(2), lo.IdentityOperator(2)
        elif kind == 'coo':
            self.M, self.op = M, lo.CoordLinearOperator(M.ravel(), np.array([0, 0, 1, 1]), np.array([0, 1, 0, 1]))


def build(form, A, B):
    """-> (E, uses of A and of B per product with E)"""
    a, b = A.op, B.op
    if form == 'leaf':
        return a, (0, 0)
    if form == 'sum':
        return a + b, (1, 1)
    if form == 'self+self':
        return a + a, (2, 0)
    if form == 'diff':
        return a - b, (1, 1)
    if form == 'prod':
        return a * b, (1, 1)
    if form == 'A*A':
        return a * a, (2, 0)
    if form == 'cube':
        return a ** 3, (3, 0)
    if form == 'pow0':
        return a ** 0, (0, 0)
    if form == 'scal':
        return (2 if a.symmetric else 2 - 1j) * a, (1, 0)
    if form == 'zero':
        return 0 * a, (0, 0)
    if form == 'neg':
        return -a, (1, 0)
    if form == 'div':
        return a / 2, (1, 0)
    if form == 'nest':
        return 2 * (a + b) - a * b, (2, 2)
    if form == 'prodsum':
        return (a + b) * (a + a) ** 2, (5, 1)
    if form == 'red':
        return lo.ReducedLinearOperator(a, [1, 0], [0, 1]), (1, 0)
    if form == 'sred':
        return lo.SymmetricallyReducedLinearOperator(a, [1, 0]), (1, 0)
    if form == 'blk':
        return lo.BlockLinearOperator([[a, b]]), (1, 1)
    if form == 'blk4':
        return lo.BlockLinearOperator([[a, b], [b, a]]), (2, 2)
    if form == 'blksym':
        I = lo.IdentityOperator(2)
        return lo.BlockLinearOperator([[I, a], [I]], symmetric=True), None
    if form == 'bdi':
        return lo.BlockDiagonalLinearOperator([a, b]), (1, 1)
    if form == 'bdisame':
        return lo.BlockDiagonalLinearOperator([a, b, a]), (2, 1)
    if form == 'rblk':
        return lo.ReducedLinearOperator(lo.BlockLinearOperator([[a, b], [b, a]]), [0, 3], [1, 2]), (2, 2)
    if form in ('lb', 'fb', 'cb'):
        op = {'lb': InverseLBFGSOperator, 'fb': LBFGSOperator, 'cb': CompactLBFGSOperator}[form](2, npairs=2)
        op.store(np.array([1., 2.]), np.array([2., 1.]))
        return op, (0, 0)


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for form in FORMS:
        for k in LEAFKINDS:
            if form in ('lb', 'fb', 'cb') and k != 'r' or (form in ('zero', 'blksym') and k in ('ta', 'arr')):
                continue
            for h in itertools.product(ACTS, repeat=n):
                if tier == 'quick' and (k in ('arr', 'id', 'coo', 'diag') or form in ('neg', 'div', 'diff', 'A*A')) and h[0] in ('idle', 'bad', 'full', 'resetA', 'resetAT', 'resetE'):
                    continue
                yield [form, k, list(h)]
            for a in ('E', 'E.T', 'E.H', 'A', 'A.H', 'E.bar'):
                yield [form, k, [a] * 67]
            if k == 'r':
                for a in ('E', 'E.T', 'A'):
                    yield [form, k, [a] * 1100]


def run(ctx, case):
    form, k, hist = case
    A, B = Leaf(k, 0), Leaf(k, 1)
    E, uses = build(form, A, B)
    views = [A.op, B.op, E]
    want = {}
    objs = {}

    def bump(o, n):
        want[id(o)] = want.get(id(o), 0) + n
        objs[id(o)] = o
    for o in views:
        for w in (o, o.T, o.H):
            bump(w, 0)
    if want and any(o.nMatvec for o in objs.values()):
        ctx.fail('a new operator has a nonzero counter', form=form)
    callsA = dict(A.calls)
    off = {}
    for pos, act in enumerate(hist):
        ctx.step()
        if act in ('E', 'E.T', 'E.H', 'E.bar', 'A', 'A.T', 'A.H', 'A.bar'):
            base, _, view = act.partition('.')
            o = E if base == 'E' else A.op
            bar = view == 'bar'
            w = getattr(o, view) if view else o
            x = np.ones(w.shape[1]) + (0j if pos % 2 else 0)
            # the spellings of a product: A * x, A(x), and rmatvec for the adjoint
            if view == 'H' and pos % 2:
                o.rmatvec(x)
            elif pos % 2:
                w(x)
            else:
                w * x
            if bar:
                bump(o, 1)         # conj(A) x is made from A conj(x); for a real operator it is A itself
                if form == 'leaf' or base == 'A':
                    pass
                elif uses is None:
                    usesym(bump, A, '')
                else:
                    bump(A.op, uses[0])
                    bump(B.op, uses[1])
            else:
                bump(w, 1)
                if base == 'E' and form != 'leaf':
                    if uses is None:
                        usesym(bump, A, view)
                    else:
                        # through a view that is the operator itself the operands are used as they are
                        v = '' if w is o else view
                        bump(getattr(A.op, v) if v else A.op, uses[0])
                        bump(getattr(B.op, v) if v else B.op, uses[1])
        elif act.startswith('reset'):
            o = {'resetE': E, 'resetA': A.op, 'resetAT': A.op.T}[act]
            o.reset_counters()
            want[id(o)] = 0
        elif act == 'idle':
            2 * E
            E + E
            E * E.T
            E.T.T, E.H.H, E.bar, A.op.bar
            repr(E), E.shape, E.dtype, E.nargin, E.symmetric, E.nMatvec
            copy.copy(E)
            lo.BlockDiagonalLinearOperator([E, A.op])
            lo.ReducedLinearOperator(E, [0], [0])
            if hasattr(E, 'store'):
                E.store(np.array([1., 0.]), np.array([1., 1.]))
        elif act == 'full':
            if form == 'leaf':
                A.op.full()
                bump(A.op, 2)
            else:
                n = E.shape[1]
                E.full()
                bump(E, n)
                if uses is None:
                    for _ in range(n):
                        usesym(bump, A, '')
                else:
                    bump(A.op, n * uses[0])
                    bump(B.op, n * uses[1])
        elif act == 'bad':
            for f in (lambda: E + 'x', lambda: E + lo.ZeroOperator(9, 9), lambda: E * lo.ZeroOperator(9, 9), lambda: lo.BlockLinearOperator([[A.op, E], [lo.IdentityOperator(9), E]]), lambda: E ** -1):
                try:
                    f()
                except Exception:
                    continue
                ctx.fail('a misfit was accepted')
        if len(hist) < 10 or pos == len(hist) - 1:
            for i, o in objs.items():
                if o.nMatvec != want[i]:
                    names = [nm + v for nm, q in (('A', A.op), ('B', B.op), ('E', E)) for v, u in (('', q), ('.T', q.T), ('.H', q.H)) if u is o]
                    ctx.fail('%s has counted %r products instead of %d' % ('/'.join(names), o.nMatvec, want[i]), history=hist[:pos + 1], form=form, leaf=k)
        if len(hist) < 10:
            ctx.state(form, k, [want[i] for i in objs], act, pos)
    # the user functions saw what the counters say
    if A.counted and not any(h.startswith('reset') for h in hist):
        for key, o in (('f', A.op), ('g', A.op.T), ('h', A.op.H)):
            if key == 'f' or o is not A.op and (key == 'g' or A.op.H is not A.op.T):
                ctx.check(A.calls[key] == o.nMatvec, 'the user function %s was called %d times, the counter says %d' % (key, A.calls[key], o.nMatvec), history=hist)
    ctx.trace(form)


def usesym(bump, A, view):
    """[[I, A], [A.T, I]]: one product with A and one with its transpose; the adjoint uses their adjoints."""
    a = A.op
    if view == 'H':
        bump(a.H, 1)
        bump(a.T.H, 1)
    else:
        bump(a, 1)
        bump(a.T, 1)
