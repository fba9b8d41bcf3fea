"""C18: solves have no side effects."""
import itertools
import logging
import numpy as np
import pykrylov.linop as lo
from mc import sq, core

BOUNDS = dict(options='every subset of each solver\'s options (guess, preconditioner, store_iterates, store_resids, check options, shift, damping, weights, small budget, low-level logger)',
              systems='trivial (zero right-hand side), one-dimensional, definite, indefinite, singular, identity and diagonal operators, integer/float32/float64 data, strided views, read-only arrays; sizes 1..7; least squares: 4 shapes',
              checked='bytes of every caller array, numpy random state, captured stdout, memory overlap of every returned array with caller and operator data')
ASSUMPTIONS = ['operators are LinearOperator objects']

OPTS = dict(
    cg=('guess', 'precon', 'store_iterates', 'store_resids', 'check_symmetric', 'nocurv', 'budget'),
    cgs=('guess', 'precon', 'budget'), bicgstab=('guess', 'precon', 'budget'), tfqmr=('guess', 'precon', 'budget'),
    minres=('precon', 'shift', 'check', 'store_iterates', 'store_resids', 'budget'),
    symmlq=('precon', 'shift', 'check', 'store_iterates', 'budget'),
    lsqr=('damp', 'M', 'N', 'wantvar', 'store_iterates', 'store_resids', 'budget'),
    lsmr=('damp', 'M', 'N', 'store_iterates', 'store_resids', 'budget'),
    craig=('M', 'N', 'store_iterates', 'store_resids', 'budget'),
    craigmr=('M', 'N', 'store_iterates', 'store_resids', 'budget'))

SYSTEMS = ('spd', 'indef', 'sing', 'ident', 'diag', 'zero', 'one', 'int', 'f32', 'big', 'reuse')
LSYS = ('tall', 'wide', 'square', 'rank', 'lint', 'orth')


def cases(tier):
    for name in sq.ALL + sq.LS:
        k = OPTS[name]
        for mask in itertools.product((0, 1), repeat=len(k)):
            yield [name, [o for o, v in zip(k, mask) if v]]


class Ident(object):
    pass


def system(kind):
    """(operator, arrays owned by it, right-hand side values, n or (m, n))"""
    if kind in LSYS:
        A = dict(tall=np.array([[1., 2], [0, 1], [3, -1], [1, 1]]), wide=np.array([[1., 0, 2], [2, 1, 0]]), square=np.array([[1., 2, 0], [0, 3, 1], [1, 0, 1]]),
                 rank=np.array([[1., 2], [2, 4], [1, 2]]), lint=np.array([[1, 2], [0, 1], [3, -1]]), orth=np.array([[1., 0], [0, 0]]))[kind]
        b = dict(orth=[0., 1.]).get(kind, np.array([1, -2, 2, 1])[:A.shape[0]])
        return lo.LinearOperator(A.shape[1], A.shape[0], lambda x: np.dot(A, x), matvec_transp=lambda x: np.dot(A.T, x), dtype=A.dtype), [A], np.array(b), A.shape[1]
    n = 3
    if kind == 'spd':
        A = np.array([[4., 1, 0], [1, 3, -1], [0, -1, 2]])
    elif kind == 'indef':
        A = np.array([[1., 2, 0], [2, -1, 1], [0, 1, 1]])
    elif kind == 'sing':
        A = np.array([[1., 1, 0], [1, 1, 0], [0, 0, 0]])
    elif kind == 'int':
        A = np.array([[4, 1, 0], [1, 3, -1], [0, -1, 2]])
    elif kind == 'f32':
        A = np.array([[4, 1, 0], [1, 3, -1], [0, -1, 2]], dtype=np.float32)
    elif kind == 'one':
        A, n = np.array([[2.]]), 1
    elif kind == 'big':
        A, n = sq.big('lap', 7), 7
    elif kind == 'zero':
        A = np.array([[4., 1, 0], [1, 3, -1], [0, -1, 2]])
    elif kind == 'ident':
        return lo.IdentityOperator(3), [], np.array([1., -2, 1]), 3
    elif kind == 'diag':
        d = np.array([1., 2., 5.])
        return lo.DiagonalOperator(d), [d], np.array([1., -2, 1]), 3
    elif kind == 'reuse':
        # the product function writes into a buffer of its own and returns it
        A = np.array([[4., 1, 0], [1, 3, -1], [0, -1, 2]])
        buf = np.zeros(3)

        def mv(x):
            buf[:] = np.dot(A, x)
            return buf
        return lo.LinearOperator(3, 3, mv, symmetric=True), [A], np.array([1., -2, 1]), 3
    op = lo.LinearOperator(n, n, lambda x: np.dot(A, x), symmetric=True, dtype=A.dtype)
    b = np.zeros(n) if kind == 'zero' else np.array([1, -2, 1, 0, 3, 1, 2][:n], dtype=A.dtype)
    return op, [A], b, n


def run(ctx, case):
    name, opts = case
    for kind in (LSYS if name in sq.LS else SYSTEMS):
        for layout in ('plain', 'strided', 'readonly'):
            one(ctx, name, opts, kind, layout)


def lay(v, layout):
    """(vector given to the solver, array that owns its memory)"""
    if layout == 'strided':
        base = np.full(2 * len(v) + 1, 7, dtype=v.dtype)
        base[1::2] = v
        return base[1::2], base
    w = v.copy()
    if layout == 'readonly':
        w.flags.writeable = False
    return w, w


def one(ctx, name, opts, kind, layout):
    op, own, b, n = system(kind)
    m = len(b)
    caller = list(own)
    b, base = lay(b, layout)
    caller.append(base)
    kw, ctor = {}, {}
    log = logging.getLogger('mc.c18')
    log.propagate = False
    if not log.handlers:
        log.addHandler(logging.NullHandler())
    log.setLevel(logging.DEBUG)
    ctor['logger'] = log
    if 'guess' in opts:
        gv, gb = lay(np.array([2., 0, 1, 1, 1, 1, 0][:n]), layout)
        kw['guess'] = gv
        caller.append(gb)
    d = np.array([2., 1., 3., 1, 2, 1, 1])
    if 'precon' in opts:
        D = d[:n].copy()
        caller.append(D)
        ctor['precon'] = lo.DiagonalOperator(D) if kind != 'ident' else lo.IdentityOperator(n)
    for w, size in (('M', m), ('N', n)):
        if w in opts:
            D = d[:size].copy()
            caller.append(D)
            kw[w] = lo.DiagonalOperator(D) if kind != 'square' else lo.IdentityOperator(size)
    if 'damp' in opts:
        kw['damp'] = .5
    for o in ('store_iterates', 'store_resids', 'check_symmetric', 'wantvar'):
        if o in opts:
            kw[o] = True
    if 'nocurv' in opts:
        kw['check_curvature'] = False
    if 'shift' in opts:
        kw['shift'] = .5
    if name in ('minres', 'symmlq'):
        kw['check'] = 'check' in opts
    bud = 2 if 'budget' in opts else None
    before = [c.tobytes() for c in caller]
    np.random.seed(5)
    st = np.random.get_state()
    with core.quiet() as out:
        s = sq.make(name, op, **ctor)
        sq.solve(name, s, b, bud, **kw)
    info = dict(solver=name, options=opts, system=kind, layout=layout)
    after = np.random.get_state()
    ctx.step()
    ctx.check([c.tobytes() for c in caller] == before, 'a caller\'s array was modified', which=[i for i, c in enumerate(caller) if c.tobytes() != before[i]], **info)
    ctx.check((st[1] == after[1]).all() and st[2:] == after[2:], 'numpy\'s global random state changed', **info)
    ctx.check(out.getvalue() == '', 'wrote to standard output', text=out.getvalue()[:100], **info)
    arrays = {}
    for k in sq.PUBLIC:
        v = getattr(s, k, None)
        if isinstance(v, np.ndarray):
            arrays[k] = v
        elif isinstance(v, list):
            for i, w in enumerate(v):
                if isinstance(w, np.ndarray):
                    arrays['%s[%d]' % (k, i)] = w
    if not ('check_symmetric' in opts and s.x is None):
        ctx.check('x' in arrays, 'no solution', **info)
    # overwriting everything returned must leave the caller alone, and the other results too
    for k, v in arrays.items():
        if not v.flags.writeable:
            continue
        for c in caller:
            ctx.check(not np.may_share_memory(v, c), 'result %s shares memory with a caller\'s array' % k, **info)
    vals = dict((k, v.copy()) for k, v in arrays.items())
    for k in list(arrays):
        if k in ('x', 'bestSolution') or not arrays[k].flags.writeable:
            continue
        arrays[k].fill(-77)
        for j in arrays:
            if j != k and not (arrays[j] == -77).all():
                ctx.check(sq.same(arrays[j], vals[j]), 'results %s and %s share memory' % (k, j), **info)
    ctx.check([c.tobytes() for c in caller] == before, 'overwriting results changed a caller\'s array', **info)
    # the operator still acts as before
    ctx.state(name, tuple(opts), kind, layout)
    ctx.trace('%s' % name)
