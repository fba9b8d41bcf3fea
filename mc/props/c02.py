"""C02: the graph of transpose / adjoint / conjugate views, explored breadth first."""
import itertools
import numpy as np
import pykrylov.linop as lo
from mc import ref

REALS = ['r22', 'i22', 's22', 'r23', 'r32', 'f22', 'r11', 'r31', 's33']
CPLX = ['c22', 'h22', 'cs22', 'c23', 'c32', 'c11', 'c13', 'h33', 'c33']
LEAVES = ['arr:r22', 'arr:i22', 'arr:c22', 'arr:s22', 'arr:h22', 'arr:c23', 'arr:r31', 'id:2', 'idc:2', 'zero:2x2', 'zero:2x3',
          'diag:r2', 'diag:c2', 'diag:i2', 'coo:r23', 'coo:c22', 'coos:s22', 'coos:cs22', 'psp:r22', 'psp:s22', 'red:c23',
          'red:r32', 'sred:h33', 'sred:s33', 'sred:c33', 'blk:r', 'blk:s', 'blk:h', 'blk:2', 'bdi:r', 'bdi:2', 'lb:i', 'lb:f', 'lb:c']
BOUNDS = dict(descriptions='every truthful subset of {transpose, adjoint, symmetric, hermitian} for %d matrices' % (len(REALS) + len(CPLX)),
              words='every word over T, H, bar up to length 7 (quick) / 9 (thorough), merged by (object, group element)',
              operands='%d constructors; every depth-1 expression (and depth 2 in thorough)' % len(LEAVES))
ASSUMPTIONS = ['the user functions describe one matrix truthfully']


def truthful(name):
    M = ref.MAT[name]
    sq = M.shape[0] == M.shape[1]
    opt = ['t', 'a']
    if sq and np.array_equal(M, M.T):
        opt.append('s')
    if sq and np.array_equal(M, M.conj().T):
        opt.append('h')
    for k in range(len(opt) + 1):
        for s in itertools.combinations(opt, k):
            yield ''.join(s)


PART = ['fun:r22/', 'fun:c22/', 'fun:c22/t', 'fun:c22/a', 'fun:c22/ta', 'fun:h22/h', 'fun:cs22/s', 'fun:r22/t', 'fun:s22/s', 'diag:c2', 'arr:r22']


def cases(tier):
    d = 7 if tier == 'quick' else 9
    for n in REALS + CPLX:
        for how in truthful(n):
            yield ['leaf', 'fun:%s/%s' % (n, how), d]
    for l in LEAVES:
        yield ['leaf', l, d]
    ed = 5 if tier == 'quick' else 7
    for a, b in itertools.product(PART, PART):
        for o in ('add', 'sub', 'mul'):
            yield ['expr', o, a, b, ed]
    for a in PART + LEAVES:
        for o in ('2', '1j', '0', 'neg', 'pow2', 'pow3', 'div'):
            yield ['expr', o, a, None, ed]
    for first in ('T', 'H', 'bar'):
        for a, b in itertools.product(PART, PART):
            for o in ('add', 'mul'):
                yield ['expr', o, first + ' ' + a, b, ed]
    for a in ref.EMPTY:
        yield ['leaf', a, 4]
    for n in (17, 64, 101, 130):
        for k in ref.BIG:
            yield ['leaf', 'big:%s:%d' % (k, n), 3]
    if tier == 'thorough':
        for f, g in itertools.product(('T', 'H', 'bar'), repeat=2):
            for a, b in itertools.product(PART + ['arr:c23', 'arr:c32', 'blk:h', 'red:c23'], repeat=2):
                for o in ('add', 'sub', 'mul'):
                    yield ['expr', o, f + ' ' + a, g + ' ' + b, ed]


def known(spec):
    """Is the transpose/adjoint determined by what this operator was told?"""
    return not (spec.startswith('fun:') and spec.endswith('/'))


def operand(ctx, s):
    view, _, l = s.rpartition(' ')
    op, M = ref.leaf(l)
    if view:
        op, M = getattr(op, view), {'T': M.T, 'H': M.conj().T, 'bar': M.conj()}[view]
    return op, M, known(l)


# group element -> transform
EL = {'1': lambda M: M, 'T': lambda M: M.T, 'H': lambda M: M.conj().T, 'bar': lambda M: M.conj()}
MUL = {('1', 'T'): 'T', ('1', 'H'): 'H', ('1', 'bar'): 'bar', ('T', 'T'): '1', ('T', 'H'): 'bar', ('T', 'bar'): 'H',
       ('H', 'T'): 'bar', ('H', 'H'): '1', ('H', 'bar'): 'T', ('bar', 'T'): 'H', ('bar', 'H'): 'T', ('bar', 'bar'): '1'}


def explore(ctx, op, M, depth, tol):
    """Breadth first over (object, group element)."""
    seen = {(id(op), '1')}
    keep = [op]
    frontier = [(op, '1', '')]
    for d in range(depth + 1):
        nxt = []
        for o, g, path in frontier:
            N = EL[g](M)
            ctx.state('view', ctx.case, path)
            msg = ref.acts_as(o, N, tol, step=ctx.step)
            ctx.check(not msg, 'A%s: %s' % (path, msg))
            z = np.arange(1., N.shape[0] + 1) * (1 - 1j)
            ctx.check(ref.close(o.rmatvec(z.copy()), np.dot(N.conj().T, z), tol), 'A%s.rmatvec is not the adjoint product' % path)
            ctx.check(ref.close(o(np.ones(N.shape[1])), N.sum(axis=1), tol), 'A%s(x) is not A%s*x' % (path, path))
            ctx.trace('view')
            if d == depth:
                continue
            for v in ('T', 'H', 'bar'):
                w = getattr(o, v)
                ctx.step()
                ctx.check(w is not None, 'A%s.%s is missing' % (path, v))
                if v != 'bar' and set(path.split('.')) <= {'', v}:
                    ctx.check(getattr(w, v) is o, 'A%s.%s.%s is not the operator A%s itself' % (path, v, v, path))
                h = MUL[(g, v)]
                keep.append(w)
                if (id(w), h) not in seen:
                    seen.add((id(w), h))
                    nxt.append((w, h, path + '.' + v))
        frontier = nxt
        # `bar' makes a new object each time: past depth 4 follow one object per element and access path tail
        if d >= 3:
            best = {}
            for o, g, path in nxt:
                best.setdefault((g, tuple(path.split('.')[-3:])), (o, g, path))
            frontier = list(best.values())


def missing(ctx, op, M, depth, tol):
    """Nothing is known about the transpose: products work, the rest is reported missing."""
    for path, o, N in (('A', op, M), ('A.bar', op.bar, M.conj()), ('A.bar.bar', op.bar.bar, M)):
        msg = ref.acts_as(o, N, tol, step=ctx.step)
        ctx.check(not msg, '%s: %s' % (path, msg))
        ctx.check(o.T is None and o.H is None, '%s: a transpose or adjoint that cannot be known is offered' % path)
        ctx.state('missing', ctx.case, path)
        ctx.trace('missing')


def run(ctx, case):
    if case[0] == 'leaf':
        op, M = ref.leaf(case[1])
        tol = 1e-4 if 'f22' in case[1] else 1e-9
        (explore if known(case[1]) else missing)(ctx, op, M, case[2], tol)
        return
    o, a, b, depth = case[1:]
    va = a.rpartition(' ')
    if va[0] in ('T', 'H') and not known(va[2]):
        ctx.check(operand(ctx, a)[0] is None, 'unknown transpose offered')
        return
    vb = b.rpartition(' ') if b else ('', '', '')
    if vb[0] in ('T', 'H') and not known(vb[2]):
        return
    A, M, k = operand(ctx, a)
    if b is not None:
        B, N, k2 = operand(ctx, b)
        k = k and k2
        if (o == 'mul' and M.shape[1] != N.shape[0]) or (o != 'mul' and M.shape != N.shape):
            return
        op, M = {'add': lambda: (A + B, M + N), 'sub': lambda: (A - B, M - N), 'mul': lambda: (A * B, np.dot(M, N))}[o]()
    else:
        if o.startswith('pow') and M.shape[0] != M.shape[1]:
            return
        op, M = {'2': lambda: (2 * A, 2 * M), '1j': lambda: (A * 1j, 1j * M), '0': lambda: (0 * A, 0 * M), 'neg': lambda: (-A, -M),
                 'pow2': lambda: (A ** 2, np.linalg.matrix_power(M, 2)), 'pow3': lambda: (A ** 3, np.linalg.matrix_power(M, 3)),
                 'div': lambda: (A / 2, M / 2.)}[o]()
        if o == '0':
            k = True
    ctx.step()
    if k:
        explore(ctx, op, M, depth, 1e-9)
        return
    # the transpose of an operand is unknown: the expression works, its transpose never gives a value
    for path, p, N in (('E', op, M), ('E.bar', op.bar, M.conj())):
        msg = ref.acts_as(p, N, 1e-9, step=ctx.step)
        ctx.check(not msg, '%s: %s' % (path, msg))
    for v in ('T', 'H'):
        w = getattr(op, v)
        if w is None:
            continue
        for z in (np.ones(M.shape[0]), np.ones(M.shape[0]) * 1j):
            try:
                y = w * z
            except Exception:
                continue
            ctx.fail('E.%s gives %r although the transpose of an operand is unknown' % (v, y))
    ctx.trace('unknown transpose refused')
    ctx.state('unknown', case)
