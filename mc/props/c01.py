"""C01: operator expressions against dense matrix expressions."""
import itertools
import numpy as np
import pykrylov.linop as lo
from mc import ref

QUICK_LEAVES = ['arr:r22', 'arr:c22', 'fun:c22/t', 'fun:c22/a', 'fun:r22/t', 'arr:s22', 'arr:h22', 'fun:cs22/s', 'id:2', 'zero:2x2',
                'diag:c2', 'arr:i22', 'arr:r23', 'arr:c23', 'arr:c32', 'zero:2x3']
MORE = ['fun:s22/s', 'fun:h22/h', 'fun:s22/sh', 'fun:c22/ta', 'fun:r22/a', 'idc:2', 'diag:r2', 'diag:i2', 'coo:r22', 'coo:c22', 'coos:s22',
        'coos:cs22', 'psp:r22', 'red:c23', 'red:r32', 'sred:h33', 'blk:2', 'bdi:2', 'lb:i', 'lb:f', 'lb:c', 'arr:f22',
        'fun:c23/t', 'fun:c23/a', 'fun:r32/t', 'arr:r32', 'arr:r11', 'arr:c11', 'arr:r13', 'arr:r31', 'arr:c13']
SCALARS = {'0': 0, '1': 1, '-1': -1, '2': 2, '0.5': 0.5, '-1.5': -1.5, '0j': 0j, '1j': 1j, '2-1j': 2 - 1j,
           'f8:2': np.float64(2), 'i8:3': np.int64(3), 'c16': np.complex128(1 + 2j), 'f4': np.float32(0.25), 'True': True}
SC2 = ['2', '1j', '0', '2-1j', 'f8:2']
DIV = {'2': 2, '-4': -4, '0.5': 0.5, '2j': 2j, 'f8:4': np.float64(4), 'i8:2': np.int64(2), '3': 3, '1-1j': 1 - 1j}
D2 = ['2', '2j']
SIZES = [16, 33, 65, 130]
BOUNDS = dict(leaves=len(QUICK_LEAVES) + len(MORE), depth='1 over all leaves, 2 over %d leaves (quick) or all (thorough), powers to 6, chains of depth up to 12; sizes 0 and 16..130 over %d constructors, depth 1'
              % (len(QUICK_LEAVES), len(ref.BIG)), scalars=sorted(SCALARS), divisors=sorted(DIV), vectors='all basis vectors, one real, one complex')


def unary(sc, dv, pw):
    out = [['neg'], ['T'], ['H'], ['bar']]
    for s in sc:
        out += [['lmul', s], ['rmul', s]]
    for d in dv:
        out += [['div', d], ['cdiv', d]]
    out += [['pow', k] for k in pw]
    return out


U1 = unary(list(SCALARS), list(DIV), [0, 1, 2, 3, 4, 6])
U2 = unary(SC2, D2, [0, 1, 2, 3])


def cases(tier):
    leaves = QUICK_LEAVES + MORE
    for l in leaves:
        yield l
    for l in leaves:
        for u in U1:
            yield u + [l]
    for a, b in itertools.product(leaves, leaves):
        for o in ('add', 'sub', 'mul'):
            yield [o, a, b]
    inner = QUICK_LEAVES if tier == 'quick' else leaves
    d1 = [u + [l] for l in inner for u in (U2 if tier == 'quick' else U1)]
    d1 += [[o, a, b] for a in inner for b in inner for o in ('add', 'sub', 'mul') if fits(o, a, b)]
    for e in d1:
        for u in U2:
            yield u + [e]
    outer = inner if tier == 'thorough' else inner[:4] + ['diag:c2', 'arr:r23', 'arr:c32', 'arr:h22']
    for e in d1:
        for l in outer:
            for o in ('add', 'sub', 'mul'):
                if fits(o, e, l):
                    yield [o, e, l]
                if fits(o, l, e):
                    yield [o, l, e]
    # any size
    for a in ref.EMPTY:
        yield a
        for u in U1:
            yield u + [a]
        for b in ref.EMPTY + ['arr:r22', 'diag:c2']:
            for o in ('add', 'sub', 'mul'):
                yield [o, a, b]
                yield [o, b, a]
    for n in SIZES if tier == 'quick' else SIZES + [48, 64, 100, 128, 257]:
        kinds = ['big:%s:%d' % (k, n) for k in ref.BIG]
        for l in kinds:
            yield l
            for u in (['neg'], ['T'], ['H'], ['bar'], ['lmul', '1j'], ['rmul', '0.5'], ['div', '2'], ['pow', 2], ['pow', 3]):
                yield u + [l]
        for i, l in enumerate(kinds):
            for k in (0, 1, 5):
                for o in ('add', 'sub', 'mul'):
                    yield [o, l, kinds[(i + k) % len(kinds)]]
    # long chains: the same operation piled up
    for l in QUICK_LEAVES[:12]:
        for step in (['neg'], ['T'], ['H'], ['bar'], ['lmul', '1j'], ['div', '2']):
            for n in (3, 5, 8, 12):
                e = l
                for _ in range(n):
                    e = step + [e]
                yield e
    if tier == 'thorough':
        small = QUICK_LEAVES[:6] + ['diag:c2', 'arr:r23', 'arr:c32']
        e1 = [u + [l] for l in small for u in unary(['1j'], ['2'], [2])]
        e1 += [[o, a, b] for a in small for b in small for o in ('add', 'sub', 'mul') if fits(o, a, b)]
        for a, b in itertools.product(e1, e1):
            for o in ('add', 'sub', 'mul'):
                if fits(o, a, b):
                    yield [o, a, b]


_shape = {}


def shape(e):
    if isinstance(e, str):
        if e not in _shape:
            _shape[e] = ref.leaf(e)[1].shape
        return _shape[e]
    o = e[0]
    if o in ('add', 'sub'):
        a, b = shape(e[1]), shape(e[2])
        return a if a == b else None
    if o == 'mul':
        a, b = shape(e[1]), shape(e[2])
        return (a[0], b[1]) if a and b and a[1] == b[0] else None
    s = shape(e[-1])
    if s is None:
        return None
    if o in ('T', 'H'):
        return (s[1], s[0])
    if o == 'pow':
        return s if s[0] == s[1] else None
    return s


def fits(o, a, b):
    return shape([o, a, b]) is not None


def build(ctx, e):
    if isinstance(e, str):
        return ref.leaf(e)
    o = e[0]
    if o in ('add', 'sub', 'mul'):
        (a, A), (b, B) = build(ctx, e[1]), build(ctx, e[2])
        ctx.step()
        if o == 'add':
            return a + b, A + B
        if o == 'sub':
            return a - b, A - B
        return a * b, np.dot(A, B)
    a, A = build(ctx, e[-1])
    ctx.step()
    if o == 'neg':
        return -a, -A
    if o == 'T':
        return a.T, A.T
    if o == 'H':
        return a.H, A.conj().T
    if o == 'bar':
        return a.bar, A.conj()
    if o == 'lmul':
        return SCALARS[e[1]] * a, SCALARS[e[1]] * A
    if o == 'rmul':
        return a * SCALARS[e[1]], A * SCALARS[e[1]]
    if o == 'div':
        return a / DIV[e[1]], A / DIV[e[1]]
    if o == 'cdiv':       # classic (Python 2) division, same meaning for operators
        return a.__div__(DIV[e[1]]), A / DIV[e[1]]
    if o == 'pow':
        return a ** e[1], np.linalg.matrix_power(A, e[1])
    raise ValueError(o)


def run(ctx, e):
    if shape(e) is None:
        return
    op, M = build(ctx, e)
    ctx.state(e)
    tol = 1e-4 if 'f22' in repr(e) or "'f4'" in repr(e) else 1e-9
    msg = ref.views_act(op, np.asarray(M), tol, step=ctx.step, full=isinstance(e, str))
    ctx.sample(dict(expression=e, matrix=M))
    ctx.check(not msg, '%s' % msg, expression=e)
    ctx.trace('%dx%d %s' % (op.shape[0], op.shape[1], 'complex' if np.iscomplexobj(M) else 'real'))
