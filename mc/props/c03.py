"""C03: what the symmetric/Hermitian flags claim against the dense matrix."""
import itertools
import numpy as np
import pykrylov.linop as lo
from mc import ref
from mc.props import c01

LEAVES = c01.QUICK_LEAVES + c01.MORE + ['arr:s33', 'arr:h33', 'arr:c33', 'arr:r33', 'sred:s33', 'sred:c33', 'sred:r33', 'red:s33', 'red:h33', 'blk:r', 'blk:s',
                                         'blk:h', 'bdi:r', 'zero:3x3', 'zero:1x1', 'id:1', 'id:3', 'idc:3', 'psp:s22', 'psp:s33', 'diag:r3',
                                         'diag:c3', 'coos:s33', 'coo:s33']
SYM = ['arr:s22', 'arr:h22', 'fun:s22/s', 'fun:h22/h', 'fun:s22/sh', 'fun:cs22/s', 'id:2', 'idc:2', 'zero:2x2', 'diag:c2', 'diag:r2', 'coos:s22', 'coos:cs22',
       'psp:s22', 'blk:2', 'bdi:2', 'lb:i', 'lb:f', 'lb:c', 'arr:r22', 'arr:c22', 'sred:h33', 'sred:c33', 'arr:i22', 'red:r32']
BOUNDS = dict(leaves=len(LEAVES), expressions='depth 1 over all leaves, depth 2 over %d square operators, depth 3 in thorough' % len(SYM),
              blocks='every 2x2 and 3x3 symmetric/Hermitian/plain/diagonal block operator over an alphabet of truthful blocks',
              lbfgs='every class, 0..3 pairs, scaling on/off')
ASSUMPTIONS = ['operands are truthfully flagged']
UN = c01.unary(['2', '1j', '0', '2-1j', 'f8:2', '-1', '0j'], ['2', '2j'], [0, 1, 2, 3])
OPS = ('add', 'sub', 'mul')
B1 = ['arr:r11', 'arr:c11', 'id:1', 'diag1']
BL = {'s': ['arr:s22', 'fun:cs22/s', 'diag:c2', 'id:2', 'zero:2x2', 'arr:cs22'], 'h': ['arr:h22', 'arr:s22', 'diag:r2', 'idc:2', 'fun:h22/h'],
      'off': ['arr:r22', 'arr:c22', 'arr:h22', 'zero:2x2', 'arr:cs22']}


def cases(tier):
    for l in LEAVES:
        yield ['e', l]
    for l in LEAVES:
        for u in UN:
            yield ['e', u + [l]]
    for a, b in itertools.product(LEAVES, LEAVES):
        for o in OPS:
            if c01.fits(o, a, b):
                yield ['e', [o, a, b]]
    d1 = [u + [l] for l in SYM for u in UN] + [[o, a, b] for a in SYM for b in SYM for o in OPS]
    for e in d1:
        for u in UN[:8] + [['pow', 2]]:
            yield ['e', u + [e]]
    few = ['arr:s22', 'arr:h22', 'fun:cs22/s', 'diag:c2', 'arr:r22', 'id:2']
    for e in d1:
        for l in (few if tier == 'quick' else SYM):
            for o in OPS:
                yield ['e', [o, e, l]]
    for kind in ('plain', 'sym', 'her', 'both', 'diag', 'dsym', 'dher'):
        for a, d in itertools.product(BL['s'] + BL['h'] + BL['off'], repeat=2):
            for b in (BL['off'] if kind[0] != 'd' else ['-']):
                yield ['blk', kind, [a, b, d]]
    if tier == 'thorough':
        for kind in ('sym', 'her'):
            k = kind[0]
            for dd in itertools.product(BL[k][:4], repeat=3):
                for oo in itertools.product(BL['off'][:4], repeat=3):
                    yield ['blk3', kind, list(dd) + list(oo)]
        for e in d1:
            for f in d1[::7]:
                for o in OPS:
                    yield ['e', [o, e, f]]
    for cls in ('InverseLBFGSOperator', 'LBFGSOperator', 'CompactLBFGSOperator', 'StructuredLBFGSOperator'):
        for k in range(4):
            for scaling in (False, True):
                yield ['lb', cls, k, scaling]


def judge(ctx, op, M, tol):
    M = np.asarray(M)
    sq = M.shape[0] == M.shape[1]
    sym, her = sq and ref.close(M, M.T, tol), sq and ref.close(M, M.conj().T, tol)
    for name, o, s, h in (('', op, sym, her), ('.T', op.T, sym, her), ('.H', op.H, sym, her), ('.bar', op.bar, sym, her)):
        ctx.step()
        if o is None:
            continue
        ctx.check(not o.symmetric or s, 'E%s claims to be symmetric' % name, matrix=M)
        ctx.check(not o.hermitian or h, 'E%s claims to be Hermitian' % name, matrix=M)
        if o.symmetric:
            ctx.check(o.T is o, 'E%s is symmetric but its transpose is another operator' % name)
        if o.hermitian:
            ctx.check(o.H is o, 'E%s is Hermitian but its adjoint is another operator' % name)
        if name == '' and (o.symmetric or o.hermitian):
            ctx.check(ref.close(o.full(), M, tol), 'E is not the expected matrix', got=o.full(), matrix=M)
    ctx.trace('symmetric=%d hermitian=%d' % (bool(op.symmetric), bool(op.hermitian)))


def run(ctx, case):
    kind = case[0]
    if kind == 'e':
        if c01.shape(case[1]) is None:
            return
        op, M = c01.build(ctx, case[1])
        ctx.state(case[1])
        judge(ctx, op, M, 1e-4 if 'f22' in repr(case[1]) else 1e-9)
    elif kind == 'blk':
        k, (a, b, d) = case[1], case[2]
        (A, MA), (D, MD) = ref.leaf(a), ref.leaf(d)
        if k[0] == 'd':
            kw = {'diag': {}, 'dsym': {'symmetric': True}, 'dher': {'hermitian': True}}[k]
            Z = np.zeros((2, 2))
            build = lambda: (lo.BlockDiagonalLinearOperator([A, D], **kw), np.block([[MA, Z], [Z, MD]]))
            fine = k == 'diag' or (k == 'dsym' and A.symmetric and D.symmetric) or (k == 'dher' and A.hermitian and D.hermitian)
        else:
            B, MB = ref.leaf(b)
            if k == 'plain':
                C, MC = B.T, MB.T
                build = lambda: (lo.BlockLinearOperator([[A, B], [C, D]]), np.block([[MA, MB], [MC, MD]]))
                fine = True
            else:
                kw = {'sym': {'symmetric': True}, 'her': {'hermitian': True}, 'both': {'symmetric': True, 'hermitian': True}}[k]
                low = MB.T if k in ('sym', 'both') else MB.conj().T
                if k == 'both' and np.iscomplexobj(MB):
                    return
                build = lambda: (lo.BlockLinearOperator([[A, B], [D]], **kw), np.block([[MA, MB], [low, MD]]))
                fine = (k == 'her' or (A.symmetric and D.symmetric)) and (k == 'sym' or (A.hermitian and D.hermitian))
        try:
            op, M = build()
        except Exception as e:
            ctx.check(not fine, 'truthful blocks were refused: %r' % e)
            ctx.trace('refused')
            ctx.state('refused', case)
            return
        ctx.state(case)
        judge(ctx, op, M, 1e-9)
    elif kind == 'blk3':
        k, names = case[1], case[2]
        ops = [ref.leaf(n) for n in names]
        (a, A), (b, B), (c, C), (p, P), (q, Q), (r, R) = ops
        t = (lambda X: X.T) if k == 'sym' else (lambda X: X.conj().T)
        op = lo.BlockLinearOperator([[a, p, q], [b, r], [c]], **{'symmetric' if k == 'sym' else 'hermitian': True})
        ctx.state(case)
        judge(ctx, op, np.block([[A, P, Q], [t(P), B, R], [t(Q), t(R), C]]), 1e-9)
    else:
        _, cls, k, scaling = case
        op = getattr(lo.lbfgs if hasattr(lo, 'lbfgs') else __import__('pykrylov.linop.lbfgs', fromlist=['x']), cls)(3, npairs=2, scaling=scaling)
        S = [np.array([1., 0, 1]), np.array([0., 2, 1]), np.array([1., -1, 1])]
        G = np.array([[3., 1, 0], [1, 2, .5], [0, .5, 1]])
        for s in S[:k]:
            y = G.dot(s)
            if cls.startswith('Structured'):
                op.store(s, y, 0.9 * y)
            else:
                op.store(s, y)
            ctx.step()
        ctx.state(case)
        judge(ctx, op, op.full(), 1e-9)
        e = [s for s in S]
        M = op.full()
        ctx.check(ref.close(M, M.T, 1e-9), '%s is not symmetric' % cls, matrix=M)
