"""C06: block layouts against the assembled matrix."""
import itertools
import numpy as np
import pykrylov.linop as lo
from mc import ref

KINDS = ['arr', 'carr', 'fun', 'cfa', 'zero', 'coo', 'scal', 'prod', 'view', 'sum', 'sq']
BOUNDS = dict(layouts='all row/column partitions into up to 3 parts of sizes 1..2 with rotating kinds; every kind assignment to 2x2 layouts of sizes 1..2 over 5 kinds (quick) '
              'or all (thorough); layouts with empty block rows or columns; symmetric, Hermitian and block-diagonal layouts up to 4 (quick) / 5 (thorough) block rows; nesting to depth 2; up to 7 block rows of one entry',
              misfits='every assignment of shapes from 1..3 x 1..3 to 2x2 layouts and of flags to triangular ones; ragged layouts of up to 3 rows',
              indices='every integer, slice and list index of 3x3 block operators')


def block(kind, m, n, seed):
    """A truthful operator of shape m x n and its matrix."""
    M = ((np.arange(m * n).reshape(m, n) * 7 + seed * 5) % 11 - 5.)
    if kind == 'arr':
        return lo.linop_from_ndarray(M), M
    C = M + 1j * ((np.arange(m * n).reshape(m, n) * 3 + seed) % 5 - 2)
    if kind == 'carr':
        return lo.linop_from_ndarray(C), C
    if kind == 'fun':
        return lo.LinearOperator(n, m, ref.mv(M), matvec_transp=ref.mv(M.T)), M
    if kind == 'cfa':
        return lo.LinearOperator(n, m, ref.mv(C), matvec_adj=ref.mv(C.conj().T), dtype=complex), C
    if kind == 'zero':
        return lo.ZeroOperator(n, m), np.zeros((m, n))
    if kind == 'coo':
        r, c = np.indices(M.shape)
        return lo.CoordLinearOperator(M.ravel(), r.ravel(), c.ravel(), nargin=n, nargout=m), M
    if kind == 'scal':
        return 1j * lo.linop_from_ndarray(M), 1j * M
    if kind == 'prod':
        return lo.linop_from_ndarray(M) * lo.linop_from_ndarray(C.T) * lo.linop_from_ndarray(M), np.dot(M, np.dot(C.T, M))
    if kind == 'view':
        return lo.linop_from_ndarray(C.T).T, C
    if kind == 'sum':
        return lo.linop_from_ndarray(M) + lo.linop_from_ndarray(C), M + C
    if kind == 'sq':
        if m != n:
            return block('arr', m, n, seed)
        return lo.DiagonalOperator(M[0] + 1), np.diag(M[0] + 1)
    if kind == 'int':
        return lo.linop_from_ndarray(M.astype(int)), M.astype(int)
    if kind == 'id':
        if m != n:
            return block('zero', m, n, seed)
        return lo.IdentityOperator(n), np.eye(n)
    if kind == 's':
        S = M + M.T
        return lo.linop_from_ndarray(S, symmetric=True), S
    if kind == 'cs':
        S = C + C.T
        return lo.linop_from_ndarray(S, symmetric=True), S
    if kind == 'h':
        S = C + C.conj().T
        return lo.linop_from_ndarray(S, hermitian=True), S
    raise ValueError(kind)


def same(n):
    return list(itertools.product((1, 2), repeat=n))


PARTS = same(1) + same(2) + same(3)


def cases(tier):
    for rows in PARTS:
        for cols in PARTS:
            for off in range(0, len(KINDS), 2 if tier == 'quick' else 1):
                for cls in ('blk', 'prec'):
                    yield ['layout', cls, list(rows), list(cols), off]
    few = KINDS[:2] + ['cfa', 'zero', 'id'] if tier == 'quick' else KINDS + ['id', 'int']
    for rows in ((1, 1), (1, 2), (2, 1), (2, 2)):
        for cols in ((1, 2), (2, 2)):
            for ks in itertools.product(few, repeat=4):
                if tier == 'thorough' and len(set(ks)) > 3:
                    continue
                yield ['kinds', list(rows), list(cols), list(ks)]
    for rows in ((0, 2), (2, 0), (0, 0), (1, 0)):
        for cols in ((0, 2), (1, 0), (2, 1)):
            for ks in itertools.product(('arr', 'cfa', 'zero'), repeat=4):
                yield ['kinds', list(rows), list(cols), list(ks)]
                if rows != (0, 0):
                    yield ['kinds', list(cols), list(rows), list(ks)]
    top = 4 if tier == 'quick' else 5
    for k in range(1, top + 1):
        for sizes in itertools.product((1, 2), repeat=k):
            for mode in ('sym', 'her', 'csym', 'diag', 'dsym', 'dher', 'pdiag', 'ddrect'):
                yield ['tri', mode, list(sizes)]
    for k in (6, 7):
        yield ['layout', 'blk', [1] * k, [1] * k, 0]
        yield ['layout', 'blk', [1] * k, [2, 1], 0]
        for mode in ('sym', 'her', 'csym', 'diag', 'pdiag', 'ddrect'):
            yield ['tri', mode, [1, 2] * (k // 2)]
    for inner in ('blk', 'sym', 'bdi', 'her', 'red', 'blkT', 'blkH'):
        for outer in ('blk', 'sym', 'bdi', 'her', 'prec', 'sum', 'prod'):
            yield ['nest', inner, outer]
    dims = list(itertools.product((1, 2, 3), repeat=2))
    for d in itertools.product(dims, repeat=4):
        if tier == 'quick' and max(d[0]) == 3 and max(d[3]) == 3 and d[1] == d[2]:
            continue
        yield ['shapes', [list(x) for x in d]]
    for d in itertools.product(dims, repeat=3):
        for f in itertools.product((0, 1), repeat=2):
            for mode in ('symmetric', 'hermitian'):
                yield ['trishapes', [list(x) for x in d], list(f), mode]
    for lens in itertools.product((1, 2, 3), repeat=3):
        yield ['ragged', list(lens)]
        for mode in ('symmetric', 'hermitian'):
            yield ['raggedtri', list(lens), mode]
    idx = list(range(-3, 3)) + [[a, b, c] for a in (None, 0, 1, -2) for b in (None, 1, 2, 3, -1) for c in (None, 1, 2, -1)]
    for i in idx:
        yield ['dindex', i]
        for j in idx:
            if tier == 'quick' and isinstance(i, list) and isinstance(j, list) and (i[0] == -2 or j[0] == -2 or i[2] == 1 or j[2] == 1):
                continue
            yield ['index', i, j]
    for i in range(-3, 3):
        yield ['rowindex', i]


def assemble(grid):
    return np.block([[b[1] for b in row] for row in grid])


def judge(ctx, op, M, tol=1e-9):
    msg = ref.views_act(op, M, tol, step=ctx.step)
    ctx.check(not msg, '%s' % msg)
    ctx.trace('acts')


def inspect(ctx, op, grid):
    """Indexing, iterating and membership give the blocks themselves."""
    m, n = len(grid), len(grid[0])
    for i in range(m):
        for j in range(n):
            ctx.check(op[i, j] is grid[i][j][0], 'op[%d,%d] is not the block given there' % (i, j))
            ctx.check(op[i - m, j - n] is grid[i][j][0], 'op[%d,%d] is not the block given there' % (i - m, j - n))
            ctx.check(op.blocks[i][j] is grid[i][j][0], 'op.blocks[%d][%d] is not the block given there' % (i, j))
            ctx.check(grid[i][j][0] in op, 'block %d,%d is not found in the operator' % (i, j))
    ctx.check(lo.IdentityOperator(2) not in op, 'a foreign operator is found in the block operator')
    rows = [list(r) for r in op]
    ctx.check(len(rows) == m and all(len(r) == n for r in rows), 'iteration gives %d rows' % len(rows))
    ctx.check(all(rows[i][j] is grid[i][j][0] for i in range(m) for j in range(n)), 'iteration gives other blocks')
    ctx.check(len(op.blocks) == m, 'blocks has %d rows' % len(op.blocks))


def refused(ctx, f, what):
    ctx.step()
    try:
        r = f()
    except Exception as e:
        ctx.trace('refused ' + type(e).__name__)
        return
    ctx.fail('%s was accepted and gave %r' % (what, r))


def snapshot(lists):
    return [list(r) if isinstance(r, list) else r for r in lists]


def unchanged(ctx, lists, snap):
    ok = len(lists) == len(snap)
    for r, s in zip(lists, snap):
        ok = ok and ((len(r) == len(s) and all(a is b for a, b in zip(r, s))) if isinstance(r, list) else r is s)
    ctx.check(ok, "the caller's list of blocks was modified", now=[len(r) if isinstance(r, list) else 1 for r in lists])


def tri(mode, sizes):
    """-> upper triangle grid, full grid as matrices, constructor keywords"""
    k = len(sizes)
    dk, off, t = {'sym': (['s', 'sq', 'id'], ['arr', 'fun', 'zero'], lambda X: X.T), 'csym': (['cs', 's', 'id'], ['carr', 'cfa', 'view'], lambda X: X.T),
                  'her': (['h', 's', 'id'], ['carr', 'cfa', 'arr', 'scal'], lambda X: X.conj().T)}[mode]
    up = [[block(dk[i % len(dk)] if i == j else off[(i + j) % len(off)], sizes[i], sizes[j], i + 3 * j) for j in range(i, k)] for i in range(k)]
    full = [[up[i][j - i][1] if j >= i else t(up[j][i - j][1]) for j in range(k)] for i in range(k)]
    return up, full


def run(ctx, case):
    kind = case[0]
    ctx.state(case)
    if kind == 'layout' or kind == 'kinds':
        if kind == 'layout':
            _, cls, rows, cols, off = case
            grid = [[block(KINDS[(off + i * len(cols) + j) % len(KINDS)], m, n, i * 3 + j) for j, n in enumerate(cols)] for i, m in enumerate(rows)]
        else:
            _, rows, cols, ks = case
            cls = 'blk'
            grid = [[block(ks[2 * i + j], m, n, i * 3 + j) for j, n in enumerate(cols)] for i, m in enumerate(rows)]
        lists = [[b[0] for b in r] for r in grid]
        snap = snapshot(lists)
        op = (lo.BlockLinearOperator if cls == 'blk' else lo.BlockPreconditioner)(lists)
        M = assemble(grid)
        judge(ctx, op, M)
        unchanged(ctx, lists, snap)
        inspect(ctx, op, grid)
        if cls == 'prec':
            x = np.arange(1., M.shape[1] + 1)
            ctx.check(ref.close(op.solve(x), np.dot(M, x)), 'solve() is not the product', got=op.solve(x))
        # the caller's lists are the caller's
        lists[0][0] = lo.ZeroOperator(cols[0], rows[0])
        del lists[-1]
        judge(ctx, op, M)
    elif kind == 'tri':
        _, mode, sizes = case
        k = len(sizes)
        if mode in ('sym', 'csym', 'her'):
            up, full = tri(mode, sizes)
            lists = [[b[0] for b in r] for r in up]
            snap = snapshot(lists)
            op = lo.BlockLinearOperator(lists, **({'hermitian': True} if mode == 'her' else {'symmetric': True}))
            unchanged(ctx, lists, snap)
            M = np.block(full)
            judge(ctx, op, M)
            ctx.check((op.H is op) if mode == 'her' else (op.T is op), 'a symmetric (Hermitian) operator is not its own transpose (adjoint)')
            for i in range(k):
                for j in range(k):
                    if j >= i:
                        ctx.check(op[i, j] is up[i][j - i][0], 'block %d,%d is not the given one' % (i, j))
                    msg = ref.acts_as(op[i, j], full[i][j], step=ctx.step)
                    ctx.check(not msg, 'block %d,%d: %s' % (i, j, msg))
        else:
            cls = lo.BlockDiagonalPreconditioner if mode == 'pdiag' else lo.BlockDiagonalLinearOperator
            kk = {'diag': ['arr', 'carr', 'sq', 'id'], 'pdiag': ['s', 'carr', 'fun', 'cs'], 'dsym': ['s', 'id', 'sq', 'cs'], 'dher': ['h', 's', 'id'],
                  'ddrect': ['arr', 'cfa', 'zero', 'fun']}[mode]
            bl = [block(kk[i % len(kk)], m, (3 - m if mode == 'ddrect' else m), i) for i, m in enumerate(sizes)]
            lists = [b[0] for b in bl]
            snap = snapshot(lists)
            op = cls(lists)
            unchanged(ctx, lists, snap)
            M = np.block([[b[1] if i == j else np.zeros((bl[i][1].shape[0], bl[j][1].shape[1])) for j in range(k)] for i, b in enumerate(bl)])
            judge(ctx, op, M)
            ctx.check(mode != 'dsym' or op.symmetric, 'symmetric diagonal blocks do not make a symmetric operator')
            ctx.check(mode != 'dher' or op.hermitian, 'Hermitian diagonal blocks do not make a Hermitian operator')
            for i in range(k):
                ctx.check(op[i] is bl[i][0] and op[i - k] is bl[i][0] and op.blocks[i] is bl[i][0], 'op[%d] is not the block given there' % i)
                ctx.check(bl[i][0] in op, 'block %d is not found' % i)
            ctx.check(all(a is b[0] for a, b in zip(op, bl)) and len(list(op)) == k, 'iteration gives other blocks')
            ctx.check(lo.IdentityOperator(2) not in op, 'a foreign operator is found')
            if mode == 'pdiag':
                x = np.arange(1., M.shape[1] + 1)
                ctx.check(ref.close(op.solve(x), np.dot(M, x)), 'solve() is not the product')
            lists[0] = lo.ZeroOperator(bl[0][1].shape[1], bl[0][1].shape[0])
            judge(ctx, op, M)
    elif kind == 'nest':
        _, inner, outer = case
        (a, A), (b, B), (c, C), (d, D) = block('carr', 2, 1, 1), block('arr', 2, 2, 2), block('cfa', 1, 1, 3), block('fun', 1, 2, 4)
        if inner in ('blk', 'red', 'blkT', 'blkH'):
            I, MI = lo.BlockLinearOperator([[a, b], [c, d]]), np.block([[A, B], [C, D]])
            if inner == 'red':
                I, MI = lo.ReducedLinearOperator(I, [2, 0, 1], [1, 2, 0]), MI[np.ix_([2, 0, 1], [1, 2, 0])]
            elif inner == 'blkT':
                I, MI = I.T, MI.T
            elif inner == 'blkH':
                I, MI = I.H, MI.conj().T
        elif inner == 'bdi':
            I, MI = lo.BlockDiagonalLinearOperator([block('s', 2, 2, 1)[0], block('s', 1, 1, 2)[0]]), None
            MI = np.block([[block('s', 2, 2, 1)[1], np.zeros((2, 1))], [np.zeros((1, 2)), block('s', 1, 1, 2)[1]]])
        else:
            up, full = tri('her' if inner == 'her' else 'sym', (2, 1))
            I, MI = lo.BlockLinearOperator([[x[0] for x in r] for r in up], **({'hermitian': True} if inner == 'her' else {'symmetric': True})), np.block(full)
        (e, E), (f, F) = block('carr', 3, 2, 5), block('s', 2, 2, 6)
        if outer == 'blk':
            op, M = lo.BlockLinearOperator([[I, e], [e.T, f]]), np.block([[MI, E], [E.T, F]])
        elif outer == 'prec':
            op, M = lo.BlockPreconditioner([[I, e], [e.T, f]]), np.block([[MI, E], [E.T, F]])
        elif outer == 'bdi':
            op, M = lo.BlockDiagonalLinearOperator([I, e, f]), None
            M = np.block([[MI, np.zeros((3, 4))], [np.zeros((3, 3)), E, np.zeros((3, 2))], [np.zeros((2, 5)), F]])
        elif outer == 'sum':
            op, M = I + 2 * I.T, MI + 2 * MI.T
        elif outer == 'prod':
            op, M = I * e, np.dot(MI, E)
        else:
            flag = 'symmetric' if outer == 'sym' else 'hermitian'
            low = E.T if outer == 'sym' else E.conj().T
            build = lambda: lo.BlockLinearOperator([[I, e], [f]], **{flag: True})
            if not getattr(I, flag):
                refused(ctx, build, 'an inner block without the symmetry claimed')
                return
            op, M = build(), np.block([[MI, E], [low, F]])
        judge(ctx, op, M)
    elif kind == 'shapes':
        a, b, c, d = [tuple(x) for x in case[1]]
        ops = [lo.ZeroOperator(s[1], s[0]) for s in (a, b, c, d)]
        fit = a[0] == b[0] and c[0] == d[0] and a[1] == c[1] and b[1] == d[1]
        make = lambda: lo.BlockLinearOperator([[ops[0], ops[1]], [ops[2], ops[3]]])
        if fit:
            ctx.check(make().shape == (a[0] + c[0], a[1] + b[1]), 'shape %r' % (make().shape,))
            ctx.trace('fits')
        else:
            refused(ctx, make, 'layout of shapes %r' % (case[1],))
    elif kind == 'trishapes':
        (a, b, d), (fa, fd), flag = [tuple(x) for x in case[1]], case[2], case[3]

        def mk(s, f):
            M = np.ones(s)
            if f and s[0] == s[1]:
                return lo.linop_from_ndarray(M, symmetric=True)
            return lo.linop_from_ndarray(M)
        A, B, D = mk(a, fa), mk(b, 0), mk(d, fd)
        make = lambda: lo.BlockLinearOperator([[A, B], [D]], **{flag: True})
        if getattr(A, flag) and getattr(D, flag) and b == (a[0], d[0]):
            ctx.check(make().shape == (a[0] + d[0], a[0] + d[0]), 'shape %r' % (make().shape,))
            ctx.trace('fits')
        else:
            refused(ctx, make, 'triangular layout of shapes %r, flags %r' % (case[1], case[2]))
    elif kind == 'ragged':
        lens = case[1]
        make = lambda: lo.BlockLinearOperator([[lo.IdentityOperator(2) for _ in range(k)] for k in lens])
        if len(set(lens)) == 1:
            ctx.check(make().shape == (6, 2 * lens[0]), 'shape %r' % (make().shape,))
            ctx.trace('fits')
        else:
            refused(ctx, make, 'ragged layout with rows of lengths %r' % (lens,))
    elif kind == 'raggedtri':
        lens, flag = case[1:]
        make = lambda: lo.BlockLinearOperator([[lo.IdentityOperator(2) for _ in range(k)] for k in lens], **{flag: True})
        if lens == [3, 2, 1]:
            ctx.check(make().shape == (6, 6), 'shape %r' % (make().shape,))
            ctx.trace('fits')
        else:
            refused(ctx, make, 'triangular layout with rows of lengths %r' % (lens,))
    elif kind in ('index', 'rowindex'):
        rows, cols = (1, 2, 1), (2, 1, 2)
        grid = [[block(KINDS[(i * 3 + j) % len(KINDS)], m, n, i * 3 + j) for j, n in enumerate(cols)] for i, m in enumerate(rows)]
        op = lo.BlockLinearOperator([[b[0] for b in r] for r in grid])
        if kind == 'rowindex':
            i = case[1]
            r = op[i]
            judge(ctx, r, np.block([[b[1] for b in grid[i]]]))
            ctx.check(all(r[0, j] is grid[i][j][0] for j in range(3)), 'op[%d] has other blocks' % i)
            return
        i, j = [slice(*x) if isinstance(x, list) else x for x in case[1:]]
        ri = list(range(3))[i] if isinstance(i, slice) else [range(3)[i]]
        rj = list(range(3))[j] if isinstance(j, slice) else [range(3)[j]]
        if not ri or not rj:
            return
        b = op[i, j]
        if not isinstance(i, slice) and not isinstance(j, slice):
            ctx.check(b is grid[i][j][0], 'op[%r,%r] is not the block given there' % (i, j))
            ctx.trace('block')
            return
        sub = [[grid[p][q] for q in rj] for p in ri]
        ctx.check(isinstance(b, lo.BlockLinearOperator) and len(b.blocks) == len(ri) and all(len(r) == len(rj) for r in b.blocks), 'op[%r,%r] has the wrong layout' % (i, j))
        ctx.check(all(b.blocks[p][q] is sub[p][q][0] for p in range(len(ri)) for q in range(len(rj))), 'op[%r,%r] holds other blocks' % (i, j))
        judge(ctx, b, assemble(sub))
        judge(ctx, op, assemble(grid))
    elif kind == 'dindex':
        for flavour in (['s', 'sq', 'id'], ['arr', 'carr', 'fun']):
            bl = [block(k, m, m, 1) for k, m in zip(flavour, (1, 2, 1))]
            op = lo.BlockDiagonalLinearOperator([b[0] for b in bl])
            i = slice(*case[1]) if isinstance(case[1], list) else case[1]
            if not isinstance(i, slice):
                ctx.check(op[i] is bl[i][0], 'op[%r] is not the block given there' % i)
                continue
            sub = bl[i]
            if not sub:
                continue
            s = op[i]
            ctx.check(isinstance(s, lo.BlockDiagonalLinearOperator) and len(s.blocks) == len(sub) and all(a is b[0] for a, b in zip(s.blocks, sub)), 'op[%r] has other blocks' % i)
            k = len(sub)
            judge(ctx, s, np.block([[sub[p][1] if p == q else np.zeros((sub[p][1].shape[0], sub[q][1].shape[1])) for q in range(k)] for p in range(k)]))
