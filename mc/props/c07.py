"""C07: histories of block replacements, every view of the operator in step."""
import itertools
import numpy as np
import pykrylov.linop as lo
from mc import ref
from mc.props.c06 import block

BOUNDS = dict(operators='plain real/complex/integer/rectangular, symmetric real/complex, Hermitian, block-diagonal of the same kinds, block preconditioners, nested blocks, 1x1, 3x3',
              history='every history of length <= 2 (first from a reduced menu in quick), 3 over fitting ones for the 2x2 kinds (thorough: 3 and 4) over a menu of fitting and unfitting replacements at single, negative and slice indices',
              references='T and H taken before the first, and after each replacement; ten conjugates and expressions taken before the first')

# name -> (class, block sizes, initial kinds, flags)
OPS = {
    'real': ('blk', (1, 2), (2, 1), 'arr', None),
    'cplx': ('blk', (1, 2), (2, 1), 'carr', None),
    'cadj': ('blk', (2, 2), (2, 2), 'cfa', None),
    'int': ('blk', (1, 2), (2, 1), 'int', None),
    'row': ('blk', (2,), (1, 2), 'arr', None),
    'col': ('blk', (1, 2), (2,), 'carr', None),
    'one': ('blk', (2,), (2,), 'arr', None),
    'sym': ('blk', (1, 2), (1, 2), 'arr', 'symmetric'),
    'csym': ('blk', (1, 2), (1, 2), 'carr', 'symmetric'),
    'her': ('blk', (1, 2), (1, 2), 'carr', 'hermitian'),
    'sym3': ('blk', (1, 2, 1), (1, 2, 1), 'arr', 'symmetric'),
    'her3': ('blk', (1, 1, 2), (1, 1, 2), 'carr', 'hermitian'),
    'real3': ('blk', (1, 2, 1), (2, 1, 1), 'arr', None),
    'prec': ('prec', (1, 2), (1, 2), 'arr', None),
    'psym': ('prec', (1, 2), (1, 2), 'arr', 'symmetric'),
    'diag': ('bdi', (1, 2), (2, 1), 'arr', None),
    'cdiag': ('bdi', (1, 2), (2, 2), 'carr', None),
    'dsym': ('bdi', (1, 2), (1, 2), 's', 'symmetric'),
    'dcsym': ('bdi', (2, 1), (2, 1), 'cs', 'symmetric'),
    'dher': ('bdi', (1, 2), (1, 2), 'h', 'hermitian'),
    'diag3': ('bdi', (1, 2, 1), (1, 2, 1), 'arr', None),
    'pdiag': ('pdi', (2, 1), (2, 1), 'arr', None),
}
SMALL = ['real', 'sym', 'csym', 'her', 'diag', 'dsym', 'dher', 'cplx']


def fill(kind, flag, m, n, i, j, seed):
    if flag and i == j:
        kind = {'symmetric': {'arr': 's', 'carr': 'cs', 's': 's', 'cs': 'cs'}, 'hermitian': {'carr': 'h', 'h': 'h'}}[flag][kind]
    return block(kind, m, n, seed + 3 * i + j)


def menu(name, reduced):
    """Actions: [index, value] with value one of the names understood by value()."""
    cls, rows, cols, kind, flag = OPS[name]
    acts = []
    vals = ['new', 'new2', 'real', 'complex', 'wrongshape', 'array', 'None', 'scalar', 'nonsym', 'exotic', 'transposed']
    if reduced:
        vals = ['new', 'exotic', 'wrongshape', 'nonsym']
    if cls in ('blk', 'prec'):
        pos = [(i, j) for i in range(len(rows)) for j in range(len(cols))]
        for i, j in pos:
            for v in vals:
                if v == 'transposed' and rows[i] != cols[j]:
                    continue
                if len(pos) > 4 and v in ('new2', 'None', 'array', 'complex'):
                    continue
                acts.append([[i, j], v])
        acts.append([[-1, -1], 'new'])
        acts.append([['s', 0, None], 'newcol'])
        acts.append([[0, 's'], 'newrow'])
        acts.append([['s', 's'], 'newall'])
        if len(rows) > 2 and not reduced:
            acts += [[['0:2', '1:3'], 'newall'], [['1:3', 1], 'newall'], [[-1, '1:3'], 'newall'], [['::2', '::2'], 'newall'], [['::-1', 's'], 'newall'],
                     [['0:2', '1:3'], 'badall'], [['1:', ':2'], 'newall']]
        if not reduced:
            acts.append([['s', 's'], 'badall'])
            acts.append([[0, 's'], 'badrow'])
            acts.append([['s', 's'], 'nonsymall'])
    else:
        for i in range(len(rows)):
            for v in vals:
                if v == 'transposed' and rows[i] != cols[i]:
                    continue
                acts.append([i, v])
        acts.append([-1, 'new'])
        acts.append(['s', 'newall'])
        acts.append(['s1', 'newtail'])
        if not reduced:
            acts.append(['s', 'badall'])
            acts.append(['s', 'short'])
            acts.append(['s', 'long'])
            acts.append(['s', 'nonsymall'])
    return acts


def cases(tier):
    for name in OPS:
        acts, few = menu(name, False), menu(name, True)
        yield [name, []]
        for a in acts:
            yield [name, [a]]
        # two in a row: the last from the whole menu
        for a, b in itertools.product(few if tier == 'quick' else acts, acts):
            yield [name, [a, b]]
        if tier == 'thorough':
            for a, b, c in itertools.product(few, few, acts):
                yield [name, [a, b, c]]
    for name in SMALL:
        acts = menu(name, True)
        good = [a for a in acts if a[1] in ('new', 'exotic', 'newall', 'newrow', 'newtail')]
        for h in itertools.product(good if tier == 'quick' else acts, repeat=3):
            yield [name, list(h)]
        if tier == 'thorough':
            for h in itertools.product(good, repeat=4):
                yield [name, list(h)]
    for outer in ('blk', 'sym', 'bdi'):
        for h in itertools.product(('inner', 'outer', 'innerbad', 'outerbad', 'innerall'), repeat=3 if tier == 'quick' else 5):
            yield ['nested', outer, list(h)]


def cut(i):
    """'a:b:c' -> slice"""
    if i == 's':
        return slice(None)
    return slice(*[int(x) if x else None for x in i.split(':')]) if isinstance(i, str) else i


def uses(op):
    """Views and expressions made of the operator."""
    out = {'bar': (op.bar, lambda M: M.conj()), 'T.bar': (op.T.bar, lambda M: M.conj().T), 'H.bar': (op.H.bar, lambda M: M.T),
           '2*A': (2 * op, lambda M: 2 * M), 'A+A.bar': (op + op.bar, lambda M: 2 * M.real), '-A.T': (-op.T, lambda M: -M.T),
           'A.H*A': (op.H * op, lambda M: np.dot(M.conj().T, M)), '[A;A]': (lo.BlockLinearOperator([[op], [op]]), lambda M: np.vstack((M, M))),
           'A reduced': (lo.ReducedLinearOperator(op, [op.shape[0] - 1, 0], [0]), lambda M: M[[-1, 0]][:, [0]])}
    if op.shape[0] == op.shape[1]:
        out['A**2'] = (op ** 2, lambda M: np.dot(M, M))
    return out


class Model(object):
    def __init__(self, name):
        self.cls, self.rows, self.cols, self.kind, self.flag = OPS[name]
        self.seed = 1
        cls = {'blk': lo.BlockLinearOperator, 'prec': lo.BlockPreconditioner, 'bdi': lo.BlockDiagonalLinearOperator, 'pdi': lo.BlockDiagonalPreconditioner}[self.cls]
        self.grid = self.cls in ('blk', 'prec')
        if self.grid:
            self.b = [[fill(self.kind, self.flag, m, n, i, j, 1) for j, n in enumerate(self.cols)] for i, m in enumerate(self.rows)]
            self.mirror()
            if self.flag:
                lists = [[self.b[i][j][0] for j in range(i, len(self.cols))] for i in range(len(self.rows))]
                self.op = cls(lists, **{self.flag: True})
            else:
                self.op = cls([[x[0] for x in r] for r in self.b])
        else:
            self.b = [fill(self.kind, self.flag, m, n, i, i, 1) for i, (m, n) in enumerate(zip(self.rows, self.cols))]
            self.op = cls([x[0] for x in self.b])

    def mirror(self):
        if self.flag and self.grid:
            for i in range(len(self.rows)):
                for j in range(i):
                    U = self.b[j][i]
                    self.b[i][j] = (None, U[1].T if self.flag == 'symmetric' else U[1].conj().T)

    def dense(self):
        if self.grid:
            return np.block([[x[1] for x in r] for r in self.b])
        k = len(self.b)
        return np.block([[self.b[i][1] if i == j else np.zeros((self.rows[i], self.cols[j])) for j in range(k)] for i in range(k)])

    def value(self, v, i, j):
        """-> (object to store, matrix or None when it must be refused)"""
        m, n = self.rows[i], self.cols[j]
        self.seed += 5
        real = self.kind in ('arr', 'int', 's')
        diag = self.flag is not None and i == j
        if v == 'new' or v == 'new2':
            return fill(self.kind, self.flag, m, n, i, j, self.seed + (v == 'new2'))
        if v == 'real':
            x = block('s' if diag else 'arr', m, n, self.seed)
            return x
        if v == 'complex':
            x = block({'symmetric': 'cs', 'hermitian': 'h'}[self.flag] if diag else 'carr', m, n, self.seed)
            return x if not real else (x[0], None)
        if v == 'exotic':
            if diag:
                return block('sq', m, n, self.seed)
            if real:
                a, A = block('fun', m, n, self.seed)
                return 2 * a, 2 * A
            a, A = block('cfa', m, n, self.seed)
            return 1j * a, 1j * A
        if v == 'transposed':
            a, A = block('s' if diag else 'fun', n, m, self.seed)
            return a.T, A.T
        if v == 'nonsym':
            if m != n or m == 1:
                x = block('arr', m, n, self.seed)     # fits where no symmetry is claimed; never flagged
                return (x[0], None) if diag else x
            x = (lo.linop_from_ndarray(np.array([[1., 2.], [3., 4.]])), np.array([[1., 2.], [3., 4.]]))
            return (x[0], None) if diag else x
        if v == 'wrongshape':
            return lo.ZeroOperator(n, m + 1), None
        if v == 'array':
            return np.ones((m, n)), None
        if v == 'None':
            return None, None
        if v == 'scalar':
            return 2.0, None
        raise ValueError(v)

    def apply(self, ctx, index, v):
        """Do one replacement on the operator and on the model.  -> must it be refused?"""
        if self.grid:
            i, j = index[0], index[1]
            i, j = cut(i), cut(j)
            si, sj = isinstance(i, slice), isinstance(j, slice)
            ri = list(range(len(self.rows))[i]) if si else [range(len(self.rows))[i]]
            rj = list(range(len(self.cols))[j]) if sj else [range(len(self.cols))[j]]
            word = {'newcol': 'new', 'newrow': 'new', 'newall': 'new', 'badall': 'new', 'badrow': 'new', 'nonsymall': 'new'}.get(v, v)
            vals = [[self.value(word, p, q) for q in rj] for p in ri]
            if v in ('badall', 'badrow'):
                vals[-1][-1] = (lo.ZeroOperator(self.cols[rj[-1]] + 1, self.rows[ri[-1]]), None)
            if v == 'nonsymall':
                vals[-1][-1] = self.value('nonsym', ri[-1], rj[-1])
            bad = any(x[1] is None for r in vals for x in r)
            key = (i, j)
            if si or sj:
                # an object array: nested lists trip over numpy's array discovery under PyPy
                val = np.empty((len(ri), len(rj)), dtype=object)
                for a in range(len(ri)):
                    for c in range(len(rj)):
                        val[a, c] = vals[a][c][0]
            else:
                val = vals[0][0][0]
        else:
            k = len(self.b)
            if index in ('s', 's1'):
                ri = list(range(k)) if index == 's' else list(range(1, k))
                word = 'new'
                vals = [self.value(word, p, p) for p in ri]
                if v == 'badall':
                    vals[-1] = (lo.ZeroOperator(self.cols[-1] + 1, self.rows[-1]), None)
                if v == 'nonsymall':
                    vals[-1] = self.value('nonsym', k - 1, k - 1)
                bad = any(x[1] is None for x in vals)
                key = slice(None) if index == 's' else slice(1, None)
                val = [x[0] for x in vals]
                if v == 'short':
                    val, bad = val[:-1], True
                if v == 'long':
                    val, bad = val + [lo.IdentityOperator(1)], True
            else:
                p = range(k)[index]
                ri, vals = [p], [self.value(v, p, p)]
                bad = vals[0][1] is None
                key, val = index, vals[0][0]
        ctx.step()
        try:
            self.op[key] = val
            done = True
        except Exception as e:
            done = False
            err = e
        if bad:
            ctx.check(not done, 'replacement %r of %r was accepted' % (v, index))
            return
        ctx.check(done, 'replacement %r of %r was refused: %r' % (v, index, None if done else err))
        if self.grid:
            for a, p in enumerate(ri):
                for c, q in enumerate(rj):
                    if self.flag and q < p:
                        continue               # the lower triangle mirrors the upper one
                    self.b[p][q] = vals[a][c]
            self.mirror()
        else:
            for a, p in enumerate(ri):
                self.b[p] = vals[a]


def look(ctx, op, refs, M, where):
    tol = 1e-9
    F = op.full()
    ctx.step(M.shape[1])
    ctx.check(ref.close(F, M, tol), '%s: the operator is not the matrix of its blocks' % where, got=F, want=M)
    z = np.arange(1., M.shape[1] + 1) * (1 - 2j)
    ctx.check(ref.close(op * z, np.dot(M, z), tol), '%s: product with a complex vector' % where, got=op * z, want=np.dot(M, z))
    for k, (T, H) in enumerate(refs):
        for nm, o, N in (('T', T, M.T), ('H', H, M.conj().T)):
            G = o.full()
            ctx.step(N.shape[1])
            ctx.check(ref.close(G, N, tol), '%s: %s obtained after %d replacements is out of step' % (where, nm, k), got=G, want=N)
            z = np.arange(1., N.shape[1] + 1) * (1 - 2j)
            ctx.check(ref.close(o * z, np.dot(N, z), tol), '%s: %s obtained after %d replacements, complex product' % (where, nm, k))
    ctx.check(op.T.T is op and op.H.H is op, '%s: T.T or H.H is another operator' % where)
    ctx.check(ref.close(op.bar.full(), M.conj(), tol), '%s: bar is out of step' % where)


def run(ctx, case):
    if case[0] == 'nested':
        return nested(ctx, case)
    name, hist = case
    m = Model(name)
    op = m.op
    refs = [(op.T, op.H)]
    early, dtype = uses(op) if len(hist) == 1 or name in SMALL else None, op.dtype
    last = len(hist) - 1
    look(ctx, op, refs, m.dense(), 'at first') if not hist else None
    for k, (index, v) in enumerate(hist):
        if k == last:
            look(ctx, op, refs, m.dense(), 'before the last replacement') if k % 2 else None
        m.apply(ctx, index, v)
        ctx.state(name, hist[:k + 1])
        refs.append((op.T, op.H))
        if k == last:
            look(ctx, op, refs, m.dense(), 'after %d replacements' % (k + 1))
            M = m.dense()
            # expressions keep the type they were made with, views follow the operator
            for nm, (o, f) in (early.items() if early and op.dtype == dtype else ()):
                z = np.arange(1., o.shape[1] + 1) * (1 - 2j)
                y = np.arange(1., o.shape[0] + 1) * (2 + 1j)
                ctx.step(2)
                ctx.check(ref.close(o * z, np.dot(f(M), z)), '%s made before the replacements is out of step' % nm, got=o * z, want=np.dot(f(M), z))
                ctx.check(ref.close(o.T * y, np.dot(f(M).T, y)), 'the transpose of %s made before the replacements is out of step' % nm)
            if m.flag:
                ctx.check((op.T is op) if m.flag == 'symmetric' else (op.H is op), 'a symmetric (Hermitian) operator is no longer its own transpose (adjoint)')
                ctx.check(getattr(op, m.flag), 'flag lost')
            if m.grid:
                for i in range(len(m.rows)):
                    for j in range(len(m.cols)):
                        if m.b[i][j][0] is not None:
                            ctx.check(op[i, j] is m.b[i][j][0] and op.blocks[i][j] is m.b[i][j][0], 'block %d,%d is not the one stored last' % (i, j))
                        else:
                            ctx.check(ref.close(op[i, j].full(), m.b[i][j][1]), 'block %d,%d does not mirror the upper triangle' % (i, j))
            else:
                for i in range(len(m.b)):
                    ctx.check(op[i] is m.b[i][0] and op.blocks[i] is m.b[i][0], 'block %d is not the one stored last' % i)
            if m.cls in ('prec', 'pdi'):
                z = np.arange(1., op.shape[1] + 1)
                ctx.check(ref.close(op.solve(z), np.dot(m.dense(), z)), 'solve() is out of step')
    ctx.trace(name)


def nested(ctx, case):
    _, outer, hist = case
    if outer == 'sym':
        (a, A), (b, B), (d, D) = block('s', 1, 1, 1), block('arr', 1, 2, 2), block('s', 2, 2, 3)
        I = lo.BlockLinearOperator([[a, b], [d]], symmetric=True)
        g = [[A, B], [B.T, D]]
    else:
        (a, A), (b, B), (c, C), (d, D) = block('carr', 1, 1, 1), block('arr', 1, 2, 2), block('arr', 2, 1, 3), block('arr', 2, 2, 4)
        I = lo.BlockLinearOperator([[a, b], [c, d]])
        g = [[A, B], [C, D]]
    (e, E), (f, F) = block('carr' if outer != 'sym' else 'arr', 3, 2, 5), block('s', 2, 2, 6)
    if outer == 'bdi':
        O = lo.BlockDiagonalLinearOperator([I, e])
        dense = lambda: np.block([[np.block(g), np.zeros((3, 2))], [np.zeros((3, 3)), E]])
    elif outer == 'sym':
        O = lo.BlockLinearOperator([[I, e], [f]], symmetric=True)
        dense = lambda: np.block([[np.block(g), E], [E.T, F]])
    else:
        O = lo.BlockLinearOperator([[I, e], [e.T, f]])
        E0 = E
        dense = lambda: np.block([[np.block(g), E], [E0.T, F]])
    refs = [(O.T, O.H)]
    irefs = [(I.T, I.H)]
    for k, act in enumerate(hist):
        ctx.step()
        if act == 'inner':
            x, X = block('arr', 1, 2, 7 + k)
            I[0, 1] = x
            g[0][1] = X
            if outer == 'sym':
                g[1][0] = X.T
        elif act == 'innerall':
            x, X = block('s', 2, 2, 17 + k)
            I[1, 1] = x
            g[1][1] = X
        elif act == 'outer':
            x, X = block('arr', 3, 2, 7 + k)
            if outer == 'bdi':
                O[1] = x
            else:
                O[0, 1] = x
            E = X
        else:
            try:
                if act == 'innerbad':
                    I[0, 1] = lo.IdentityOperator(3)
                elif outer == 'bdi':
                    O[1] = lo.IdentityOperator(3)
                else:
                    O[0, 1] = lo.IdentityOperator(3)
            except Exception:
                pass
            else:
                ctx.fail('a block of the wrong shape was accepted')
        refs.append((O.T, O.H))
        irefs.append((I.T, I.H))
        ctx.state(case[:2], hist[:k + 1])
    look(ctx, O, refs, dense(), 'nested')
    look(ctx, I, irefs, np.block(g), 'inner')
    ctx.trace('nested')
