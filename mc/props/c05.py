"""C05: histories of products and overwrites, against value semantics."""
import itertools
import greenlet
import numpy as np
import pykrylov.linop as lo
from mc import ref

SHIFTY = ['ret', 'retrev', 'retslice', 'buf', 'bufview', 'bufT', 'memo', 'fresh', 'retc', 'bufc', 'int']
LEAVES = ['arr:r22', 'arr:c22', 'arr:s22', 'id:2', 'idc:2', 'zero:2x2', 'diag:r2', 'diag:c2', 'diag:i2', 'coo:r22', 'coos:s22', 'psp:r22', 'sred:h33', 'blk:2', 'bdi:2',
          'lb:i', 'lb:f', 'lb:c']
WRAP = ['ret', 'buf', 'id:2', 'diag:r2', 'bufc']
FORMS = ['sum', 'diff', 'twice', 'zero', 'prod', 'square', 'cube', 'neg', 'T', 'H', 'bar', 'blk', 'blks', 'bdi', 'red', 'bdi1', 'blk1', 'pow1', 'pow0', 'one']
WEAVES = ['leaf', 'sum', 'diff', 'twice', 'prod', 'prodI', 'square', 'cube', 'T', 'H', 'bar', 'blk', 'blkr', 'blks', 'bdi', 'red', 'redp', 'redr', 'sred', 'redsum', 'sumred', 'prodred',
          'twicebdi', 'blkone', 'sredsum', 'sredT', 'bdired']
BOUNDS = dict(operators='%d product functions returning their argument, views, buffers or fresh arrays; %d constructors; %d wrappings of %d of them'
              % (len(SHIFTY), len(LEAVES), len(FORMS), len(WRAP)),
              vectors='every vector type among float, int, complex', history='every history of length <= 4 (quick; 3 for wrapped operators and non-float vectors) / 6 (thorough; 5) over {A*v, A.T*v, A.H*v, A*(last result), '
              'overwrite v, overwrite last result, overwrite first result}',
              interleavings='two products (A, T, H each) of one operator, %d constructions over a product function that lets the other go on before it reads its argument and before it '
              'returns: every interleaving of the two (switch points halved beyond 6 a product in the quick tier)' % len(WEAVES))
ASSUMPTIONS = ['product functions supplied by the user do not modify their argument']


def shifty(k):
    """User functions that hand out memory they should not be trusted with."""
    if k == 'ret':
        return lo.LinearOperator(2, 2, lambda x: x, matvec_transp=lambda x: x), np.eye(2)
    if k == 'retc':
        return lo.LinearOperator(2, 2, lambda x: x, matvec_transp=lambda x: x, dtype=complex), np.eye(2) + 0j
    if k == 'retrev':
        return lo.LinearOperator(2, 2, lambda x: x[::-1], matvec_transp=lambda x: x[::-1]), np.eye(2)[::-1]
    if k == 'retslice':
        return lo.LinearOperator(2, 2, lambda x: x[:], matvec_transp=lambda x: x[:]), np.eye(2)
    M = np.array([[1., 2.], [-1., 3.]])
    if k in ('buf', 'bufview', 'bufc'):
        dt = complex if k == 'bufc' else float
        b, c = np.zeros(2, dtype=complex), np.zeros(2, dtype=complex)
        br, cr = np.zeros(2), np.zeros(2)

        def mul(N, bc, r):
            def f(x):
                w = bc if (np.iscomplexobj(x) or dt is complex) else r
                w[:] = np.dot(N, x)
                return w[:] if k == 'bufview' else w
            return f
        return lo.LinearOperator(2, 2, mul(M, b, br), matvec_transp=mul(M.T, c, cr), dtype=dt), M.astype(dt)
    if k == 'bufT':        # one buffer shared by product and transposed product
        b, r = np.zeros(2, dtype=complex), np.zeros(2)

        def mul2(N):
            def f(x):
                w = b if np.iscomplexobj(x) else r
                w[:] = np.dot(N, x)
                return w
            return f
        return lo.LinearOperator(2, 2, mul2(M), matvec_transp=mul2(M.T)), M
    if k == 'memo':        # remembers its results
        mem = {}

        def f(x):
            key = (x.tobytes(), x.dtype)
            if key not in mem:
                mem[key] = np.dot(M, x)
            return mem[key]
        memt = {}

        def g(x):
            key = (x.tobytes(), x.dtype)
            if key not in memt:
                memt[key] = np.dot(M.T, x)
            return memt[key]
        return lo.LinearOperator(2, 2, f, matvec_transp=g), M
    if k == 'fresh':
        return lo.LinearOperator(2, 2, lambda x: np.dot(M, x), matvec_transp=lambda x: np.dot(M.T, x)), M
    if k == 'int':
        N = np.array([[1, 2], [0, 1]])
        r = np.zeros(2, dtype=int)
        return lo.LinearOperator(2, 2, lambda x: x if x.dtype == int else np.dot(N, x), matvec_transp=lambda x: np.dot(np.eye(2), x), dtype=int), None


def make(spec):
    """-> (operator, matrix)."""
    if isinstance(spec, list):
        form, k = spec
        A, M = make(k)
        Z = np.zeros((2, 2))
        if form == 'sum':
            return A + A, M + M
        if form == 'diff':
            I = lo.IdentityOperator(2)
            return A - (I * 2), M - 2 * np.eye(2)
        if form == 'twice':
            return 2 * A, 2 * M
        if form == 'one':
            return 1 * A, M
        if form == 'zero':
            return 0 * A, 0 * M
        if form == 'prod':
            return A * lo.IdentityOperator(2), M
        if form == 'square':
            return A * A, np.dot(M, M)
        if form == 'cube':
            return A ** 3, np.linalg.matrix_power(M, 3)
        if form == 'pow1':
            return A ** 1, M
        if form == 'pow0':
            return A ** 0, np.eye(2)
        if form == 'neg':
            return -A, -M
        if form == 'T':
            return A.T, M.T
        if form == 'H':
            return A.H, M.conj().T
        if form == 'bar':
            return A.bar, M.conj()
        if form == 'blk1':
            return lo.BlockLinearOperator([[A]]), M
        if form == 'bdi1':
            return lo.BlockDiagonalLinearOperator([A]), M
        if form == 'blk':
            return lo.BlockLinearOperator([[A, A], [A, A]]), np.block([[M, M], [M, M]])
        if form == 'blks':
            I = lo.IdentityOperator(2)
            return lo.BlockLinearOperator([[I, A], [I]], symmetric=True), np.block([[np.eye(2), M], [M.T, np.eye(2)]])
        if form == 'bdi':
            return lo.BlockDiagonalLinearOperator([A, A]), np.block([[M, Z], [Z, M]])
        if form == 'red':
            return lo.ReducedLinearOperator(A, [0, 1], [0, 1]), M
    if spec in SHIFTY:
        return shifty(spec)
    return ref.leaf(spec)


ALPHA = ['A', 'T', 'H', 'AA', 'wv', 'wl', 'w1']


def cases(tier):
    depth = 4 if tier == 'quick' else 6
    specs = [s for s in SHIFTY if s != 'int'] + LEAVES + [[f, k] for k in WRAP for f in FORMS]
    for s in specs:
        for dt in ('float', 'complex', 'int'):
            yield [s, dt, depth - (isinstance(s, list) and dt != 'float')]
    for form in WEAVES:
        for dt in ('float', 'complex'):
            for two in itertools.combinations_with_replacement('ATH', 2):
                yield ['weave', form, dt, ''.join(two), 6 if tier == 'quick' else 8]


def woven(form, dt, hook):
    """An operator over a product function that calls hook() before it reads its argument and before it returns."""
    M = np.array([[1., 2., -1.], [0., 3., 1.], [2., -1., 1.]])
    N = np.array([[2., 0., 1.], [1., 1., 0.], [-1., 0., 3.]])
    if dt == 'complex':
        M, N = M + 1j * N.T, N - 2j * M
    typ = complex if dt == 'complex' else float

    def leaf(M, symmetric=False, hermitian=False):
        def f(x):
            hook()
            y = np.dot(M, x)
            hook()
            return y

        def g(x):
            hook()
            y = np.dot(M.T, x)
            hook()
            return y
        if symmetric:
            return lo.LinearOperator(3, 3, f, symmetric=True, dtype=typ)
        return lo.LinearOperator(3, 3, f, matvec_transp=g, dtype=typ)

    A, B = leaf(M), leaf(N)
    Z = np.zeros((3, 3))
    S = M + M.T
    if form == 'leaf':
        return A, M
    if form == 'sum':
        return A + B, M + N
    if form == 'diff':
        return A - B, M - N
    if form == 'twice':
        return 2 * A, 2 * M
    if form == 'prod':
        return A * B, np.dot(M, N)
    if form == 'prodI':
        return lo.IdentityOperator(3) * A, M
    if form == 'square':
        return A * A, np.dot(M, M)
    if form == 'cube':
        return A ** 3, np.dot(M, np.dot(M, M))
    if form == 'T':
        return A.T, M.T
    if form == 'H':
        return A.H, M.conj().T
    if form == 'bar':
        return A.bar, M.conj()
    if form == 'blk':
        return lo.BlockLinearOperator([[A, B], [B, A]]), np.block([[M, N], [N, M]])
    if form == 'blkr':
        return lo.BlockLinearOperator([[A, B, A]]), np.block([[M, N, M]])
    if form == 'blkone':
        return lo.BlockLinearOperator([[A]]), M
    if form == 'blks':
        return lo.BlockLinearOperator([[leaf(S, symmetric=True), B], [lo.IdentityOperator(3)]], symmetric=True), np.block([[S, N], [N.T, np.eye(3)]])
    if form == 'bdi':
        return lo.BlockDiagonalLinearOperator([A, B]), np.block([[M, Z], [Z, N]])
    if form == 'red':
        return lo.ReducedLinearOperator(A, [0, 1, 2], [0, 1, 2]), M
    if form == 'redp':
        return lo.ReducedLinearOperator(A, [2, 0], [1, 2]), M[np.ix_([2, 0], [1, 2])]
    if form == 'redr':
        return lo.ReducedLinearOperator(A, [1], [0, 2]), M[np.ix_([1], [0, 2])]
    if form == 'sred':
        return lo.SymmetricallyReducedLinearOperator(leaf(S, symmetric=True), [0, 2]), S[np.ix_([0, 2], [0, 2])]
    if form == 'sredsum':
        return lo.SymmetricallyReducedLinearOperator(leaf(S, symmetric=True) + 2 * lo.IdentityOperator(3), [2, 1]), (S + 2 * np.eye(3))[np.ix_([2, 1], [2, 1])]
    if form == 'sredT':
        return lo.SymmetricallyReducedLinearOperator(A, [2, 1]).T, M.T[np.ix_([2, 1], [2, 1])]
    if form == 'redsum':
        return lo.ReducedLinearOperator(A + B, [0, 2], [1, 2]), (M + N)[np.ix_([0, 2], [1, 2])]
    if form == 'sumred':
        R = lo.ReducedLinearOperator(A, [0, 2], [1, 2])
        return R + R, 2 * M[np.ix_([0, 2], [1, 2])]
    if form == 'prodred':
        R = lo.ReducedLinearOperator(A, [0, 2], [1, 2])
        Q = M[np.ix_([0, 2], [1, 2])]
        return R * R, np.dot(Q, Q)
    if form == 'twicebdi':
        return 2 * lo.BlockDiagonalLinearOperator([A, B]), 2 * np.block([[M, Z], [Z, N]])
    if form == 'bdired':
        R = lo.ReducedLinearOperator(A, [0, 2], [1, 2])
        Q = M[np.ix_([0, 2], [1, 2])]
        return lo.BlockDiagonalLinearOperator([R, B]), np.block([[Q, np.zeros((2, 3))], [np.zeros((3, 2)), N]])
    raise ValueError(form)


def weave(ctx, form, dt, two, cap):
    """Two products of one operator, in every interleaving of the calls they make."""
    hook = [lambda: None]
    op, M = woven(form, dt, lambda: hook[0]())
    ops = [{'A': op, 'T': op.T, 'H': op.H}[k] for k in two]
    mats = [{'A': M, 'T': M.T, 'H': M.conj().T}[k] for k in two]
    xs = [np.array([(-1) ** j * (j + 1 + 3 * i) for j in range(m.shape[1])]).astype(dt) for i, m in enumerate(mats)]
    lens = []
    for i in (0, 1):
        cnt = [0]

        def tick():
            cnt[0] += 1
        hook[0] = tick
        y = ops[i] * xs[i]
        ctx.check(ref.close(y, np.dot(mats[i], xs[i])), 'a product is wrong', operator=form, product=two[i])
        lens.append(cnt[0])
    every = [1 if n <= cap else 2 for n in lens]
    la, lb = [n // e + 1 for n, e in zip(lens, every)]
    for pos in itertools.combinations(range(la + lb), la):
        word = [1] * (la + lb)
        for k in pos:
            word[k] = 0
        main = greenlet.getcurrent()
        out, cnt = [None, None], [0, 0]
        who = [0]

        def body(i):
            out[i] = ops[i] * xs[i]

        def switch():
            i = who[0]
            cnt[i] += 1
            if every[i] == 1 or cnt[i] % 2 == 1:
                main.switch()
        hook[0] = switch
        gl = [greenlet.greenlet(lambda i=i: body(i)) for i in (0, 1)]
        for i in word:
            who[0] = i
            if not gl[i].dead:
                gl[i].switch()
                ctx.step()
        while not (gl[0].dead and gl[1].dead):
            for i in (0, 1):
                who[0] = i
                if not gl[i].dead:
                    gl[i].switch()
        for i in (0, 1):
            if out[i] is None or not ref.close(out[i], np.dot(mats[i], xs[i])):
                ctx.fail('interleaving two products of an operator changes a result', operator=form, products=two, schedule=word, which=i,
                         got=None if out[i] is None else out[i].tolist(), want=np.dot(mats[i], xs[i]).tolist())
        ctx.check(not np.shares_memory(out[0], out[1]), 'results of interleaved products share memory', operator=form, schedule=word)
        ctx.state('weave', form, dt, two, tuple(word))
        ctx.trace('interleaving')
    ctx.sample(dict(operator=form, products=two, vector=dt, switch_points=lens))


def run(ctx, case):
    if case[0] == 'weave':
        return weave(ctx, *case[1:])
    spec, dt, depth = case
    for n in range(1, depth + 1):
        for hist in itertools.product(ALPHA, repeat=n):
            if n < depth and hist[-1] in ('A', 'T', 'H', 'AA') and n > 1:
                continue      # covered as a prefix: every step is checked
            if n == depth or hist[-1] not in ('A', 'T', 'H', 'AA'):
                history(ctx, spec, dt, hist)
    # memory of the operator's own description
    A, M = make(spec)
    ctx.sample(dict(operator=spec, vector=dt, depth=depth))


def history(ctx, spec, dt, hist):
    if hist[0] in ('wl', 'w1', 'AA'):
        return
    A, M = make(spec)
    n = M.shape[1]
    v = np.array([3, -1, 2, 5, 7][:n]).astype(dt)
    mv = v.astype(complex)
    live, model = [], []
    fill = 11
    for pos, op in enumerate(hist):
        if op in ('A', 'T', 'H', 'AA'):
            o, N = {'A': (A, M), 'AA': (A, M), 'T': (A.T, M.T), 'H': (A.H, M.conj().T)}[op]
            if op == 'AA':
                if not live:
                    return
                x, mx = live[-1], model[-1]
            else:
                x, mx = v, mv
            r = o * x
            ctx.step()
            for k, other in enumerate([v] + live):
                if np.shares_memory(r, other):
                    ctx.fail('the result of %s shares memory with %s' % (op, 'the vector' if k == 0 else 'an earlier result'), history=hist[:pos + 1], operator=spec)
            live.append(r)
            model.append(np.dot(N, mx))
        else:
            fill += 2
            if op == 'wv':
                v[:] = fill
                mv = np.full(n, fill, dtype=complex)
            else:
                if not live:
                    return
                k = -1 if op == 'wl' else 0
                if not live[k].flags.writeable:
                    ctx.fail('a result is not writeable', history=hist[:pos + 1])
                live[k][:] = fill
                model[k] = np.full(len(live[k]), fill, dtype=complex)
        if not ref.close(v, mv):
            ctx.fail('the vector was changed', history=hist[:pos + 1], vector=v, want=mv)
        for k in range(len(live)):
            if not ref.close(live[k], model[k]):
                ctx.fail('result %d is %r instead of %r' % (k, live[k].tolist(), model[k].tolist()), history=hist[:pos + 1], operator=spec)
        ctx.state(spec, dt, hist[:pos + 1])
    ctx.trace('history')
