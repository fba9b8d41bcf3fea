"""C27: check_symmetric and check_positive_definite on every small matrix."""
import itertools
import numpy as np
import pykrylov.linop as lo
from pykrylov.tools import check_symmetric, check_positive_definite
from mc import ref

BOUNDS = dict(symmetric='every 2x2 matrix over -2..3 (quick) / -4..4, every symmetric and one-entry-perturbed 3x3 matrix over {-1,0,2}, 1x1, sizes 10 and 40, scales 1e-6..1e6, repeats 1..20',
              definite='the same symmetric matrices times 6 (quick) / 40 seeds of the random stream', views='plain, restricted, block and product operators')
ASSUMPTIONS = ['real operators for the symmetry check', 'the random vectors are those of the seeds enumerated']


def cases(tier):
    rng = range(-2, 4) if tier == 'quick' else range(-4, 5)
    for a, b, c, d in itertools.product(rng, repeat=4):
        yield ['2', [[a, b], [c, d]]]
    for e in itertools.product((-1, 0, 2), repeat=6):
        yield ['3', list(e)]
    for a in (-2, -1, 0, 1, 3):
        yield ['1', a]
    for n in (5, 10, 40):
        for kind in ('lap', 'dense', 'diag', 'indef', 'psd', 'rank1'):
            for sc in (1., 1e-6, 1e6):
                yield ['big', n, kind, sc]
    for m, n in itertools.product(range(1, 5), repeat=2):
        if m != n:
            yield ['rect', m, n]
    for k in ('i', 'f', 'c'):
        yield ['lb', k]
    yield ['views']
    for z in ('1-1j', '1+1j', '-1j', '1j', '2-1e-3j', '2+1e-3j', '1', '2+1e-12j'):
        yield ['complex', z]
    yield ['hermitian']


def op_of(M):
    return lo.LinearOperator(M.shape[1], M.shape[0], ref.mv(M), matvec_transp=ref.mv(M.T), dtype=M.dtype)


def probe(ctx, op, M, sym, clear, pd, psd, nd, seeds):
    """sym/clear: must be accepted / must be refused by the symmetry check; pd, psd, nd: definiteness."""
    F0 = None
    for seed in seeds:
        np.random.seed(seed)
        before = np.random.get_state()
        r = check_symmetric(op)
        ctx.step()
        after = np.random.get_state()
        ctx.check(r in (True, False) and (before[1] == after[1]).all() and before[2] == after[2], 'check_symmetric touches the global random generator')
        if sym:
            ctx.check(r, 'a symmetric operator is rejected', matrix=M, seed=seed)
        if clear:
            ctx.check(not r, 'an operator that is not symmetric is accepted', matrix=M, seed=seed)
        for rep in (1, 3, 20):
            q = check_symmetric(op, repeats=rep)
            if sym:
                ctx.check(q, 'a symmetric operator is rejected with repeats=%d' % rep, matrix=M)
            if clear and rep > 1:
                ctx.check(not q, 'an operator that is not symmetric is accepted with repeats=%d' % rep, matrix=M)
        for semi in (False, True):
            for rep in (None, 1, 4):
                r = check_positive_definite(op, semi=semi, **({} if rep is None else dict(repeats=rep)))
                ctx.step()
                if pd or (semi and psd):
                    ctx.check(r, 'a positive (semi)definite operator is rejected (semi=%r)' % semi, matrix=M, seed=seed)
                if nd:
                    ctx.check(not r, 'a negative definite operator is accepted (semi=%r)' % semi, matrix=M, seed=seed)
                if not semi and not np.any(M):
                    ctx.check(not r, 'the zero operator is accepted as positive definite')
        # the global stream moves on, it is not restarted
        np.random.seed(seed)
        a = np.random.random(3)
        np.random.seed(seed)
        check_positive_definite(op, repeats=1)
        b = np.random.random(3)
        check_positive_definite(op, repeats=1)
        c = np.random.random(3)
        ctx.check(not np.array_equal(b, c), 'check_positive_definite restarts the global random generator')
    ctx.check(np.array_equal(op.full(), M), 'the operator was modified')
    ctx.trace('sym=%d clear=%d pd=%d' % (sym, clear, pd))


def classify(M):
    M = M.astype(float)
    sym = np.array_equal(M, M.T)
    # x'(A'A - A^2)x vanishes for all x only if A is symmetric; `clear' asks for a visible margin
    S = np.dot(M.T - M, M)
    S = (S + S.T) / 2
    clear = not sym and np.max(np.abs(S)) > 1e-2 * max(1e-300, np.max(np.abs(M)) ** 2)
    w = np.linalg.eigvalsh((M + M.T) / 2)
    pd, nd = w[0] > 1e-9 * max(abs(w)), w[-1] < -1e-9 * max(abs(w))
    psd = w[0] >= 0 or w[0] > -1e-14 * max(abs(w))
    return sym, clear, pd, psd and exactly_psd(M), nd


def exactly_psd(M):
    """Diagonal semidefinite matrices and those whose products with nonnegative vectors carry no cancellation."""
    return bool((M >= 0).all()) or np.array_equal(M, np.diag(np.diag(M)))


def run(ctx, case):
    kind = case[0]
    ctx.state(case)
    seeds = range(6 if ctx.tier == 'quick' else 40)
    if kind in ('1', '2', '3'):
        if kind == '1':
            M = np.array([[float(case[1])]])
        elif kind == '2':
            M = np.array(case[1], dtype=float)
        else:
            a, b, c, d, e, f = case[1]
            M = np.array([[a, b, c], [b, d, e], [c, e, f]], dtype=float)
        sym, clear, pd, psd, nd = classify(M)
        w = np.linalg.eigvalsh((M + M.T) / 2)
        psd = psd and w[0] >= -1e-12
        probe(ctx, op_of(M), M, sym, clear, pd, psd, nd, seeds if kind != '2' else list(seeds)[:3])
        if kind == '3':
            for i, j in ((0, 1), (2, 0), (1, 2)):
                N = M.copy()
                N[i, j] += 1
                sym, clear, pd, psd, nd = classify(N)
                probe(ctx, op_of(N), N, sym, clear, pd, False, nd, [1, 2])
        elif kind == '2' and pd:
            probe(ctx, op_of(M.astype(int)), M, sym, clear, pd, psd, nd, [5])
    elif kind == 'big':
        n, k, sc = case[1:]
        i = np.arange(n)
        if k == 'lap':
            M = 2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
        elif k == 'dense':
            M = np.cos(np.outer(i + 1, i + 1)) + n * np.eye(n)
            M = (M + M.T) / 2
        elif k == 'diag':
            M = np.diag(i + 1.)
        elif k == 'indef':
            M = np.diag((-1.) ** i * (i + 1))
        elif k == 'psd':
            M = np.diag(i * 1.)
        else:
            M = np.outer(i + 1., i + 1.)
        M = M * sc
        sym, clear, pd, psd, nd = classify(M)
        probe(ctx, op_of(M), M, True, False, pd, k in ('psd', 'rank1'), nd, list(seeds)[:4])
        probe(ctx, op_of(-M), -M, True, False, False, False, pd, list(seeds)[:4])
        if sc >= 1:
            for p, q in ((0, n - 1), (n - 1, 0), (n // 2, n // 2 - 1)):
                N = M.copy()
                N[p, q] += 3 * sc
                s, clear, pd, psd, nd = classify(N)
                probe(ctx, op_of(N), N, False, clear, pd, False, nd, [0, 3])
        K = np.triu(np.ones((n, n)), 1)
        K = K - K.T
        probe(ctx, op_of(K), K, False, True, False, False, False, [0, 1])
    elif kind == 'rect':
        M = np.ones(case[1:])
        op = op_of(M)
        ctx.step(3)
        ctx.check(not check_symmetric(op), 'a rectangular operator is called symmetric')
        ctx.check(not check_positive_definite(op) and not check_positive_definite(op, semi=True), 'a rectangular operator is called positive definite')
        ctx.trace('rectangular')
    elif kind == 'lb':
        op, H = ref.leaf('lb:' + case[1])
        for seed in seeds:
            np.random.seed(seed)
            ctx.check(check_symmetric(op) and check_positive_definite(op), 'an L-BFGS operator is rejected')
            ctx.step(2)
        ctx.trace('lbfgs')
    elif kind == 'views':
        M = np.array([[4., 1, 0], [1, 3, -1], [0, -1, 2]])
        R = np.array([[1., 2, 0], [0, 1, 3], [1, 0, 1]])
        a, r = op_of(M), op_of(R)
        for op, N in ((a.T, M), (a + a, 2 * M), (r.T * r, np.dot(R.T, R)), (2 * a, 2 * M), (lo.SymmetricallyReducedLinearOperator(a, [2, 0]), M[np.ix_([2, 0], [2, 0])]),
                      (lo.BlockDiagonalLinearOperator([a, a]), np.kron(np.eye(2), M))):
            probe(ctx, op, N, True, False, True, True, False, list(seeds)[:3])
        for op, N in ((r, R), (a * r, np.dot(M, R)), (lo.BlockLinearOperator([[a, r], [r, a]]), np.block([[M, R], [R, M]]))):
            probe(ctx, op, N, False, True, False, False, False, list(seeds)[:3])
    elif kind == 'complex':
        z = complex(case[1])
        op = lo.DiagonalOperator(np.array([z, 2 * z, z]))
        for seed in seeds:
            np.random.seed(seed)
            r = check_positive_definite(op)
            ctx.step()
            ok = z.real > 0 and abs(z.imag) < 1e-9
            ctx.check(bool(r) == ok, 'diagonal %r: positive definite is reported as %r' % (z, r))
        ctx.trace('complex')
    else:
        H = np.array([[3, 1j, 0], [-1j, 2, 1 + 1j], [0, 1 - 1j, 4]])
        op = lo.linop_from_ndarray(H, hermitian=True)
        for seed in seeds:
            np.random.seed(seed)
            ctx.check(check_positive_definite(op), 'a Hermitian positive definite operator is rejected')
            ctx.check(not check_positive_definite(-op), 'a Hermitian negative definite operator is accepted')
            ctx.step(2)
        ctx.trace('hermitian')
