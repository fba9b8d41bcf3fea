"""The properties, in one place: properties.jsonl and MANIFEST.json are generated
from this table (python3 mc/meta.py)."""
import json
import os

P = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=(),
         technique='', level='model_checking', note=''):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, technique=technique, level=level, note=note))


LIN = 'pykrylov/linop/linop.py'
BLK = 'pykrylov/linop/blkop.py'
LBF = 'pykrylov/linop/lbfgs.py'
SQ = ['pykrylov/cg/cg.py', 'pykrylov/cgs/cgs.py', 'pykrylov/bicgstab/bicgstab.py', 'pykrylov/tfqmr/tfqmr.py',
      'pykrylov/minres/minres.py', 'pykrylov/symmlq/symmlq.py']
LS = ['pykrylov/lls/lsqr.py', 'pykrylov/lls/lsmr.py', 'pykrylov/lls/craig.py', 'pykrylov/lls/craigmr.py']
GEN = 'pykrylov/generic/generic.py'
UT = 'pykrylov/tools/utils.py'
TRUST = ('Exhaustive within the stated bounds on the real (2to3-translated) code; trusts numpy dense algebra as the '
         'reference and says nothing about sizes or values outside the alphabet.')

prop('C01', 'Operator algebra acts as matrix algebra',
     'An operator expression built from sums, differences, products, non-negative integer powers, negation and scalar multiplication or division acts on every vector as the same expression of the matrices that its operands represent, for real and complex operands, scalars and vectors. The same holds for the transpose, adjoint and conjugate of the expression and for its conversion to a dense matrix.',
     ['programs', 'inputs'], 'every expression over the operator constructors up to a nesting depth, with every scalar kind, every unary view and every basis vector',
     'The tests check a handful of depth-one expressions of two fixed real matrices; nested, complex, rectangular and adjoint combinations are not reached.',
     [LIN], [('closures that combine the operands\' products', 'LinearOperator.__add__/__sub__/__mul__/__pow__/__div__')],
     observe=['result of op*x, op.T*x, op.H*x, op.bar*x, op.full()'],
     technique='bounded-exhaustive enumeration of operator expressions executed on the real code against a dense-matrix model')

prop('C02', 'Transpose, adjoint and conjugate stay coherent',
     'Every chain of transpose, adjoint and conjugate views of an operator acts as the matrix transformed the same way, and transposing (or adjoining) twice gives back the very same operator object. A transpose or adjoint that was not supplied is inferred whenever the supplied information determines it, and is reported as missing, never as a wrong operator, when it does not.',
     ['programs', 'inputs'], 'every way of supplying matvec/transpose/adjoint/symmetric/hermitian for real and complex types, every word over {T,H,bar} up to a length',
     'The tests follow at most two views of seven hand-made operators.',
     [LIN], [('mutual references between an operator and its views', 'LinearOperator.__init__, __set_transpose, __set_adjoint, conjugate')],
     observe=['identity and action of op.T, op.H, op.bar and chains of them'],
     technique='breadth-first exploration of the T/H/bar view graph of the real operators against a dense-matrix model')

prop('C03', 'Symmetric and Hermitian flags tell the truth',
     'An operator that reports being symmetric (or Hermitian) represents a matrix equal to its transpose (or conjugate transpose), whichever constructor or expression produced it from truthfully described operands, and its transpose (or adjoint) is then the operator itself.',
     ['programs', 'inputs'], 'every constructor and every expression up to a nesting depth over truthfully flagged operands',
     'The tests look at the flag of two block-diagonal operators only.',
     [LIN, BLK, LBF], [('flag propagation in each expression', 'LinearOperator.__mul_scalar, __add__, __sub__, __mul_linop; Block*LinearOperator.__init__')],
     observe=['op.symmetric, op.hermitian, op.T is op, op.H is op against op.full()'],
     technique='bounded-exhaustive enumeration of constructors and expressions, flags compared with the dense matrix')

prop('C04', 'Products have the right type and size; misfits are refused',
     'A product has exactly one entry per row of the operator and the Numpy promotion of the types of operator and vector, and an expression has the promoted type of its operands. Multiplying by a vector of the wrong size, combining operators of incompatible shapes, and combining an operator with something that is neither operator, scalar nor vector where one is required, always raises and never returns a value.',
     ['inputs', 'programs'], 'every pair of supported types, every shape pair up to a size, every binary operation',
     'The tests sample type pairs on single operators and five ill-formed expressions.',
     [LIN, BLK], [('result_type promotion, reshape of inputs and outputs, ShapeError', 'LinearOperator.__mul_vector, _matvec, __add__, __mul_linop, __pow__')],
     observe=['dtype and shape of results, exception or not'],
     technique='exhaustive enumeration of type pairs, shape pairs and operations on the real code against a promotion/shape model')

prop('C05', 'Products are isolated from one another',
     'Multiplying an operator never modifies the vector it is given, and its result shares no memory with that vector, with the data of the operator, or with an earlier result. So overwriting a vector or a result afterwards changes no other vector, result or later product, even when the user-supplied product function returns its argument, a view of it, or a buffer that it reuses. Nor does a product depend on another product of the same operator (or of one built from it) that is made while it is under way, nested in it or interleaved with the calls it makes.',
     ['histories', 'inputs'], 'every history of products and overwrites up to a length, over operators whose product functions return their argument, a view, a reused buffer or a fresh array; every interleaving of the calls made by two products of one operator',
     'The tests never write into a result and use only product functions returning fresh arrays.',
     [LIN, BLK, LBF], [('copy made when converting the result type', 'LinearOperator.__mul_vector'), ('own copy of the diagonal', 'DiagonalOperator.__init__')],
     observe=['contents and memory overlap of arrays after each step'],
     technique='exhaustive exploration of multiply/overwrite histories, and of all interleavings of two products, on the real code against a value-semantics model')

prop('C06', 'Block operators act as the assembled matrix',
     'A block operator (full, symmetric, Hermitian, block-diagonal, preconditioner alias or nested) acts, with its transpose, adjoint and conjugate, as the matrix assembled from its blocks, and indexing, slicing, iterating and membership deliver exactly the blocks at those positions. Layouts whose block shapes do not fit, or whose diagonal blocks lack the symmetry claimed, are refused, and the lists given by the caller are left unmodified.',
     ['inputs', 'programs'], 'every block layout up to 3x3 with every assignment of block shapes, kinds and types from a small alphabet; every index and slice',
     'The tests use three fixed 2x2 layouts of real blocks and one slice-free index form.',
     [BLK], [('block-wise accumulation over row and column partitions', 'BlockLinearOperator.__init__.blk_matvec'), ('shape validation and mirroring', 'BlockLinearOperator.__init__')],
     observe=['op*x, op.T*x, op.H*x, op[i,j], op[i:j,k:l], raised errors, caller lists'],
     technique='bounded-exhaustive enumeration of layouts on the real code against np.block')

prop('C07', 'Replacing blocks keeps every view in step',
     'After any history of block replacements, a block operator, its transpose and its adjoint, including references to them obtained before the replacements, all act as the matrix assembled from the current blocks; so do, while its type stays the same, its conjugate and expressions built from it earlier. A symmetric or Hermitian operator stays so with its lower triangle mirroring its upper one. A replacement that does not fit (wrong shape, not an operator, not symmetric where required) is refused and leaves the operator unchanged.',
     ['histories'], 'every sequence of replacements up to a length over a menu of fitting and unfitting blocks, single and slice indices, all flag combinations, real and complex',
     'No test replaces a block.',
     [BLK], [('rebuilding of transposed and adjoint blocks', 'BlockLinearOperator.__setitem__, BlockDiagonalLinearOperator.__setitem__')],
     state=[('blocks', 'current blocks and their transposes/adjoints', 'BlockLinearOperator')],
     observe=['op*x, op.T*x, op.H*x through old and new references'],
     technique='breadth-first state exploration of replacement histories on the real object against an assembled-matrix model')

prop('C08', 'Restricted and matrix-backed operators represent their matrix',
     'An operator restricted to given row and column indices acts as the corresponding submatrix, and an operator made from coordinate data, a dense array or a sparse-matrix object acts as that matrix, together with its transpose and adjoint (one made from a Cholesky factorization as its inverse), for every index set, order and repetition of entries, flag and type. When a shape is not given for coordinate data it is inferred so that every entry fits, one stored triangle stands for both when declared symmetric, and identity, zero and diagonal operators, with their absolute values and square roots (refused when a real diagonal entry is negative), are those of their matrices.',
     ['inputs'], 'every index list (order and subset) of small operators; every list of coordinate entries up to a length on small shapes; every small dense matrix',
     'The tests use one matrix and one pair of index sets; coordinate operators have no passing test.',
     [LIN], [('scatter/gather around the full operator', 'ReducedLinearOperator, SymmetricallyReducedLinearOperator'), ('entry loops', 'CoordLinearOperator'), ('np.dot closures', 'linop_from_ndarray'), ('wrapper', 'PysparseLinearOperator, CholeskyOperator')],
     observe=['op*x, op.T*x, op.H*x, op.shape'],
     technique='exhaustive enumeration of index lists and coordinate lists on the real code against dense submatrices')

prop('C09', 'The product counter counts products',
     'The product counter of an operator equals the number of vectors it has been multiplied with since creation or the last reset, whether directly or as part of an expression, view, block or restricted operator, a transpose being counted on the transpose. Nothing else (building expressions or views, copying, reading attributes, a failed construction) changes it.',
     ['histories'], 'every history up to a length of products, transposed products, composed products, resets and non-product operations',
     'No test reads the counter.',
     [LIN], [('increment on each vector product', 'LinearOperator.__mul_vector'), ('reset', 'BaseLinearOperator.reset_counters')],
     state=[('nMatvec', 'products so far', 'BaseLinearOperator')], observe=['op.nMatvec, op.T.nMatvec'],
     technique='breadth-first exploration of counter histories on the real objects against an integer counter model')

prop('C10', 'Inverse L-BFGS is the BFGS formula on the kept pairs',
     'After any history of stores, the inverse limited-memory operator equals the dense BFGS inverse update applied, oldest first, to the last npairs accepted pairs starting from the identity, or from the identity times s\'y/y\'y of the newest accepted pair when scaling is on. In particular it is symmetric positive definite and maps the newest accepted y to s.',
     ['histories', 'inputs'], 'every sequence of store operations up to a length beyond the memory size over a menu of pairs, every memory size 1..4, scaling on and off, several dimensions',
     'One test stores random pairs once with one memory size and never scales.',
     [LBF], [('two-loop recursion over a circular buffer', 'InverseLBFGSOperator.lbfgs_matvec, store')],
     state=[('insert, s, y, ys', 'circular buffer of pairs', 'InverseLBFGSOperator')], observe=['dense form, products'],
     technique='bounded-exhaustive exploration of store histories on the real operator against the dense BFGS recursion')

prop('C11', 'Forward L-BFGS forms invert the inverse form',
     'After any history of stores, with any memory size and scaling option, the forward and compact limited-memory operators agree with each other and are the exact inverse of the inverse operator fed the same pairs, and map the newest accepted s to y. The structured operator stays symmetric, equals the structured update formula applied to its accepted triples, and maps its newest accepted s to the structured y.',
     ['histories', 'inputs'], 'as C10, for the forward, compact and structured forms',
     'One test checks the product of the forward and inverse forms after one fixed-length random history; compact and structured forms are untested.',
     [LBF], [('outer-product form', 'LBFGSOperator.lbfgs_matvec'), ('compact form', 'CompactLBFGSOperator.lbfgs_matvec'), ('structured form', 'StructuredLBFGSOperator')],
     state=[('insert, s, y, ys, yd', 'circular buffer', 'LBFGS operators')], observe=['dense form, products, composition'],
     technique='bounded-exhaustive exploration of store histories on the real operators against dense updates')

prop('C12', 'L-BFGS operators keep only what was accepted',
     'A limited-memory operator rejects pairs without positive curvature without changing in any way, forgets everything when restarted (behaving then like a new operator whatever happened before), and is unaffected by products computed between stores or by the caller overwriting vectors after storing them or results after computing them. The sum of these histories depends only on the accepted pairs since the last restart.',
     ['histories'], 'every sequence up to a length of accepted stores, rejected stores, restarts, products and caller overwrites, for each form',
     'One test rejects two pairs on a fresh operator; restart and overwrites are untested.',
     [LBF], [('curvature threshold', 'store'), ('restart', 'restart'), ('copies of s and y', 'store')],
     state=[('insert, s, y, ys', 'circular buffer', 'InverseLBFGSOperator')], observe=['dense form after each step'],
     technique='breadth-first exploration of lifecycle histories on the real operators against a list-of-pairs model')

prop('C13', 'A solver that says converged has converged',
     'When an iterative solver for square systems reports convergence, the true residual of the solution it returns meets the tolerance in force (the larger of the absolute tolerance and the relative one times the initial residual; SYMMLQ and MINRES: their relative tolerance, or for MINRES its direct-error tolerance or, on an inconsistent system, a negligible residual of the normal equations), up to rounding. When the true residual does not meet it, convergence is not reported, whatever the operator, right-hand side, tolerances or iteration budget.',
     ['inputs', 'configurations'], 'every small symmetric/unsymmetric system over an integer alphabet, structured larger ones, every budget from 1 up, several tolerances, singular, indefinite and ill-suited systems included',
     'The tests run CG on Poisson systems to convergence only.',
     SQ + [GEN], [('stopping test on the recursive residual', 'solve loops'), ('final flag', 'self.converged = ...')],
     observe=['converged, bestSolution, residNorm0 against b - A x'],
     technique='bounded-exhaustive enumeration of systems, tolerances and budgets, each real solve judged against dense residuals')

prop('C14', 'Solvers solve what their theory says they solve',
     'On every system in its class (CG: symmetric/Hermitian positive definite; MINRES, SYMMLQ: symmetric nonsingular; CGS, BiCGSTAB, TFQMR: nonsingular systems on which the method does not break down) each solver converges, with default settings and a sufficient budget, to the solution, within the number of products given by finite termination, up to rounding, and the returned solution matches the dense one.',
     ['inputs'], 'every small system over an integer alphabet in the class, plus structured families of larger size; exact rational reference runs decide breakdown',
     'Only CG on Poisson systems is tested.',
     SQ, [('Krylov recurrences', 'solve loops')], observe=['converged, bestSolution, nMatvec'],
     technique='bounded-exhaustive enumeration of systems against dense solutions, with an exact-rational replay of the method deciding applicability')

prop('C15', 'Products are counted and budgeted truthfully',
     'A solver for square systems reports exactly the number of operator-vector products it performed (the product for a supplied initial guess included; optional symmetry checks excluded) and performs no more than the given maximum, apart from the one needed to evaluate the residual of a supplied guess and the two that SYMMLQ needs to start. Stopped at any budget it returns the iterate it had reached, which is the one that the method defines, and the residual norm it reports is that of the returned solution (for TFQMR, within its documented bound).',
     ['inputs', 'configurations', 'crash_points'], 'every budget from 1 to past convergence on every system of a small family, with and without guess and preconditioner',
     'The tests do not count products nor limit them.',
     SQ, [('nMatvec bookkeeping and matvec_max tests', 'solve loops')], observe=['products seen by the operator, nMatvec, residNorm'],
     technique='exhaustive enumeration of interruption points (budgets) of real solves with an instrumented operator')

prop('C16', 'Preconditioning changes the path, not the answer',
     'With any symmetric positive definite preconditioner (for the unsymmetric solvers any nonsingular one), given as an operator, each solver converges to the same solution as without it, satisfies its own stopping test in the norm it documents, and with the exact inverse as preconditioner converges in at most two iterations. A preconditioner given to the constructor is used by every solve.',
     ['inputs', 'configurations'], 'every diagonal and small dense preconditioner from an alphabet on every system of a family, for every solver that accepts one',
     'No test uses a preconditioner.',
     SQ, [('self.precon * r in each loop', 'solve loops')], observe=['solution, converged, number of products with A and with the preconditioner'],
     technique='bounded-exhaustive enumeration of system/preconditioner pairs on the real solvers against dense solutions')

prop('C17', 'An initial guess is honoured',
     'Starting from any initial guess, a solver that accepts one converges to the solution of the same system; its initial residual norm is that of the guess, a guess that already solves the system is returned unchanged as converged with no iteration, and a guess stopped before any iteration is returned as it was with its residual. Solving from guess g for right-hand side b gives g plus the solution from zero for the residual of g, under the same stopping threshold.',
     ['inputs', 'configurations'], 'every guess in a small lattice on every system of a family, every budget',
     'No test supplies a guess.',
     SQ[:4], [('initial residual from the guess', 'solve')], observe=['bestSolution, residNorm0, nMatvec'],
     technique='bounded-exhaustive enumeration of guesses, with a differential check between equivalent real solves')

prop('C18', 'Solving has no side effects on the caller',
     'A solve modifies neither the right-hand side, the guess, the operator\'s or preconditioner\'s data, nor Numpy\'s global random state, and writes nothing to standard output when display is off. This holds however the solve ends, and the returned solution shares no memory with the caller\'s arrays or the operator\'s.',
     ['inputs', 'configurations'], 'every solver with every combination of option settings on every system of a small family, including trivial and failing ones',
     'No test checks its inputs after a solve.',
     SQ + LS + [UT], [('copies of rhs and guess', 'solve'), ('private random state', 'check_symmetric')], observe=['arguments before/after, np.random state, captured stdout, memory overlap'],
     technique='exhaustive enumeration of option combinations on the real solvers with snapshots of caller-visible state')

prop('C19', 'A solver object can be reused',
     'Solving with a solver object that has already been used, any number of times, with any right-hand sides, options and outcomes (including solves that raised), gives the same results, outcome flags and histories as solving with a new object. Two solver objects never influence each other, even when they share an operator and their solves are interleaved or nested one inside the other\'s products.',
     ['histories', 'schedules', 'fault_sequences'], 'every sequence up to a length of solves from a menu (normal, trivial, budget-limited, failing, indefinite), for every solver; nested solves',
     'Every test builds a new solver per solve.',
     SQ + LS + [GEN], [('per-solve initialisation', 'solve')], state=[('attributes', 'results of the last solve', 'KrylovMethod')], observe=['all public result attributes after each solve'],
     technique='breadth-first exploration of solve histories on real solver objects, differential against fresh objects')

prop('C20', 'Watching a solve does not change it',
     'Storing iterates, storing residuals, displaying, logging at any level and (on well-formed input) argument checking leave the solution, the outcome and the reported norms unchanged. Stored histories are consistent: they start at the initial guess or residual (those of CRAIG at its first iterate), hold one independent snapshot per step, end with the returned solution or residual norm, and each stored residual or norm is that of the corresponding iterate.',
     ['configurations', 'inputs'], 'every subset of observation options for every solver on every system of a family',
     'No test turns an observation option on.',
     SQ + LS, [('appends of copies', 'solve loops')], observe=['x, iterates, resids, residHistory'],
     technique='exhaustive enumeration of option subsets, differential between real solves and against dense residuals')

prop('C21', 'LSQR and LSMR solve (damped) least-squares problems',
     'For every operator shape and rank, right-hand side and damping, LSQR and LSMR return the minimum-norm solution of the (damped) linear least-squares problem to the accuracy of their tolerances when they report an optimal stop, and stop codes mean what they say: compatible, least-squares, ill-conditioned, iteration limit reached at the limit, direct error small. With weighting operators they solve the correspondingly weighted problem.',
     ['inputs', 'configurations'], 'every small integer matrix (all shapes up to 3x3, all ranks) with every small right-hand side, damping and limits; structured larger ones; weights',
     'The least-squares solvers have no tests at all.',
     LS[:2], [('Golub-Kahan bidiagonalization and rotations', 'solve')], observe=['x, istop, optimal, itn'],
     technique='bounded-exhaustive enumeration of least-squares problems on the real solvers against dense pseudo-inverse solutions')

prop('C22', 'CRAIG and CRAIG-MR solve the quasi-definite system',
     'The generalised CRAIG method returns x and r solving the symmetric quasi-definite system with blocks M, A, A\' and -N (identity blocks by default) and right-hand side (b, 0), and CRAIG-MR returns the r part of the same system, to the accuracy of their tolerances once enough iterations are made; every iterate satisfies the definition of the method no matter the shape or rank of A. The direct-error stop is only reported when the error is small.',
     ['inputs', 'configurations'], 'every small integer matrix with every small right-hand side, with and without weights; structured larger ones',
     'The least-squares solvers have no tests at all.',
     LS[2:], [('generalised Golub-Kahan and rotations', 'solve')], observe=['x, r, istop'],
     technique='bounded-exhaustive enumeration of quasi-definite systems on the real solvers against dense solutions')

prop('C23', 'Trivial and degenerate problems end cleanly',
     'On a zero right-hand side, a right-hand side orthogonal to the range, an exact starting point, a zero iteration budget or a one-dimensional or zero operator, and on systems outside its class on which it breaks down or diverges, every solver returns without raising, with a finite solution of the right size. A zero right-hand side gives the exact zero solution reported as a success (where the method reports success), and no success is reported for a nonzero residual.',
     ['inputs', 'configurations'], 'every degenerate problem of a catalogue crossed with every solver and option set',
     'No test reaches a degenerate problem.',
     SQ + LS, [('early exits', 'solve')], observe=['exceptions, x, converged/optimal'],
     technique='exhaustive enumeration of the degenerate-problem catalogue on the real solvers')

prop('C24', 'CG detects non-positive curvature and only that',
     'With curvature checking on, CG stops on the first search direction along which the operator does not have positive curvature, reports the operator as not definite, does not report convergence unless the residual is small, and stores that direction, along which the quadratic form is indeed not positive; before that the iterates are those of CG. On a positive definite operator it never does so, and with checking off it never stops for that reason.',
     ['inputs', 'configurations'], 'every small symmetric integer matrix (definite, semidefinite, indefinite) with every small right-hand side, several larger spectra',
     'The tests use positive definite operators only.',
     SQ[:1], [('check_curvature branch', 'CG.solve')], observe=['definite, infiniteDescent, converged, bestSolution'],
     technique='bounded-exhaustive enumeration of symmetric systems with an exact-rational CG model as oracle')

prop('C25', 'Shifted solves solve the shifted system',
     'With a shift, MINRES and SYMMLQ solve the system with that multiple of the identity subtracted from the operator, as if the shifted operator had been given without a shift, with and without a preconditioner. A zero shift is the same as no shift.',
     ['inputs', 'configurations'], 'every small symmetric matrix, right-hand side and shift of an alphabet for which the shifted matrix is nonsingular',
     'MINRES and SYMMLQ are untested.',
     SQ[4:], [('y -= shift*v', 'solve loops')], observe=['solution, residual, number of products'],
     technique='bounded-exhaustive enumeration of shifted systems, dense solutions plus a differential with the explicitly shifted operator')

prop('C26', 'Quadratic roots are the real roots',
     'The quadratic root finder returns exactly the real roots of the polynomial it is given (two, equal ones listed twice, for a quadratic with real roots; one for a linear polynomial; none when there is no real root or the polynomial is a nonzero constant; zero for the zero polynomial), even when the coefficients differ by many orders of magnitude. Each root is accurate to near machine precision, or, for an ill-conditioned quadratic refined only once (the default), to a relative error of about the conditioning tolerance.',
     ['inputs'], 'every coefficient triple of an integer grid and of a grid of signed powers of ten, every refinement count',
     'No test calls it.',
     [UT], [('cancellation-free formula and Newton refinement', 'roots_quadratic')], observe=['returned roots'],
     technique='exhaustive enumeration of coefficient grids against exact rational root isolation')

prop('C27', 'Symmetry and definiteness checks judge correctly',
     'The symmetry check accepts every symmetric (with the option, Hermitian) operator and rejects square operators that are clearly not symmetric and non-square ones; the definiteness check accepts every positive definite (with the option, semidefinite) operator and rejects negative definite, zero (unless semidefinite is asked) and non-square ones, and operators whose quadratic form has an imaginary part. Neither modifies the operator nor reseeds the global random generator.',
     ['inputs'], 'every small integer matrix of sizes 1 to 3, several larger ones, across seeds of the random stream',
     'The tests call them on two L-BFGS operators only.',
     [UT], [('random probes', 'check_symmetric, check_positive_definite')], observe=['returned value, np.random state'],
     technique='exhaustive enumeration of small matrices; the random probe stream is owned by enumerated seeds')

prop('C28', 'Gallery operators are the Poisson matrices',
     'The gallery products equal, for every problem size and every vector of any numeric type, the product with the dense one- and two-dimensional five-point Poisson matrices; they are symmetric, and leave their argument unmodified.',
     ['inputs'], 'every size up to a bound with every basis vector and type',
     'The tests use them as CG matrices with one vector each.',
     ['pykrylov/gallery/gallery.py'], [('stencil updates', 'Poisson1dMatvec, Poisson2dMatvec')], observe=['returned vector'],
     technique='exhaustive enumeration of sizes and basis vectors against explicitly assembled matrices')

prop('C29', 'A failing product fails the solve cleanly',
     'If the user\'s operator (or preconditioner) raises during any product of a solve, that very exception reaches the caller, the caller\'s vectors are unmodified, and the operators and the solver object can be used again with the same results as if the failed solve had not happened. The same holds for products of composed, block and restricted operators.',
     ['fault_sequences', 'crash_points'], 'a fault at every product (A, A transposed, preconditioner) of every solve of a family, then a retry; every leaf of composed operators',
     'No test injects a failure.',
     SQ + LS + [LIN, BLK], [('no exception handling around user products', 'all')], observe=['exception, arguments, result of the retry'],
     technique='exhaustive fault injection at every operator product of real solves, differential against an undisturbed run', level='fault_enumeration')

prop('C30', 'Reported norms and estimates describe the returned solution',
     'The norms that the least-squares solvers and MINRES/SYMMLQ report (residual norm, damped residual norm, norm of the normal-equations residual, solution norm, variances at full convergence, initial residual norm) agree with the values computed from the returned solution (for the normal-equations residual of MINRES and CRAIG, from the iterate before it), and operator-norm and condition estimates stay within their documented relation to the true ones. This holds wherever the iteration was stopped.',
     ['inputs', 'configurations', 'crash_points'], 'every iteration limit from 1 to past convergence on every problem of a family',
     'No test reads these values.',
     LS + SQ[4:], [('recurrences for the norms', 'solve')], observe=['r1norm, r2norm, Arnorm, xnorm, var, rnorm, ynorm, Anorm, Acond'],
     technique='exhaustive enumeration of stopping points of real solves against dense norms')

prop('C31', 'Solvers work in the right arithmetic',
     'Integer operators, right-hand sides and guesses give the same solution as their floating-point equivalents, single precision data is solved to single precision accuracy, and complex systems (Hermitian positive definite for CG, unsymmetric for CGS, BiCGSTAB and TFQMR) are solved with complex arithmetic so that what is reported as converged is. The type of the solution is the floating-point promotion of the types of operator and right-hand side (double precision for SYMMLQ and the least-squares solvers).',
     ['inputs', 'configurations'], 'every combination of operator, right-hand-side and guess types on every system of a small family; every small complex system over a Gaussian-integer alphabet',
     'The tests use double precision real systems only.',
     SQ[:4] + LS, [('result_type promotion and conjugated inner products', 'solve')], observe=['dtype and value of the solution, converged'],
     technique='bounded-exhaustive enumeration of type combinations and complex systems on the real solvers against dense solutions')


prop('C32', 'Solves commute with scaling and symmetries of the problem',
     'Without absolute tolerances, multiplying the right-hand side (and the guess), the operator (with its shift and damping), the preconditioner or the weights by a positive factor, changing the sign of the right-hand side or (except for CG) of the operator, changing signs of unknowns and equations, and complex conjugation transform the solution and the reported norms accordingly and leave the outcome (convergence, stop code, number of iterations and products) unchanged, whatever the stopping point and for factors from 1e-27 to 1e27.',
     ['inputs', 'configurations'], 'every transformation of a list applied to every system and stopping point of a family',
     'No test solves the same problem twice in different units.',
     SQ + LS, [('relative thresholds and weighted norms in the stopping tests', 'solve')], observe=['solution, outcome and norms of the transformed solve'],
     technique='exhaustive enumeration of (system, transformation, stopping point) on the real solvers, metamorphic oracle')


CLAIMED = None    # None: every property whose module exists


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    root = os.path.dirname(here)
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mechanism']],
                                  state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                                  observe_at=list(p['observe']), hook_needed=None))
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(here, 'props', p['id'].lower() + '.py')):
            checks.append(dict(property=p['id'], quick_cmd='./check %s' % p['id'],
                               thorough_cmd='./check %s --tier thorough' % p['id'],
                               evidence_file='evidence/%s.json' % p['id'],
                               technique=p['technique'], level=p['level'], level_note=p['note'] or TRUST))
        else:
            na.append(dict(property=p['id'], reason='check not built yet'))
    m = dict(version=1, setup_cmd='./check --setup', checks=checks, not_applicable=na,
             notes='No hooks are needed: every check drives the public API of the translated tree.')
    with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
