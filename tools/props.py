prop('C01', 'Proximal operators return the minimiser of their defining problem',
     'For every real or complex array and every non-negative threshold '
     '(scalar or array), the proximal operators of the l1 and l0 norms, of '
     'the group l2 norm over any choice of axes, and of the sum of the l1 and '
     'l2 norms return the exact minimiser of the corresponding proximal '
     'problem, defined (finite) at every entry, including zero entries and '
     'entries at the threshold. The argument is not modified and the result '
     'has its shape; the norm functions return the norm, per group, that the '
     'operators refer to.',
     ['inputs', 'configurations'],
     'all array shapes and values, real and complex, all thresholds, all '
     'grouping axes',
     'tests compare a few random arrays with stored values; optimality must '
     'hold at zeros, ties, any rank and any grouping',
     ['sporco/prox/_lp.py', 'sporco/prox/_l21.py', 'sporco/array.py'],
     [('soft/hard thresholding', 'sporco/prox/_lp.py prox_l1, prox_l0'),
      ('group shrinkage', 'sporco/prox/_lp.py prox_l2'),
      ('composition', 'sporco/prox/_l21.py prox_sl1l2')],
     ['return value of the operators'])
prop('C02', 'Ball projections return the nearest point of the ball',
     'Projection onto an l1 or l2 ball of any radius returns its argument '
     'when it lies inside the ball and otherwise a point on the sphere: a '
     'rescaling of the argument (or of its offset from the centre) for l2, a '
     'common shrinkage of all entries of each group, keeping signs, for l1. '
     'This holds for every shape, every choice of axes and either l1 method, '
     'and the argument is not modified.',
     ['inputs', 'configurations'],
     'all arrays, radii, axes and methods',
     'tests project a handful of random vectors with a fixed axis; '
     'optimality is a universally quantified condition on pairs of entries',
     ['sporco/prox/_lp.py', 'sporco/prox/_l1proj.py', 'sporco/prox/_util.py',
      'sporco/linalg.py'],
     [('l2 rescaling', 'sporco/prox/_lp.py proj_l2'),
      ('l1 root finding and sorting', 'sporco/prox/_l1proj.py'),
      ('axis grouping', 'sporco/prox/_util.py ndto2d, ndfrom2d')],
     ['return value of the projections'],
     'The norm of the sort based l1 projection is checked at run time only '
     '(sorting is opaque); the root finder is assumed to return an exact '
     'root, its bracketing precondition is proved. ')
prop('C03', 'Structured frequency-domain solvers solve the system they document',
     'For every set of coefficient arrays, every positive regularisation '
     '(scalar or diagonal) and every right-hand side, the diagonal-plus-'
     'rank-one and diagonal-plus-multiple-rank-one solvers return the '
     'solution of the documented linear system, identically with and without '
     'the precomputed auxiliary array, for every axis convention. The '
     'array-valued inner product, axis-wise matrix product and block '
     'circulant construction equal their definitions, and no argument is '
     'modified.',
     ['inputs', 'configurations'],
     'all sizes, all complex values, all axis positions, cached or not',
     'tests solve one fixed-size random system per function',
     ['sporco/linalg.py'],
     [('Sherman-Morrison', 'sporco/linalg.py solvedbi_sm, solvedbd_sm'),
      ('iterated Sherman-Morrison',
       'sporco/linalg.py solvemdbi_ism, solvemdbi_rsm, solvemdbi_cg'),
      ('contractions', 'sporco/linalg.py inner, dot, block_circulant')],
     ['return values'],
     'The multiple rank-one solvers are proved for one and two terms (the '
     'positivity of the pivots is an assumed lemma) and checked at run time '
     'for three to five. ')
prop('C04', 'Dense factorised solvers solve the system for tall and wide matrices',
     'Solving with a factorisation (LU or Cholesky, either triangle) of the '
     'smaller of the two Gram matrices returns the solution of the '
     'regularised normal equations from the left or from the right, for '
     'matrices with more rows than columns, fewer, or equally many. The '
     'symmetric Sylvester variant is solved for every symmetric pair, given '
     'as matrices, diagonals or eigendecompositions, definite or not, '
     'whenever it is nonsingular.',
     ['inputs', 'configurations'],
     'all matrix shapes and values, positive regularisation',
     'tests use one tall and one wide random matrix and only positive '
     'semidefinite Sylvester operands',
     ['sporco/linalg.py'],
     [('matrix inversion lemma', 'sporco/linalg.py lu_solve_*, cho_solve_*'),
      ('eigendecomposition', 'sporco/linalg.py solve_symmetric_sylvester')],
     ['return values'])
prop('C06', 'Solver loops account exactly for the iterations they perform',
     'However many iterations are allowed, wherever a previous call stopped '
     'and whatever the steps compute, the solve methods of the ADMM, PGM and '
     'dictionary learning base classes perform the steps of each iteration '
     'once, in order and on the current state; number iterations '
     'consecutively across restarts; append one statistics record per '
     'iteration with the values of that iteration (none with FastSolve for '
     'ADMM and PGM); stop exactly when the callback returns true, the '
     'residuals meet the tolerances or MaxMainIter is reached; and return '
     'the current solution. In dictionary learning each step uses the '
     'newest output of the other one.',
     ['histories', 'inputs', 'configurations'],
     'all iteration counts, restarts, callback answers and residual values',
     'tests run a few fixed problems; loop accounting must hold for every '
     'interleaving of stopping reasons, restarts and options',
     ['sporco/admm/admm.py', 'sporco/pgm/pgm.py',
      'sporco/dictlrn/dictlrn.py'],
     [('main loops', 'ADMM.solve, PGM.solve, DictLearn.solve'),
      ('statistics', 'iteration_stats, IterStatsConfig.iterstats'),
      ('restart counter', 'attributes k and j')],
     ['itstat', 'attributes k and j', 'arguments of the callback',
      'value returned by solve'],
     'MaxMainIter is at least one. ')
prop('C07', 'Penalty adaptation preserves the unscaled multiplier',
     'For every iteration number, residual pair and AutoRho setting, '
     'updating the ADMM penalty keeps rho positive, leaves the product of '
     'rho and the scaled dual variable unchanged, changes rho only on '
     'iterations selected by the period (never on the first), by the '
     'documented factor and in the direction of the dominating residual, '
     'and signals the change once, after rho has its new value.',
     ['inputs', 'configurations'],
     'all residuals, penalties, iteration numbers and AutoRho options',
     'tests never look at the dual variable across a penalty change',
     ['sporco/admm/admm.py'],
     [('adaptive penalty', 'sporco/admm/admm.py ADMM.update_rho')],
     ['attributes rho and U', 'calls of rhochange'])
prop('C08', 'ADMM residuals and stopping tolerances equal their definitions',
     'For every problem size and iterate, the primal and dual residuals and '
     'tolerances computed by the general, equality, two-block, consensus '
     'and weighted consensus ADMM base classes equal the norms of A x + B y '
     '- c and rho A^T B (y - y_prev) and the documented tolerances, in the '
     'standard and in the normalised form (where a zero normaliser is '
     'replaced by one), from the unrelaxed A x, without changing the '
     'iterate.',
     ['inputs', 'configurations'],
     'all iterates, penalties, weights, tolerances and constraint operators',
     'tests only see that solvers stop; a wrong residual only shifts when',
     ['sporco/admm/admm.py'],
     [('residual norms', 'rsdl_r, rsdl_s of the five classes'),
      ('normalisers', 'rsdl_rn, rsdl_sn of the five classes'),
      ('stopping tolerances', 'ADMM.compute_residuals')],
     ['PrimalRsdl, DualRsdl, EpsPrimal, EpsDual'])
prop('C09', 'ADMM base classes implement the relaxed scaled-form iteration',
     'For every problem size, iterate and relaxation parameter, relaxation, '
     'dual update, consensus averaging and the block structure of the ADMM '
     'base classes follow the relaxed scaled ADMM recursion for their '
     'constraint: AX is the relaxed combination of A x and the y of the '
     'previous iteration, the dual variable accumulates its residual with '
     'the new y, the consensus step applies the proximal operator to the '
     '(weighted) mean with the total penalty, the two blocks partition y, '
     'and objective and solution are evaluated at the variables selected by '
     'the options. Initial values are copied, not aliased.',
     ['inputs', 'configurations'],
     'all shapes, iterates, weights, relaxation parameters and options',
     'tests check convergence of derived solvers on one problem each',
     ['sporco/admm/admm.py'],
     [('relaxation', 'relax_AX of the five classes'),
      ('dual update', 'ustep'), ('consensus', 'ystep'),
      ('block structure', 'block_sep0, block_sep1, block_cat')],
     ['attributes X, Y, U, AX', 'eval_objfn', 'getmin'])
prop('C10', 'Proximal gradient steps follow the documented accelerated method',
     'For every iterate, gradient, step parameter and option, one PGM '
     'iteration takes the proximal step from Y with the current (possibly '
     'policy-chosen) inverse step size, extrapolates with the documented '
     'momentum sequence, never increases the objective in monotone mode '
     '(where the solution, its transform and the recorded objective stay '
     'consistent), and computes the documented residual. Backtracking, '
     'standard or robust, ends with f(X) at most the quadratic bound for '
     'the step size used or after exactly the allowed number of trials, '
     'increasing the inverse step size after each failed trial only, and '
     'reports F, Q and the number of trials of the point returned. The '
     'gradients, quadratic and proximal terms of the sparse coding and '
     'dictionary update solvers are those of their documented problems.',
     ['inputs', 'histories', 'configurations'],
     'all iterates, objectives, trial counts, momentum and step size rules',
     'tests run default options to convergence, where a wrong momentum or '
     'line search still converges',
     ['sporco/pgm/pgm.py', 'sporco/pgm/backtrack.py',
      'sporco/pgm/momentum.py', 'sporco/pgm/stepsize.py',
      'sporco/pgm/bpdn.py', 'sporco/pgm/cmod.py', 'sporco/pgm/cbpdn.py',
      'sporco/pgm/ccmod.py'],
     [('proximal step', 'PGM.xstep, PGMDFT.xstep'),
      ('extrapolation', 'PGM.ystep, PGMDFT.ystep, momentum.py'),
      ('line search', 'backtrack.py'), ('step size', 'stepsize.py')],
     ['attributes X, Y, L, t, F, Q, iterBTrack'])
prop('C11', 'Gradient operators have true adjoints and documented boundaries',
     'For every array shape and every list of axes, leading or not, negative '
     'or not, the gradient operators are the forward differences with the '
     'documented boundary values and their transposes are the exact '
     'adjoints; frequency-domain gradient filters correspond to the axes '
     'they were requested for; and the constraint operators and their '
     'adjoints of the total variation solvers satisfy the adjoint identity '
     'that the residual definitions rely on.',
     ['inputs', 'configurations'],
     'all array shapes and values, all axes',
     'tests use one 2-d array with leading axes; adjointness must hold for '
     'every pair of arrays',
     ['sporco/signal.py', 'sporco/admm/tvl1.py', 'sporco/admm/tvl2.py'],
     [('finite differences', 'sporco/signal.py grad, gradT'),
      ('filters', 'sporco/signal.py gradient_filters'),
      ('TV constraint', 'cnst_A, cnst_AT of the TV solvers')],
     ['return values'])
prop('C12', 'Dictionary projection yields the nearest feasible dictionary',
     'For every dictionary array, any number of spatial dimensions, one '
     'filter size or several, single or multi-channel, with or without the '
     'zero-mean constraint, cropped or zero-padded, the constraint '
     'projection returns the nearest feasible dictionary: zero outside the '
     'support of each filter, of zero mean over the support of each channel '
     'if requested, of unit norm per filter (over all channels of a '
     'multi-channel dictionary), a zero filter staying zero, and otherwise a '
     'positive rescaling of the orthogonal projection of the argument, which '
     'is not modified. Dictionary update steps apply it to their primal '
     'variable plus dual variable.',
     ['inputs', 'configurations'],
     'all arrays, sizes, 1 to 3 spatial dimensions, block structures and '
     'option combinations listed',
     'tests check the support or the norm of one 2-d example, not '
     'optimality, other dimensions or the combination of options',
     ['sporco/cnvrep.py', 'sporco/admm/cmod.py'],
     [('composition', 'sporco/cnvrep.py getPcn, _Pcn*'),
      ('parts', 'sporco/cnvrep.py bcrop, zpad, zeromean, normalise')],
     ['return value of the projection'],
     'Blocks of different filter sizes are covered for two blocks (and two '
     'channel blocks) in one and two dimensions. ')
prop('C13', 'Internal layouts of signals, dictionaries and weights keep the data',
     'For every shape of signal, dictionary, weight and mask accepted, with '
     'or without channel and signal axes, the problem dimensions are those '
     'of the documented rule, and the internal five-axis layouts (spatial, '
     'channel, signal, filter) of signal, dictionary, l1 weights and masks '
     'hold the same data on the matching axes, compatible with the '
     'coefficient array; a mismatch of channels between a multi-channel '
     'dictionary and the signal is rejected.',
     ['inputs', 'configurations'],
     'all sizes, 1 to 3 spatial dimensions, all axis combinations',
     'tests check a few shapes; a weight on the wrong axis broadcasts '
     'silently',
     ['sporco/cnvrep.py'],
     [('dimension rule', 'CSC_ConvRepIndexing, CDU_ConvRepIndexing'),
      ('weights', 'l1Wshape, mskWshape'),
      ('dictionary sizes', 'DictionarySize, stdformD')],
     ['attributes of the indexing objects', 'returned shapes'])
prop('C16', 'Solver steps solve their documented subproblem for current data',
     'For every dictionary or operator currently set, every penalty '
     'parameter after any sequence of updates and every state of the other '
     'variables, each step of a sparse coding, dictionary update, total '
     'variation (also TV-regularised convolutional), spline or robust PCA '
     'solver returns the exact solution of the subproblem its problem '
     'formulation prescribes: linear steps satisfy the normal equations, '
     'proximal steps are the proximal operator with the documented '
     'threshold, weights and constraints. Cached factorisations always '
     'belong to the current operator and penalty.',
     ['inputs', 'histories', 'configurations'],
     'all data, operators, penalties, weights, iterates and option settings '
     'listed',
     'tests check that solvers approach a known solution; a stale '
     'factorisation or wrong weight in one option combination still '
     'converges or is never run',
     ['sporco/admm/bpdn.py', 'sporco/admm/cmod.py', 'sporco/admm/tvl1.py',
      'sporco/admm/tvl2.py', 'sporco/admm/spline.py', 'sporco/admm/rpca.py',
      'sporco/admm/cbpdntv.py'],
     [('linear steps', 'xstep of the solver classes'),
      ('proximal steps', 'ystep of the solver classes'),
      ('cached factors', 'setdict, rhochange')],
     ['attributes X and Y'],
     'Iterative inner solvers (Gauss-Seidel sweeps) are proved to perform '
     'the documented sweep, not to converge. ')
prop('C22', 'Convolutional solver steps solve the documented subproblem',
     'For every dictionary or coefficient array currently set, every '
     'penalty parameter after any sequence of updates, every mask, weight '
     'and state of the other variables, each step of the ADMM solvers for '
     'convolutional sparse coding (including constrained, masked, product '
     'dictionary, inhibition and parallel variants) and convolutional '
     'dictionary update (including mask decoupling and consensus) returns '
     'the exact solution of the subproblem its documentation prescribes, '
     'with the documented thresholds, weights and constraints, using cached '
     'factors that belong to the current dictionary and penalty.',
     ['inputs', 'histories', 'configurations'],
     'all data, dictionaries, masks, penalties, weights, iterates; '
     'single/multi-channel and option settings listed',
     'tests check that solvers approach a known solution; a stale '
     'factorisation, wrong axis or wrong weight in one option combination '
     'still converges or is never run',
     ['sporco/admm/cbpdn.py', 'sporco/admm/cbpdnin.py',
      'sporco/admm/pdcsc.py', 'sporco/admm/ccmod.py',
      'sporco/admm/ccmodmd.py', 'sporco/admm/parcbpdn.py'],
     [('linear steps', 'xstep of the solver classes'),
      ('proximal steps', 'ystep of the solver classes'),
      ('cached factors', 'setdict, setcoef, rhochange')],
     ['attributes X and Y'],
     'Iterative inner solvers (conjugate gradient) are assumed to solve '
     'their system; the parallel solver is additionally run end to end '
     '(bounded). ')
prop('C17', 'Reported objective values equal the documented functional',
     'For every solver covered and every value of its variables, the '
     'objective components written to the iteration statistics (data '
     'fidelity, regularisation terms, constraint violation) equal the '
     'documented functional, with the weights and options in effect, '
     'evaluated at the variables the options select, and the total is their '
     'documented combination.',
     ['inputs', 'configurations'],
     'all data, iterates, weights and option settings listed',
     'tests never compare reported objective values with an independent '
     'evaluation, so a wrong weight or constant is invisible',
     ['sporco/admm/bpdn.py', 'sporco/admm/cmod.py', 'sporco/admm/tvl1.py',
      'sporco/admm/tvl2.py', 'sporco/admm/spline.py', 'sporco/admm/rpca.py',
      'sporco/admm/cbpdn.py', 'sporco/admm/cbpdntv.py',
      'sporco/admm/cbpdnin.py', 'sporco/admm/pdcsc.py',
      'sporco/admm/ccmod.py', 'sporco/admm/ccmodmd.py',
      'sporco/admm/parcbpdn.py'],
     [('functional values', 'eval_objfn, obfn_* of the solver classes')],
     ['itstat objective fields'])
prop('C21', 'Dictionary learning alternates consistent steps on current data',
     'For every signal set, initial dictionary, weight, mask and setting '
     'listed, dictionary learning works on the normalised, zero-padded '
     'initial dictionary in both parts, each coding step uses the '
     'dictionary just computed and each dictionary step the coefficients '
     'just computed; the parallel consensus variants perform the documented '
     'ADMM steps for every signal; online learning codes the current '
     'signals and takes the documented projected gradient step; the '
     'recorded objective is that of the current dictionary and '
     'coefficients.',
     ['inputs', 'histories', 'configurations'],
     'all data, dictionaries, weights, masks, iterates; layouts and method '
     'combinations listed',
     'tests only check that dictionary learning runs; a stale dictionary, a '
     'skipped signal or a wrong objective in one combination goes unnoticed',
     ['sporco/dictlrn/dictlrn.py', 'sporco/dictlrn/cbpdndl.py',
      'sporco/dictlrn/cbpdndlmd.py', 'sporco/dictlrn/bpdndl.py',
      'sporco/dictlrn/wbpdndl.py', 'sporco/dictlrn/onlinecdl.py',
      'sporco/dictlrn/prlcnscdl.py', 'sporco/dictlrn/common.py'],
     [('alternation', 'dictlrn.DictLearn.solve and the __init__ of the '
       'learning classes'),
      ('consensus steps', 'prlcnscdl module functions'),
      ('online gradient', 'onlinecdl xstep, dstep, solve'),
      ('objective', 'evaluate of the learning classes')],
     ['dictionary, coefficients and iteration statistics'],
     'The parallel map is assumed to run its tasks independently; the inner '
     'coding and update solvers are used through their contracts (C22, '
     'C10). ')
prop('C14', 'Array utilities neither lose, move nor invent data',
     'For every array shape, window, block, step and padding size accepted: '
     'zpad surrounds the array by zeros; zdivide is the quotient, or zero '
     'where the divisor is zero; promote16 preserves the value and the type '
     'returned; split and atleast_nd keep data and order; rolling_window, '
     'subsample_array and extract_blocks return exactly the documented '
     'elements and never address memory outside the array; average_blocks '
     'and combine_blocks reduce exactly the values covering each pixel and '
     'invert extract_blocks; named tuples survive conversion.',
     ['inputs'],
     'all sizes and data, 1 to 3 dimensions',
     'an out-of-range stride or a wrong order for one combination of sizes '
     'is not visible in a few sampled shapes',
     ['sporco/array.py'],
     [('windows and blocks', 'rolling_window, subsample_array, '
       'extract_blocks (strided views)'),
      ('division', 'zdivide'), ('promotion', 'promote16')],
     ['returned arrays'],
     'average_blocks, combine_blocks and the named tuple conversions are '
     'checked at run time only (bounded). ')
prop('C15', 'Fourier helpers honour axes, sizes, scaling and Parseval',
     'For every array, axis selection (also negative axes) and odd or even '
     'size: the transforms of sporco.fft are the documented transforms on '
     'the selected axes and sizes and the inverse recovers the array; '
     'fftconv is the circular convolution of the zero-padded arguments with '
     'the selected origin for real and complex data; fl2norm2 and rfl2norm2 '
     'return the squared norm of the signal from its full or half spectrum; '
     'the cosine transforms are mutually inverse; work arrays have the '
     'shape and type of the transform they are to hold; arguments are not '
     'modified.',
     ['inputs', 'configurations'],
     'all sizes and data, 1 to 4 dimensions, axis selections listed',
     'tests use a few even sizes; a half-spectrum weight wrong for odd sizes '
     'or another axis order is silent',
     ['sporco/fft.py'],
     [('half spectrum weights', 'rfl2norm2'), ('convolution', 'fftconv'),
      ('wrappers', 'fftn, ifftn, rfftn, irfftn, dctii, idctii')],
     ['returned arrays and values'],
     'The transforms of pyfftw and scipy, Parseval and the convolution '
     'theorem are assumed (checked at run time). ')
prop('C19', 'Metrics and signal utilities equal their definitions',
     'For every real, complex or integer array of equal shapes: mae, mse, '
     'snr, psnr, isnr, bsnr are the documented error measures, without '
     'integer wrap-around and without modifying the images; pamse and gmsd '
     'follow their published definitions; rgb2gray, gaussian, '
     'local_contrast_normalise, tikhonov_filter, spnoise, rndmask return '
     'the documented arrays (the two components of the Tikhonov filter add '
     'up to the input and solve its normal equations); inner, dot, '
     'block_circulant, rrs, pca, nkp, kpsvd equal the documented algebra.',
     ['inputs'],
     'all sizes and data, 1 to 4 dimensions',
     'tests check special values; a wrong constant or axis for other '
     'shapes, types or channels is silent',
     ['sporco/metric.py', 'sporco/signal.py', 'sporco/linalg.py'],
     [('errors', 'metric module'), ('filters', 'tikhonov_filter, gaussian, '
       'local_contrast_normalise'),
      ('algebra', 'inner, dot, block_circulant, rrs, pca, nkp, kpsvd')],
     ['returned arrays and values'],
     'pamse, gmsd, gaussian, local contrast, random arrays and the '
     'decompositions are checked at run time only (bounded). ')
prop('C05', 'Option trees keep settings and reject what they do not know',
     'For the option tree of every ADMM, PGM and dictionary learning base '
     'solver class and every node and leaf of it: an option given at '
     'construction (nested dict or another options object), by path, by '
     'nested assignment or by update takes exactly that value and no other '
     'option changes (apart from the documented effect of AuxVarObj); '
     'options not given keep the defaults; groups merge; an unknown key at '
     'any depth or a value in place of a group is rejected and changes '
     'nothing; class defaults, other instances and the dict passed in are '
     'never modified.',
     ['inputs', 'configurations', 'histories'],
     'all nodes and leaves of the option trees, arbitrary values; '
     'user-defined trees to depth four',
     'tests set a few options; a key check lost at one depth, or a default '
     'shared between instances, is silent',
     ['sporco/cdict.py', 'sporco/admm/admm.py', 'sporco/admm/ccmod.py',
      'sporco/admm/cbpdn.py', 'sporco/pgm/pgm.py',
      'sporco/dictlrn/dictlrn.py'],
     [('assignment', 'ConstrainedDict.__setitem__, check, update'),
      ('paths', 'getparent, getnode'),
      ('defaults', 'Options classes of the solvers')],
     ['option values', 'exceptions'],
     'Sharing of nested groups between an options object and another one '
     'built from it is not covered. ')
prop('C18', 'Timers account exactly for the time between start and stop',
     'For every sequence of start, stop, reset and elapsed calls on a Timer '
     'with any label arguments, and every sequence of clock values: each '
     'label accumulates exactly the time it was running, starting a running '
     'or stopping a stopped label changes nothing, other labels are not '
     'affected, elapsed does not change the timer, unknown labels are '
     'rejected by stop, reset and elapsed; a ContextTimer runs (or pauses) '
     'its timer exactly during the block, also when the block raises, and '
     'does not swallow the exception.',
     ['inputs', 'histories'],
     'all histories (by induction over single operations), all clock values',
     'tests check rough elapsed times of a few sequences',
     ['sporco/util.py'],
     [('state', 'Timer.t0, Timer.td'), ('blocks', 'ContextTimer')],
     ['elapsed times'])
prop('C20', 'Grid search covers the whole grid and returns its best point',
     'For every grid and function (scalar or vector valued), grid_search '
     'evaluates every grid point, returns every value at its grid position, '
     'and the minimum or maximum (NaN ignored) with its index and '
     'parameters, per component; for every number of points and ranks the '
     'ranges of the MPI ranks are consecutive, balanced and cover all '
     'points.',
     ['inputs', 'configurations'],
     'all array lengths for the rank ranges; grids up to 3 parameters '
     'sampled',
     'tests use one small grid; a point lost at a rank boundary is silent',
     ['sporco/util.py', 'sporco/mpiutil.py'],
     [('partition', 'mpiutil._get_rank_limits'),
      ('selection', 'util.grid_search')],
     ['returned values'],
     'grid_search itself is checked at run time (bounded); the pool and '
     'the MPI scan are assumed. ')
NA = []
