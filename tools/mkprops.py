"""Writes /verif/properties.jsonl (kept as code so that it stays easy to edit)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=observe, hook_needed=None)))


OPS, TYP, LOSS = 'tensorD/base/ops.py', 'tensorD/base/type.py', 'tensorD/loss.py'
FA = 'tensorD/factorization/'
CP, NCP, NTK, TK, ENV = FA + 'cp.py', FA + 'ncp.py', FA + 'ntucker.py', FA + 'tucker.py', FA + 'env.py'
PO, PN, PT, PTN = 'tensorD/base/pitf_ops.py', 'tensorD/base/pitf_ops_numpy.py', FA + 'pitf.py', FA + 'pitf_numpy.py'

p('C01', 'Matricization, folding and vectorization are the documented index bijections',
  'For every dense tensor, unfolding along a mode puts the fibres of that mode into columns ordered with the lowest remaining mode varying fastest (Kolda), general matricization places entries by the given ordered row axes and ordered column axes (the last listed axis of each group varying fastest; column axes -1 means all remaining axes in ascending order), and vectorization lists entries in row-major order. Folding an unfolding with the same mode and shape, and turning a vector back into a tensor, return exactly the original entries and shape, for every mode and every axis split. Values and dtype are preserved bit for bit, through the functional operations and through the dense-tensor class alike.',
  ['inputs'], 'every shape of order 1..5 (and larger ones up to order 14), every mode, every ordered split of the axes into rows and columns (ints, lists, tuples, -1), every numeric dtype',
  'The tests check one 3x4x2 tensor and a few axis lists; a wrong stride, axis order or inferred column list for another order, mode, unit dimension or split is never executed.',
  [OPS, TYP], [('_gen_perm/unfold/fold/t2mat/vectorize/vec_to_tensor', OPS), ('DTensor.unfold/fold/t2mat/vectorize', TYP)],
  ['values and static shape of the returned tensors'])
p('C02', 'The n-mode product multiplies exactly the selected modes by the right matrices',
  'Multiplying a tensor by a list of matrices contracts mode axis[k] of the tensor with the columns of the k-th matrix (with its rows when transposition is requested) and leaves every other mode and the order of modes unchanged; without an axis list the k-th matrix belongs to mode k, and skipped matrices leave their mode untouched. The result does not depend on the order in which (matrix, axis) pairs are listed. Giving both an axis list and a skip list is rejected with a ValueError.',
  ['inputs'], 'every tensor order 1..5 (and larger ones up to order 15), every ordered subset of modes, every skip set (int or list), both transposition settings, unit and distinct dimensions',
  'The tests use one third-order tensor with a handful of axis lists; wrong pairing for a particular order, permuted axis list or skip set is not reached.',
  [OPS], [('ttm', OPS), ('_skip', OPS)], ['values and shape of the result'])
p('C03', 'Contraction and inner product match their definitions for every axis choice',
  'Contracting two tensors along equally long axis lists sums the products over the paired axes, pairing the k-th axis of one list with the k-th of the other, and the result carries the remaining axes of the first operand followed by those of the second, in their original order; an int, a list and a tuple of axes mean the same. The inner product of two tensors of equal shape is the sum of entrywise products, and unequal shapes are rejected with a ValueError.',
  ['inputs'], 'every pair of tensors of order 1..4 and every pair of ordered axis lists of length 1..3 with matching dimensions',
  'The tests contract two fixed tensors on fixed axes in ascending order; permuted axis pairings, repeated dimensions and tuple arguments are never executed.',
  [OPS, TYP], [('mul/inner', OPS), ('DTensor.mul', TYP)], ['values and shape of the result'])
p('C04', 'Hadamard, Kronecker and Khatri-Rao products honour order, skip and reverse',
  'For every list of matrices the Hadamard, Kronecker and Khatri-Rao products equal the textbook definition applied left to right to the list that remains after dropping the skipped positions and, if requested, reversing it; skipping positions (int or list) never changes which other matrices take part. The product of largest singular values equals the product over the same remaining list, and the masked-MTTKRP helper equals the definition on every input.',
  ['inputs'], 'every list of 1..4 matrices with dimensions 1..3, every skip set leaving at least one matrix, both orders',
  'The tests cover two or three fixed matrices and one skip; interaction of skip with reverse, single-matrix lists, repeated shapes and longer lists are not executed.',
  [OPS, TYP], [('_skip/hadamard/kron/khatri/max_single_value_mul/xcb', OPS), ('DTensor.kron/khatri', TYP)], ['values and shape of the result'])
p('C05', 'A dense tensor answers every operation the same whatever was asked before',
  'For every sequence of operations on dense-tensor objects (unfolding, folding, matricization, vectorization, products, sums, differences, indexing, contraction, evaluation), each result depends only on the values of the operands and the arguments, never on earlier operations on the same or other objects. No operation changes the value, shape or later behaviour of its operands.',
  ['histories'], 'every sequence of up to four operations over the dense-tensor alphabet (two objects, all modes)',
  'Each test performs one operation on a fresh object; a cache or shared field that serves a stale answer needs two or more operations with different arguments on one object.',
  [TYP], [('DTensor methods keep self.T immutable', TYP)], ['values of returned objects and of the operands after every step'],
  [('unfold_T, fold_T', 'unfolding kept on the object', TYP)])
p('C06', 'Kruskal and Tucker tensors expand to the multilinear sum they denote',
  'Expanding a Kruskal tensor gives the weighted sum over components of the outer products of the factor columns, with weights one when none are given, whether weights come as a vector or a column and whether factors come as arrays or graph tensors. Expanding a Tucker tensor gives the core multiplied in mode n by the n-th factor. Both hold for every order from one up, every rank (smaller, equal or larger than the dimensions) and every dimension.',
  ['inputs'], 'every order 1..5, dimensions 1..4, ranks 1..4, array/tensor factors, all weight forms, float32 and float64',
  'The tests expand one or two fixed shapes; wrong weight placement, factor order or a rank/dimension coincidence is invisible there.',
  [TYP, OPS], [('KTensor.extract', TYP), ('TTensor.extract', TYP)], ['value and shape of the expansion'])
p('C07', 'Loss functions equal their definitions on every pair of tensors',
  'The L2 loss is half the sum of squared differences, RMSE is the root of the mean squared difference over all entries, and the zero-ignoring RMSE is the root of the mean squared difference over exactly those positions where the first tensor is non-zero, whatever finite values the second tensor holds there or elsewhere. Arguments with unequal shapes are rejected with the library error for both RMSE variants.',
  ['inputs'], 'all pairs of small tensors with entries from {-1, 0, 1, 2}, every order, and all pairs of small shapes',
  'Losses have no test with zeros or negative entries in chosen positions; asymmetry, masking by the wrong operand or a wrong count needs specific zero patterns.',
  [LOSS], [('l2/rmse/rmse_ignore_zero', LOSS)], ['scalar value; raised error'])
p('C08', 'Reading a coordinate file yields exactly the tensor it lists',
  'For every csv or txt file of index/value rows, in any row order and with blank lines anywhere, the dense tensor has each listed value at its zero-based index and zero everywhere else, and the sparse form lists the same entries; the shape is the given full shape, or the largest index plus one in each mode when none is given. Reading again after the file changed, or with another shape, reflects only the latest read, and unsupported extensions are rejected without touching earlier data.',
  ['inputs', 'histories'], 'every set of up to 3 entries over small index grids of order 1..4 in every row order, with/without blank lines, with/without full shape, csv and txt, and re-reads',
  'The reader test reads one file; row order, gaps, negative and fractional values, trailing empty slices and repeated reads are not reached.',
  ['tensorD/dataproc/reader.py'], [('TensorReader.read', 'tensorD/dataproc/reader.py')], ['full_data and sparse_data'])
p('C09', 'CP-ALS performs exact alternating least squares from its starting point',
  'Every training step updates the factors in mode order, each one to the least-squares optimum given the most recent values of all the others, then scales each column to largest magnitude one and keeps the scales of the last updated factor as the weights; the history records the zero-ignoring RMSE and the relative residual of the reconstruction after each step. This holds for every order, shape, rank and step count, from every starting point.',
  ['inputs', 'histories', 'configurations'], 'orders 2..5, ranks 1..4 (below and above dimensions), several value tables with and without zeros and negatives, up to 8 steps, every logging cadence',
  'The test trains once and asserts nothing; a stale factor, a wrong skip index, a wrong weight vector or a wrong residual still trains and prints.',
  [CP, OPS, TYP, LOSS], [('control dependencies order the mode updates', CP), ('lambda_op/max-norm', CP)], ['history, factors, lambdas, full'],
  [('A-n', 'factor variables', CP)])
p('C10', 'Non-negative CP follows accelerated block-coordinate descent and stays >= 0',
  'Starting from non-negative factors each scaled to the N-th root of the data norm, every step takes, mode by mode with the newest values of the other factors, a projected gradient step of length 1/Lipschitz constant from the extrapolated point; after a step that lowers the objective the extrapolation weight is the smaller of the momentum ratio and the square root of the ratio of previous to current Lipschitz constants, otherwise the extrapolated point is reset to the last accepted iterate. All returned factors are non-negative and the history reports the loss and residual of the returned iterate sequence, for every order, shape, rank and step count.',
  ['inputs', 'histories', 'configurations'], 'orders 2..5, ranks 1..4, several non-negative value tables, up to 8 steps, natural and imposed accept/reject sequences',
  'The test trains once and asserts nothing; momentum, Lipschitz bookkeeping and the reset path only show over several steps with a rejected step.',
  [NCP, OPS], [('A/Am/A0/t/t0/L/L0 updates', NCP)], ['history, factors, full'],
  [('Am-n, A0-n', 'extrapolated point and last accepted iterate', NCP), ('L, L0, t, t0, wA', 'Lipschitz constants and momentum', NCP)])
p('C11', 'Non-negative Tucker follows accelerated block-coordinate descent, stays >= 0',
  'Starting from a non-negative core and factors each scaled to the (N+1)-th root of the data norm, every step first updates the core and then the factors in mode order, each by a projected gradient step of length 1/Lipschitz constant from its extrapolated point using the newest values of everything else; accepted steps extrapolate core and factors with their own capped momentum weights, rejected steps reset all extrapolated points to the last accepted iterate. Core and factors returned are non-negative and belong to the same step, for every order, shape, rank vector and step count.',
  ['inputs', 'histories', 'configurations'], 'orders 2..4, all small rank vectors, several non-negative value tables, up to 8 steps, natural and imposed accept/reject sequences',
  'The test trains once and asserts nothing; the order-dependent bookkeeping (one more block than modes) only shows with several steps and other orders.',
  [NTK, OPS], [('g/gm/g0 and A/Am/A0 updates', NTK)], ['history, core, factors, full'],
  [('core-tensor, core_m, core_0', 'core iterate, extrapolated core, last accepted core', NTK)])
p('C12', 'HOSVD and HOOI give orthonormal factors, projected core, optimal subspaces',
  'After training, every factor has orthonormal columns, the core equals the data multiplied in every mode by the transposed factor, and the reconstruction equals the core expanded by the factors. The HOSVD factor of a mode spans the leading left singular subspace of that mode unfolding; every HOOI step replaces, mode by mode with the newest other factors, each factor by the leading left singular subspace of the data projected on the others, starting from the HOSVD factors. This holds for every order, shape and admissible rank vector.',
  ['inputs', 'histories', 'configurations'], 'orders 2..5, every admissible rank vector for small shapes, several value tables, up to 6 steps',
  'The test trains once and asserts nothing; a wrong unfolding, a stale factor or too few columns only shows against the definition.',
  [TK, OPS, TYP], [('svd initialisation and mode updates', TK)], ['factors, core, full, history'])
p('C13', 'A trained model is consistent with itself however training stopped',
  'After training ends, for any reason and with any logging setting, the reported reconstruction equals the expansion of the reported factors with the reported weights or core, predicting an entry returns exactly that entry of the reconstruction, and the last history entry is the loss and residual of that same reconstruction against the data. The history has one entry per executed step.',
  ['histories', 'configurations'], 'every model, every stop reason (step limit, residual tolerance, stall) at every step up to a bound, every logging cadence, verbose on/off, every index',
  'No test reads the reconstruction or predicts; a stale reconstruction needs a stop in a step that was not logged.',
  [CP, NCP, NTK, TK], [('results fetched in one session run', CP)], ['full, predict, factors, lambdas, core, history'])
p('C14', 'Training stops and accepts steps exactly by the stated rules',
  'Training stops at the step limit, in the step whose relative residual is strictly below the tolerance, or when the relative objective change |obj - ref| / (ref + 1) has been strictly below the tolerance in three consecutive steps, whichever comes first, and never otherwise; ref is the first objective plus one for CP-ALS and HOOI and the last accepted objective for the non-negative models, which accept a step exactly when the objective decreases strictly. The outcome does not depend on logging cadence or verbosity.',
  ['histories', 'configurations'], 'every sequence of objective answers (large/small decrease, large/small increase, equal) and residual answers (above/equal/below tolerance) up to a depth, for every iterative model and cadence',
  'Natural runs take one path through the rule; three consecutive stalls, stalls interrupted once, increases and boundary values do not occur in the tests.',
  [CP, NCP, NTK, TK], [('nstall/obj0/crit in train', CP)], ['number of steps, history, resulting factors'],
  [('nstall, obj0', 'consecutive stalls and reference objective', NCP)])
p('C15', 'Training results do not depend on the execution order of graph operations',
  'Every session call made by training computes the same results and leaves the same variable values under every execution order of its operations that the data-flow graph permits. No read of a variable can be overtaken by an update it is meant to precede, and the updates of different modes cannot be reordered.',
  ['schedules'], 'every training call of every model; for every conflicting pair of variable accesses both orders whenever the graph permits both, and earliest/latest placement of every update',
  'The tests run one schedule chosen by the runtime; a missing control dependency shows only when another ready operation is picked first.',
  [CP, NCP, NTK, TK, PT], [('tf.control_dependencies', CP)], ['fetched values and variable values after each session call'])
p('C16', 'Models do not influence each other, and retraining is a fresh start',
  'Building and training any number of models, of the same or different kinds, on the same or different data, in one graph or several and in any interleaving of build and train calls, gives each model exactly the results it gives alone. Training a model again gives the result of a first training from the same random initial values, with no trace of earlier trainings.',
  ['histories'], 'every interleaving of build/train/retrain calls of two models (all pairs of kinds), in one graph or in separate graphs',
  'Each test builds one model in one process and trains once; leakage through shared graph collections, class attributes or default arguments needs two.',
  [CP, NCP, NTK, TK, ENV], [('per-instance state and per-train session', ENV)], ['history, factors, core, full of each model'])
p('C17', 'Training reports completion only after it completed, also under failures',
  'A model reports training finished only after a training call returned normally, never before, during or after a failed one; predicting before any training raises the library error. If any session call made during training fails, the failure reaches the caller, the model does not report finished, and a later training call behaves exactly like one on an untouched model.',
  ['fault_sequences', 'histories'], 'every session call of a training run failing, for every model, in first and repeated trainings, and every position at which the life cycle can be observed',
  'No test injects a failure or looks at the state before, during or after training.',
  [CP, NCP, NTK, TK], [('_is_train_finish', CP)], ['train_finish, predict, results after retraining'])
p('C18', 'No operation modifies its arguments or the data it was given',
  'No operation, model, reader or generator changes the lists, arrays or argument objects passed to it, nor the data array supplied by the provider; results handed out earlier (history, factors, reconstruction) keep their values when the model is trained again.',
  ['inputs', 'histories'], 'every public operation with mutable arguments (axis lists, skip lists, matrix lists, shapes, rank lists, arrays) and every model through build, train and retrain',
  'The tests pass literals and never look at the arguments afterwards.',
  [OPS, TYP, CP, NCP, NTK, TK, PN, PTN], [('copies instead of in-place updates', OPS)], ['arguments compared before and after'])
p('C19', 'Pairwise-interaction sampling operators are the stated linear maps and adjoints',
  'For every sample list, sampling a matrix returns at position i its entry at the i-th sampled index pair divided by the square root of the omitted mode size, sampling a tensor returns its sampled entries, the pair operator is the sum of the three matrix samples, and the adjoint places each sample value at its index pair in a matrix of the right shape. The array and graph versions agree on every input, sampled indices always lie inside the tensor and any index of it can be drawn, and the generated matrices have the requested shape and at most the requested rank, with equal column sums for the A kind and zero column sums for the B and C kinds.',
  ['inputs'], 'every sample list up to length 3 over small shapes, all three matrices, distinct mode sizes, every rank',
  'The tests print results for one random sample list; swapped modes, a wrong scale or a transposed shape is not compared to anything.',
  [PO, PN], [('Pomega_mat/Pomega_tensor/Pomega_Pair/adjoint_operator/sample3D_rule/subspace', PO), ('same', PN)], ['returned vectors and matrices'])
p('C20', 'Pairwise-interaction proximal operators match their definitions in both versions',
  'Centralization subtracts from each column its mean; singular value thresholding shrinks the singular values of the centralized matrix by the threshold, never below zero; the shrinkage operator recombines them into a matrix and, in its second mode, adds the soft-thresholded scaled total of the original matrix spread evenly. Projection on the second-order cone returns the nearest point of the cone. Array and graph versions agree for every matrix, threshold and mode.',
  ['inputs'], 'every small matrix shape (wide, tall, square, one row or column), entries from a small alphabet, thresholds from zero to above the norm, both modes, all cone regions and boundaries',
  'The tests run single random matrices and assert nothing about the recombined value; the graph version of the cone projection is never called.',
  [PO, PN], [('centralization/SVT/shrink/cone_projection_operator', PO), ('same', PN)], ['returned values'])
p('C21', 'Pairwise-interaction recovery runs the stated dual iteration on one fixed sample',
  'Recovery keeps one sample list for the whole run; every step computes the three matrices by shrinking the adjoint (as C19 describes it) of the current dual vector and scaling, the residual of the sampled tensor against the sampled pair sum, records its relative norm and RMSE, and moves the dual vector by the step size along the residual. Step size and threshold scale with the sample count and tensor volume as stated, and the array and graph versions produce the same dual vectors from the same samples.',
  ['inputs', 'histories', 'configurations'], 'every sample list of a small bound and several tensors, steps up to 6, step sizes and thresholds, logging cadences',
  'One script runs the array version and asserts nothing; the graph version is never trained.',
  [PT, PTN, PO, PN], [('exact_recovery', PTN), ('build_model/train', PT)], ['returned y, X, Y, Z, error and RMSE lists; dual vector of the graph version'])
p('C22', 'Synthetic data is a low-rank non-negative tensor plus non-negative noise',
  'Generated data has exactly the requested shape; without noise it is the expansion of non-negative random factors (and core) of the requested rank, so its mode ranks never exceed the requested ones, all entries are non-negative, and noise only ever adds non-negative amounts scaled by the requested level. Every call draws new data from the seeded generator and leaves no state behind that changes later results.',
  ['inputs', 'configurations'], 'every order 1..4, dimensions 1..4, ranks 1..3, noise level 0 and positive, several seeds',
  'The generator has no test.', ['tensorD/demo/DataGenerator.py'], [('synthetic_data_cp/synthetic_data_tucker', 'tensorD/demo/DataGenerator.py')], ['generated arrays'])
p('C23', 'Results depend on the data values only, not on their representation',
  'For equal data values, the results of every model and operation are the same whether the array is float32, float64 or integer, C- or Fortran-ordered, a view, a strided slice or read-only, and however often the provider is asked. The data and shape used are those of the provider at the time the model is built.',
  ['inputs', 'configurations'], 'every model and dense operation over all array representations and provider behaviours',
  'All tests pass fresh contiguous arrays.',
  [ENV, CP, NCP, NTK, TK, TYP], [('Environment.full_data/full_shape', ENV)], ['results compared across representations'])
p('C24', 'The training log holds exactly the logged steps with the history values',
  'Training writes to the configured summary directory, at the first step, at the last allowed step, at every multiple of the validation interval (when one is set) and at every step when verbose, and at no other step, the loss and the relative residual that the returned history holds for that step. One model writes only its own values.',
  ['configurations', 'histories'], 'every model, intervals -1 and 1..6, verbose on/off, step limits 1..6, early stops at every step',
  'No test reads a log back.', [CP, NCP, NTK, TK], [('sum_writer.add_summary', CP)], ['event files read back'])
p('C25', 'Decomposition quality: errors never grow and truncation error is bounded',
  'The relative residual of CP-ALS and of HOOI never increases from one step to the next beyond rounding, HOOI is never worse than HOSVD on the same data and ranks, the squared HOSVD error is at most the sum of squared discarded singular values over the modes and at least the largest of these sums, and ranks equal to the dimensions reproduce the data. The first step of a non-negative model never raises the objective over its starting point.',
  ['inputs', 'configurations'], 'all admissible rank vectors of small shapes of orders 2..4, several value tables including zeros and negatives, up to 12 steps',
  'The tests look at no error value; these guarantees quantify over all inputs and steps.',
  [CP, NCP, NTK, TK], [('exact block minimisation', CP)], ['history, full'])
p('C26', 'Threads that use the library side by side get what they get alone',
  'When several threads build and train models, train models built before, read files, generate data or evaluate tensor operations at the same time, each thread building in a graph of its own and using objects of its own (environments and data may be shared), every thread gets exactly the results it gets when it runs alone, under every interleaving of the threads, and no thread fails because of another.',
  ['schedules'], 'two threads, every preemption of the first at each source line it executes (thorough: also at lines of the second); two and three trainings under every interleaving of their session calls up to a number of context switches',
  'No test uses two threads, and a free-running test would meet one interleaving of thousands.',
  [CP, NCP, NTK, TK, PT, OPS, TYP, 'tensorD/dataproc/reader.py', 'tensorD/demo/DataGenerator.py', ENV], [('all state of a training lives in the model and its session', CP)], ['results of every thread'])

p('C27', 'Random starting points come from the seeded generators and nowhere else',
  'The same program run twice under the same random seeds (of the graph, and of NumPy where arrays are drawn) gives the same results bit for bit; under different seeds, or without a seed, every training of CP-ALS, NCP and NTUCKER, every pairwise-interaction recovery with enough samples and every generator call starts from draws of its own, different for every model, factor and column, while HOSVD and HOOI give the same results whatever the seed. No operation, build or training resets the random generators of its caller.',
  ['histories', 'inputs'], 'every program over building, training, retraining, other models and operations, for every model kind, shape, rank and seed',
  'The tests fix no seed and compare no two runs; a fixed operation seed, a reused draw or an unseeded generator passes every one of them.',
  [CP, NCP, NTK, TK, PT, PTN, PO, PN, 'tensorD/demo/DataGenerator.py'], [('random-init', CP), ('random-init', NCP), ('random-init', NTK), ('sample3D_rule', PO), ('sample3D_rule', PN)], ['results of repeated runs', 'starting values of the factor variables'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
bad = [(x['id'], len(x['title'])) for x in P if len(x['title']) > 80]
assert not bad, bad
print(len(P), 'properties')
