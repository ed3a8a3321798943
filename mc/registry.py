"""Level, rule and worker count of every check (no TensorFlow import here)."""

CHECKS = {}


def reg(pid, level, rule, shards=4, technique='', note='', assumptions=()):
    CHECKS[pid] = dict(level=level, rule=rule, shards=shards, technique=technique, note=note,
                       assumptions=list(assumptions))


EX = 'bounded model checking of the real code: exhaustive enumeration of inputs and call forms against an executable reference model'
T = ['TensorFlow kernels compute the operation they name', 'NumPy reference models in mc/ref.py']

reg('C01', 'exploration', 'every shape (order<=5, dims<=3, plus a table of larger shapes), every mode, every ordered axis split '
    'in every argument form; entries are all distinct, so one comparison fixes the whole index map; non-trivial = more than one entry and order>=2',
    8, EX, 'Exhaustive within the stated shapes; exact comparison of every entry, dtype and static shape.', T)
reg('C02', 'exploration', 'every shape, every ordered subset of modes (axis list), every skip set and argument form, both transpose settings, '
    'rectangular and square matrices; integer data compared exactly; non-trivial = at least one mode with dimension>1 contracted',
    8, EX, 'Exhaustive within the stated shapes; integer-valued data makes the comparison exact.', T)
reg('C03', 'exploration', 'every pair of orders and every pair of ordered axis lists, with distinct and with equal dimensions, int/list/tuple forms; '
    'non-trivial = result or contraction longer than one', 8, EX, 'Exhaustive within the stated orders; exact comparison.', T)
reg('C04', 'exploration', 'every list of 1..4 matrices over small dimensions, every skip set and form, both directions; non-trivial = two or more matrices remain',
    8, EX, 'Exhaustive within the stated dimensions; exact comparison except for singular values.', T)
reg('C05', 'model_checking', 'every operation sequence of the dense-tensor alphabet up to the depth; state = (operation history, values held); '
    'every result and every operand is compared with the array model after each sequence', 8,
    'explicit-state exploration of operation sequences on the real objects against a reference model',
    'All sequences up to the depth, executed on fresh real objects.', T)
reg('C06', 'exploration', 'every order 1..4, dims 1..3, rank 1..4, factor representation and weight form; non-trivial = order>=2 and rank>=2',
    8, EX, 'Exhaustive within the stated shapes.', T)
reg('C07', 'exploration', 'every pair of tensors with up to 3 (thorough 4) entries from {-1,0,1,2} in every shape; every pair of small shapes for the errors; '
    'non-trivial = the tensors differ somewhere', 8, EX, 'Exhaustive over the alphabet.', T)
reg('C08', 'exploration', 'every file of up to 3 distinct entries over small grids in every row order, blank-line pattern, shape argument and extension, and every '
    'two-read history over a table of files; non-trivial = at least two entries', 8, EX, 'Exhaustive within the stated files.', T)

MC = 'explicit enumeration of training runs, each replayed against a reference state machine (trace conformance)'
TR = 'every shape of order 2..4 (dims 1..3, plus larger ones), rank 1..4 and data kind, every step count, logging cadence and verbosity on three shapes, ' \
     'every starting point of a grid; states = distinct factor values reached, transitions = training steps, traces = runs compared with the reference machine'
F = ['float32 rounding is covered by a tolerance derived per run from how the reference reacts to a 1e-6 perturbation; runs where that exceeds 1e-2 are counted as not comparable']
for _p, _k in (('C09', 'CP-ALS'), ('C10', 'NCP'), ('C11', 'NTUCKER')):
    reg(_p, 'model_checking', TR, 8, MC, 'Every enumerated run of the real %s model must be a run of the float64 reference machine from its observed starting point.' % _k, T + F)
reg('C14', 'model_checking', 'every sequence of environment answers (objective move x residual) over the alphabet around the thresholds up to the depth, for each '
    'iterative model, plus every cadence on a subset; states = distinct answer prefixes executed, transitions = training steps', 8,
    'exhaustive enumeration of environment answers to the real training loop, against a reference decision machine',
    'The training loop is driven by scripted objective/residual values: all words over 7 moves to depth 4, stall words to depth 7.', T)
reg('C13', 'exploration', 'every model kind, shape, rank, data kind, tolerance, step limit, cadence and verbosity of the table, and every stopping reason forced in every '
    'step 1..6 under every cadence; non-trivial = distinct (model, setting, stop step)', 8,
    'exhaustive enumeration of stop reasons x cadences on the real training loop, consistency oracle', 'Stop reasons forced by scripted answers; every entry predicted.', T)
reg('C12', 'exploration', 'every shape of order 2..3 with dims 1..3 and larger ones, every admissible rank vector, data kinds, 1..4 HOOI steps; '
    'non-trivial = distinct (model, shape, ranks, data, steps)', 8, EX, 'Subspaces compared through projectors wherever the spectral gap makes them unique.', T + F)
reg('C25', 'exploration', 'every shape, data kind, seed and (a covering subset of) rank vectors of the table; non-trivial = distinct (model, shape, ranks, data, seed) judged', 8,
    'bounded exhaustive enumeration of training runs against monotonicity and error-bound invariants',
    'Invariants that need no reference trajectory: monotone residuals, HOOI<=HOSVD, Eckart-Young style bounds.', T)
reg('C16', 'model_checking', 'every interleaving of build and train calls of two (any kinds) and three models in one graph, several graphs or one environment, and every word over building one model object (two settings) and training it (1 or 3 steps); '
    'states = distinct call histories, transitions = calls, traces = train calls judged', 8,
    'exhaustive interleaving of API calls on the real models, each training judged against a reference machine', 'All orders, not a sample.', T + F)
reg('C26', 'model_checking', 'every program pair of the table: the first thread preempted at the first (operations, readers, generators and thorough: also the last) visit of every source line of the library it executes, the second '
    'running completely (thorough: also up to lines of its own); all interleavings of the session calls of two and three trainings up to the stated number of context switches; '
    'states = distinct schedules, transitions = context switches, traces = thread results compared', 8,
    'stateless exploration of the real code under a controlled scheduler with a preemption bound', 'One thread runs at a time; every schedule within the bound.', T)
reg('C17', 'fault_enumeration', 'every session call of a training fails once (12 exception types, before or after taking effect) on a fresh and on a trained model, '
    'every pair of failing calls, every call of the summary writer, every request to the provider during a build, each followed by clean trainings; distinct = (model, setting, history, failing calls, exception)', 8,
    'exhaustive fault injection at every session call', 'Faults at the session seam: all single failures and all pairs.', T + F)
reg('C18', 'exploration', 'every operation with every axis split, skip set and argument form; every model kind x data dtype x memory order x logging through a history of four '
    'trainings; non-trivial = distinct (operation, arguments) or (model, setting)', 8, EX,
    'Arguments are compared by identity, structure, strides and bytes before and after; every call is repeated with the same argument objects.', T)
reg('C19', 'exploration', 'every sample list up to length 4 (while the number of lists stays below the stated limit) over every position of ten shapes, full, doubled and '
    'Latin lists, both versions, two value assignments; sampler and generators over every shape with dims 1..3; non-trivial = distinct (shape, list) or generator setting',
    8, EX, 'All lists are fed through one real graph per shape and length.', T)
reg('C20', 'exploration', 'every matrix over a small alphabet in eight shapes, special matrices in every shape up to 5x5, thresholds including the singular values themselves, both '
    'modes and versions; cone: every vector of a grid x heights on, inside and outside both boundaries; non-trivial = non-zero result', 8, EX, 'Exhaustive over the alphabets.', T)
reg('C21', 'model_checking', 'every sample list up to a length over every position of small tensors (plus all 4-subsets, full and collision-free lists), several step sizes, thresholds and data '
    'kinds, both versions; states = distinct dual vectors reached, transitions = iterations, traces = runs compared with the stated iteration', 8,
    'explicit enumeration of the sampler answers to the real recovery loops, each run replayed against the stated state machine (trace conformance)',
    'Sample list forced through the sampler, confirmed from the first dual vector.', T + F)
reg('C22', 'exploration', 'every shape and rank vector of the table under equal seeds and several noise levels; scripted random draws: every word of length 3 over the alphabet x noise patterns; '
    'non-trivial = non-zero tensor', 8, 'exhaustive enumeration of scripted random draws and call histories on the real generators', 'The random source is an enumerated environment.', T)
reg('C23', 'exploration', 'every model kind x shape x value kind x representation (14), every provider answer pattern, every change of the provider after the build, every ordered pair of models '
    'sharing a provider whose data changes between builds; non-trivial = distinct (model, shape, values, representation)', 8, EX,
    'Representations of values exact in float32 must give the run of the plain float32 array.', T + F)
reg('C24', 'exploration', 'every iterative model x logging interval x verbosity x step limit 1..8 (thorough 12), stopping thresholds that end trainings early, every ordered pair of model kinds and some '
    'triples in one graph and in several; event files read back from disk; non-trivial = distinct setting', 8, EX, 'Every logged value is compared with the returned history.', T)
reg('C15', 'model_checking', 'every session call of training (initialisation, logged and unlogged step, accept and restart branch) of every model kind on several shapes: all classes of schedules, i.e. all '
    'consistent orientations of conflicting variable accesses the graph leaves unordered, plus writers-first and writers-last total orders; states = (call, variable values), transitions = operations', 8,
    'partial-order schedule exploration of the real graphs under forced operation orders',
    'Schedules that order no conflicting pair differently are equivalent, so zero unordered pairs means one class; each class is executed on the real kernels.',
    T + ['a variable is touched only through references, aliases of its buffer and resource handles'])
reg('C27', 'model_checking', 'every program of the table (words over building, training, other models, operations) for every model kind, shape and rank under every seed of the table, executed twice each; '
    'unseeded repetitions; starting values seen in the variables; sample lists of both PITF versions; generators; states = distinct (program, seed pair), transitions = program executions compared', 8,
    'exhaustive enumeration of programs x seeds on the real models, results compared bit for bit', 'The seed is an enumerated environment; every pair of runs is compared.', T)
