"""Behaviour-preserving edits: every check must stay quiet on each of them.
refactors.py [--checks C01,C02] [NAME...] applies each to a scratch copy and runs the checks that read the touched files."""
import os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS, TYP, LOSS = 'tensorD/base/ops.py', 'tensorD/base/type.py', 'tensorD/loss.py'
RD, ENV, GEN = 'tensorD/dataproc/reader.py', 'tensorD/factorization/env.py', 'tensorD/demo/DataGenerator.py'
CP, NCP, NTK, TK = ['tensorD/factorization/%s.py' % n for n in ('cp', 'ncp', 'ntucker', 'tucker')]
BASE = 'tensorD/factorization/factorization.py'
PO, PN, PT, PTN = 'tensorD/base/pitf_ops.py', 'tensorD/base/pitf_ops_numpy.py', 'tensorD/factorization/pitf.py', 'tensorD/factorization/pitf_numpy.py'
MODELS = 'C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C23 C24 C25'.split()
R = []


def ref(name, checks, *edits):
    R.append((name, checks.split() if isinstance(checks, str) else checks, edits))


def sub(f, pairs):
    return (f, lambda s: subs(s, pairs, f))


def subs(s, pairs, f):
    for a, b in pairs:
        assert a in s, (f, a)
        s = s.replace(a, b)
    return s


def rx(f, *pairs):
    def go(s):
        for a, b in pairs:
            s2, n = re.subn(a, b, s, flags=re.S | re.M)
            assert n, (f, a)
            s = s2
        return s
    return (f, go)


def func(f, name, body):
    """Replace a whole top-level function or method (indentation kept by the caller)."""
    def go(s):
        m = re.search(r'^( *)def %s\(.*?(?=^\1(?:def |@|class )|^\S|\Z)' % re.escape(name), s, re.S | re.M)
        assert m, (f, name)
        return s[:m.start()] + body.strip('\n') + '\n\n' + s[m.end():]
    return (f, go)


ALG = 'C01 C02 C03 C04 C05 C06 C18'
# ------------------------------------------------------------------ ops
ref('ops-rewritten', ALG.split() + 'C09 C10 C11 C12 C13 C15 C25'.split(),
    func(OPS, '_gen_perm', '''
def _gen_perm(order, mode):
    if mode not in range(order):
        raise ValueError('mode out of range')
    return [mode] + [n for n in reversed(range(order)) if n != mode]
'''),
    func(OPS, 'fold', '''
def fold(unfolded_tensor, mode, shape):
    """Inverse of unfold."""
    with tf.name_scope('fold'):
        perm = _gen_perm(len(shape), mode)
        back = [perm.index(n) for n in range(len(shape))]
        wide = tf.reshape(unfolded_tensor, [shape[n] for n in perm])
        return tf.transpose(wide, back)
'''),
    func(OPS, 't2mat', '''
def t2mat(tensor, r_axis, c_axis):
    """Matricization."""
    with tf.name_scope('t2mat'):
        dims = tensor.get_shape().as_list()
        rows = [r_axis] if isinstance(r_axis, int) else list(r_axis)
        if isinstance(c_axis, int):
            cols = [n for n in range(len(dims)) if n not in rows] if c_axis == -1 else [c_axis]
        else:
            cols = list(c_axis)
        size = [1, 1]
        for k, axes in enumerate((rows, cols)):
            for n in axes:
                size[k] *= dims[n]
        return tf.reshape(tf.transpose(tensor, rows + cols), size)
'''),
    func(OPS, 'mul', '''
def mul(tensorA, tensorB, a_axis, b_axis):
    """Contraction."""
    as_list = lambda axis: [axis] if isinstance(axis, int) else list(axis)
    with tf.name_scope('contraction'):
        return tf.tensordot(tensorA, tensorB, axes=[as_list(a_axis), as_list(b_axis)])
'''),
    func(OPS, 'ttm', '''
def ttm(tensor, matrices, axis=None, transpose=False, skip_matrices_index=None):
    """Mode products, one after the other."""
    if axis is not None and skip_matrices_index is not None:
        raise ValueError('axis and skip_matrices_index can not be set at the same time')
    with tf.name_scope('ttm'):
        if not isinstance(matrices, list):
            matrices = [matrices]
        modes = list(range(len(matrices))) if axis is None else list(axis)
        if skip_matrices_index is not None:
            skipped = [skip_matrices_index] if isinstance(skip_matrices_index, int) else skip_matrices_index
            pairs = [(m, n) for n, m in enumerate(matrices) if n not in skipped]
        else:
            pairs = list(zip(matrices, modes))
        result = tensor
        order = tensor.get_shape().ndims
        for mat, mode in pairs:
            letters = ''.join(chr(ord('a') + i) for i in range(order))
            m = letters[mode] + 'z' if transpose else 'z' + letters[mode]
            result = tf.einsum('%s,%s->%s' % (letters, m, letters.replace(letters[mode], 'z')), result, mat)
        return result
'''),
    func(OPS, 'hadamard', '''
def hadamard(matrices, skip_matrices_index=None):
    """Element product."""
    with tf.name_scope('hadamard'):
        kept = _skip(matrices, skip_matrices_index)
        product = kept[0]
        for other in kept[1:]:
            product = tf.multiply(product, other)
        return product
'''),
    func(OPS, 'kron', '''
def kron(matrices, skip_matrices_index=None, reverse=False):
    """Kronecker product, two at a time."""
    with tf.name_scope('kronecker'):
        kept = list(_skip(matrices, skip_matrices_index))
        if reverse:
            kept.reverse()
        result = kept[0]
        for mat in kept[1:]:
            (a, b), (c, d) = result.get_shape().as_list(), mat.get_shape().as_list()
            result = tf.reshape(tf.reshape(result, (a, 1, b, 1)) * tf.reshape(mat, (1, c, 1, d)), (a * c, b * d))
        return result
'''),
    func(OPS, 'khatri', '''
def khatri(matrices, skip_matrices_index=None, reverse=False):
    """Khatri-Rao product, two at a time."""
    with tf.name_scope('khatri-rao'):
        kept = list(_skip(matrices, skip_matrices_index))
        if reverse:
            kept.reverse()
        result = kept[0]
        for mat in kept[1:]:
            rows = result.get_shape()[0].value * mat.get_shape()[0].value
            result = tf.reshape(result[:, None, :] * mat[None, :, :], (rows, mat.get_shape()[1].value))
        return result
'''),
    func(OPS, 'inner', '''
def inner(tensorA, tensorB):
    """Inner product."""
    if tensorA.get_shape() != tensorB.get_shape():
        raise ValueError('the shape of tensor A and B must be equal')
    with tf.name_scope('inner'):
        return tf.reduce_sum(tf.multiply(tensorA, tensorB))
'''),
    func(OPS, 'max_single_value_mul', '''
def max_single_value_mul(matrices, skip_matrices_index=None):
    """Product of largest singular values."""
    result = None
    for mat in _skip(matrices, skip_matrices_index):
        top = tf.svd(mat, compute_uv=False)[0]
        result = top if result is None else result * top
    return result
'''),
)

ref('types-rewritten', ALG.split() + 'C09 C10 C11 C12'.split(),
    func(TYP, 'kron', '''
    def kron(self, tensor):
        return DTensor(ops.kron([self.T, self._operand(tensor)]))
'''), func(TYP, 'khatri', '''
    def khatri(self, tensor):
        return DTensor(ops.khatri([self.T, self._operand(tensor)]))

    @staticmethod
    def _operand(other):
        return other.T if isinstance(other, DTensor) else other
'''), func(TYP, '__add__', '''
    def __add__(self, other):
        return DTensor(tf.add(self.T, self._operand(other)))
'''), func(TYP, '__sub__', '''
    def __sub__(self, other):
        return DTensor(tf.subtract(self.T, self._operand(other)))
'''), func(TYP, '__mul__', '''
    def __mul__(self, other):
        return DTensor(tf.multiply(self.T, self._operand(other)))
'''), sub(TYP, [("            tmp = ops.khatri(self.U)\n            back_shape = [U.get_shape()[0].value for U in self.U]\n            return tf.reshape(tf.matmul(tmp, self.lambdas), back_shape)",
                 "            first = self.U[0] * tf.transpose(self.lambdas)\n            rest = [first] + list(self.U[1:])\n            names = [chr(ord('a') + i) for i in range(len(rest))]\n            return tf.einsum(','.join(n + 'z' for n in names) + '->' + ''.join(names), *rest)"),
                ("        return ops.ttm(self.g, self.U)", "        full = self.g\n        for mode, factor in enumerate(self.U):\n            full = ops.ttm(full, [factor], axis=[mode])\n        return full"),
                ("        self.unfold_T = ops.unfold(self.T, mode)\n        return DTensor(self.unfold_T)", "        return DTensor(ops.unfold(self.T, mode))")]))

ref('loss-rewritten', 'C07 C09 C10 C13 C24',
    func(LOSS, 'l2', '''
def l2(f, h):
    """Half the squared distance."""
    with tf.name_scope('L2-norm'):
        difference = f - h
        return tf.reduce_sum(difference * difference) / 2
'''), func(LOSS, 'rmse', '''
def rmse(A, B):
    """Root mean square error."""
    _same_shape(A, B)
    with tf.name_scope('RMSE'):
        return tf.sqrt(tf.reduce_mean(tf.square(A - B)))
'''), func(LOSS, 'rmse_ignore_zero', '''
def rmse_ignore_zero(A, B):
    """Root mean square error over the non-zero elements of A."""
    _same_shape(A, B)
    with tf.name_scope('RMSE-ignore-zero'):
        known = tf.cast(tf.not_equal(A, 0), B.dtype)
        total = tf.reduce_sum(tf.square((A - B) * known))
        return tf.sqrt(total / tf.reduce_sum(known))


def _same_shape(A, B):
    if A.get_shape() != B.get_shape():
        raise TensorErr('the shape of tensor A and B must be equal')
'''))

ref('reader-rewritten', 'C08 C23',
    func(RD, 'read', '''
    def read(self, full_shape=None):
        if self._type not in ('csv', 'txt'):
            raise ArgumentError(self._type + ' file is not supported by TensorReader.')
        with open(self._file_path, 'r', newline='') as file:
            entries = [row for row in csv.reader(file) if row]
        order = len(entries[0]) - 1
        idx = np.array([[int(field) for field in row[:order]] for row in entries], dtype=int).reshape(-1, order)
        value = np.array([float(row[-1]) for row in entries])
        dims = idx.max(axis=0) + 1 if full_shape is None else full_shape
        self._sparse_data = tf.SparseTensor(indices=idx, values=value, dense_shape=dims)
        self._full_data = tf.sparse_tensor_to_dense(self._sparse_data, validate_indices=False)
'''))

ref('env-rewritten', MODELS + ['C21'],
    func(ENV, 'full_shape', '''
    def full_shape(self):
        data = self.full_data()
        return data.shape
'''), func(ENV, 'sess', '''
    def sess(self):
        session = tf.Session(graph=tf.get_default_graph())
        return session
'''))

# ------------------------------------------------------------------ models
HELP = '''

def log_due(step, steps, args):
    """Is this step logged?"""
    if step == 1 or step == steps or args.verbose:
        return True
    return args.validation_internal != -1 and step % args.validation_internal == 0


class Stall(object):
    """Counts consecutive steps without relevant change."""

    def __init__(self, tol):
        self.tol, self.count = tol, 0

    def done(self, obj, reference, residual):
        change = abs(obj - reference) / (reference + 1)
        self.count = self.count + 1 if change < self.tol else 0
        return self.count >= 3 or residual < self.tol
'''
addhelp = (BASE, lambda s: s.rstrip('\n') + '\n' + HELP)

LOOP = r'''            if \(step == steps\).*?(?=            (?:if step == 1|hist\.append))'''
STOP = r'''            relerr1 = .*?                break\n'''
NEWSTOP = '''            if stall.done(obj, obj0, rel_res):\n                break\n'''


def newloop(fetch, keep):
    """fetch: [(name, target)], keep: extra ops with no result."""
    f = ', '.join("'%s': %s" % (k, v) for k, v in fetch)
    return '''            fetches = {%s%s}
            if log_due(step, steps, args):
                out = self._logged_run(sess, fetches, sum_op, sum_writer, step)
                print('step=%%d, RMSE=%%.10f, relerr=%%.10f' %% (step, out['loss'], out['rel']))
            else:
                out = sess.run(fetches, feed_dict=self._feed_dict)
            self._full_tensor, self._factors = out['full'], out['factors']
            loss_v, obj, rel_res = out['loss'], out['obj'], out['rel']
''' % (f, keep)


LOGGED = '''    def _logged_run(self, sess, fetches, sum_op, writer, step):
        options = tf.RunOptions(trace_level=tf.RunOptions.FULL_TRACE)
        metadata = tf.RunMetadata()
        out, message = sess.run([fetches, sum_op], feed_dict=self._feed_dict, options=options, run_metadata=metadata)
        writer.add_run_metadata(metadata, 'step%d' % step)
        writer.add_summary(message, step)
        return out

'''
F0 = [('loss', 'loss_op'), ('rel', 'rel_res_op'), ('full', 'full_op'), ('obj', 'obj_op'), ('factors', 'factor_update_op')]


def loops(f, fetch, keep, tail, imp):
    return rx(f, (LOOP, lambda m: newloop(fetch, keep) + tail), (STOP, lambda m: NEWSTOP), (r'        nstall = 0\n        print', '        stall = Stall(args.tol)\n        print'),
              (r'^    def train\(self, steps\):', lambda m: LOGGED + m.group(0)), imp)


def noop(x):
    return x


ref('cp-loop', 'C09 C13 C14 C15 C16 C17 C18 C23 C24 C25', addhelp,
    loops(CP, F0 + [('lambdas', 'lambda_op')], '', "            self._lambdas = out['lambdas']\n", (r'from \.factorization import Model, BaseFact', 'from .factorization import Model, BaseFact, Stall, log_due')))
ref('ncp-loop', 'C10 C13 C14 C15 C16 C17 C18 C23 C24', addhelp,
    loops(NCP, F0, ", 'rest': train_op", '', (r'from \.factorization import \*', 'from .factorization import *')))
ref('ntucker-loop', 'C11 C13 C14 C15 C16 C17 C18 C23 C24', addhelp,
    loops(NTK, F0, ", 'rest': train_op", '', (r'from \.factorization import BaseFact', 'from .factorization import BaseFact, Stall, log_due')))

ref('hooi-loop', 'C12 C13 C14 C15 C16 C17 C18 C23 C24 C25', addhelp,
    (TK, lambda s: s.split('class HOOI(')[0] + 'class HOOI(' + loops(TK, F0 + [('core', 'core_op')], '', "            self._core = out['core']\n", (r'\Z', ''))[1](s.split('class HOOI(')[1])))

ref('while-loops', MODELS,
    *[rx(f, (r'        for step in range\(1, steps \+ 1\):\n', '        step = 0\n        while step < steps:\n            step += 1\n')) for f in (CP, NCP, NTK, TK)])

ref('attributes-renamed', MODELS + ['C21'],
    *[rx(f, (r'_obj_op', '_objective'), (r'_rel_res_op', '_residual'), (r'_full_op', '_reconstruct'), (r'_factor_update_op', '_sweep'), (r'_init_op\b', '_start_op'), (r'_feed_dict', '_data_feed'))
      if f is not CP else rx(f, (r'_obj_op', '_objective'), (r'_rel_res_op', '_residual'), (r'_full_op', '_reconstruct'), (r'_factor_update_op', '_sweep'), (r'_init_op\b', '_start_op'), (r'_feed_dict\b', '_data_feed'))
      for f in (CP, NCP, NTK, TK)],
    rx(PT, (r'_erate_op', '_rate'), (r'_sample_vector_update_op', '_dual_step'), (r'_init_op\b', '_start_op')))

ref('variables-renamed', MODELS + ['C21'],
    rx(CP, (r"name='A-%d'", "name='factor_%d'"), (r"'random-init'", "'start'")),
    rx(NCP, (r"name='A-%d'", "name='factor_%d'"), (r"name='Am-%d'", "name='extrapolated_%d'"), (r"name='A0-%d'", "name='previous_%d'"), (r"'Lipschitz-%d'", "'lip%d'"), (r"name='t0'", "name='told'")),
    rx(NTK, (r"name='A-%d'", "name='factor_%d'"), (r"name='Am-%d'", "name='extrapolated_%d'"), (r"name='A0-%d'", "name='previous_%d'"), (r"'core-tensor'", "'the_core'"), (r"'core_m'", "'coreex'")),
    rx(TK, (r"name='A-%d'", "name='factor_%d'")),
    rx(PT, (r"name='y_sample_vector'", "name='dual'"), (r"name='sample_list'", "name='where'")))

ref('declaration-order', 'C10 C11 C15 C16 C17',
    rx(NCP, (r"(        Am = \[tf.Variable.*?order\)\]\n)(        A0 = \[tf.Variable.*?order\)\]\n)", r'\2\1'),
       (r"(        t0 = tf.Variable[^\n]*\n)(        t = tf.Variable[^\n]*\n)", r'\2\1'),
       (r"(        L = \[[^\n]*\n)(        L0 = \[[^\n]*\n)", r'\2\1')),
    rx(NTK, (r"(        g0 = tf.Variable[^\n]*\n)(        with tf.name_scope\('core_0-init'\) as scope:\n[^\n]*\n)(        gm = tf.Variable[^\n]*\n)(        with tf.name_scope\('core_m-init'\) as scope:\n[^\n]*\n)", r'\3\4\1\2'),
       (r"        Bsq = tf.Variable.*?\n        Grad_g = [^\n]*\n", ''),
       (r"Bsq_update_op_g = Bsq.assign\(ops.ttm\(gm, AtA_g\)\)", "Bsq_update_op_g = ops.ttm(gm, AtA_g)"),
       (r"Grad_g_update_op = Grad_g.assign\((.*?)\)\n", r"Grad_g_update_op = \1\n")))

ref('cp-values-not-variables', 'C09 C13 C14 C15 C16 C25',
    sub(CP, [("            V = ops.hadamard(AtA, skip_matrices_index=mode)\n", "            V = ops.hadamard([AtA[ii] for ii in range(order) if ii != mode]) if order > 1 else ops.hadamard(AtA, skip_matrices_index=mode)\n"),
             ("lambda_op = tf.reduce_max(tf.abs(tf.reshape(non_norm_A, shape=(shape[mode], args.rank))), axis=0)", "lambda_op = tf.reduce_max(tf.abs(non_norm_A), axis=0)"),
             ("            rel_res_op = tf.norm(full_op - input_data) / input_norm\n", "            rel_res_op = tf.sqrt(tf.reduce_sum(tf.square(full_op - input_data))) / input_norm\n"),
             ("            obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))\n", "            obj_op = l2(full_op, input_data)\n")]),
    rx(CP, (r"            if mode != 0:\n                with tf.control.*?            else:\n.*?XA-%d' % mode\)\n\n",
            "            before = [assign_op[mode - 1]] if mode > 0 else []\n            with tf.control_dependencies(before):\n                current = [tf.identity(a) if i >= mode else assign_op[i] for i, a in enumerate(A)]\n                AtA = [tf.matmul(a, a, transpose_a=True) for a in current]\n                XA = tf.matmul(mats[mode], ops.khatri(current, mode, True))\n\n")))

ref('hooi-values-not-variables', 'C12 C13 C14 C15 C16 C25',
    rx(TK, (r"            if mode != 0:\n                with tf.control.*?            else:\n.*?transpose=True\)\n            with tf.name_scope\('SVD",
            "            with tf.control_dependencies(assign_op[mode - 1:mode] if mode else []):\n                now = assign_op[:mode] + [tf.identity(a) for a in A[mode:]]\n            with tf.name_scope('Y-%d' % mode):\n                Y = ops.ttm(input_data, now, skip_matrices_index=mode, transpose=True)\n            with tf.name_scope('SVD"),
       (r"A = \[\]\n        for n in range\(order\):\n.*?ranks\[n\]\]\)\n", "A = [self._leading(input_data, n, args.ranks[n]) for n in range(order)]\n"),
       (r"    def build_model\(self, args\):\n        input_data", "    @staticmethod\n    def _leading(data, n, count):\n        _, U, _ = tf.svd(ops.unfold(data, n), full_matrices=False)\n        return U[:, :count]\n\n    def build_model(self, args):\n        input_data")))

ref('ncp-one-init', 'C10 C15 C16 C17 C18',
    sub(NCP, [("                A0_init_op[mode] = A0[mode].assign(norm_init_op[mode])\n                Am_init_op[mode] = Am[mode].assign(norm_init_op[mode])\n",
               "                A0_init_op[mode], Am_init_op[mode] = [v[mode].assign(norm_init_op[mode]) for v in (A0, Am)]\n"),
              ("            Gn = tf.subtract(tf.matmul(Am[mode], V), XA, name='G-%d' % mode)\n", "            Gn = tf.matmul(Am[mode], V) - XA\n"),
              ("tf.nn.relu(tf.subtract(Am[mode], tf.div(Gn, L_update_op[mode])))", "tf.maximum(Am[mode] - Gn / L_update_op[mode], 0.0)"),
              ("            if obj < obj0:\n                sess.run(train_op1)\n                obj0 = obj\n            else:\n                sess.run(train_op2)\n",
               "            if not obj < obj0:\n                sess.run(train_op2)\n                continue\n            sess.run(train_op1)\n            obj0 = obj\n"),
              ("            t_update_op = t.assign((1 + tf.sqrt(1 + 4 * tf.square(t0))) / 2)", "            t_update_op = t.assign(0.5 + tf.sqrt(0.25 + t0 * t0))")]))

ref('ntucker-one-init', 'C11 C15 C16 C17 C18',
    sub(NTK, [("                A0_init_op[mode] = A0[mode].assign(norm_init_op[mode])\n                Am_init_op[mode] = Am[mode].assign(norm_init_op[mode])\n",
               "                A0_init_op[mode], Am_init_op[mode] = [v[mode].assign(norm_init_op[mode]) for v in (A0, Am)]\n"),
              ("            GradA = tf.subtract(tf.matmul(Am[mode], Bsq_A), XB, name='GradA-%d' % mode)\n", "            GradA = tf.matmul(Am[mode], Bsq_A) - XB\n"),
              ("            if obj < obj0:\n                sess.run(train_op1)\n                obj0 = obj\n            else:\n                sess.run(train_op2)\n",
               "            accepted = obj < obj0\n            sess.run(train_op1 if accepted else train_op2)\n            obj0 = obj if accepted else obj0\n")]))

ref('predict-in-base', MODELS,
    (BASE, lambda s: subs(s, [("    def predict(self, *key):\n        raise NotImplementedError\n",
                               "    def predict(self, *key):\n        full = self.full\n        if full is None:\n            raise TensorErr('improper stage to call predict before the model is trained')\n        return full[key].item()\n"),
                              ("import pickle\n", "import pickle\nfrom tensorD.base import TensorErr\n")], BASE)),
    *[rx(f, (r"    def predict\(self, \*key\):\n.*?item\(key\)\n\n", '')) for f in (CP, NCP, NTK, TK)])

# ------------------------------------------------------------------ generator, pitf
ref('generator-rewritten', 'C22',
    func(GEN, 'synthetic_data_cp', '''
def _nonnegative(*shape):
    draws = np.random.rand(*shape)
    return draws.clip(min=0)


def _noisy(model, shape, max_noise):
    with tf.Session() as sess:
        clean = sess.run(model.extract())
    return clean + (max_noise * np.random.randn(*shape)).clip(min=0)


def synthetic_data_cp(N_list, R, max_noise=0.1):
    return _noisy(KTensor([_nonnegative(n, R) for n in N_list]), N_list, max_noise)
'''), func(GEN, 'synthetic_data_tucker', '''
def synthetic_data_tucker(N_list, Ranks, max_noise=0.04):
    core = _nonnegative(*Ranks)
    factors = [_nonnegative(n, r) for n, r in zip(N_list, Ranks)]
    return _noisy(TTensor(core, factors), N_list, max_noise)
'''))
ref('generator-other-draws', 'C22',
    sub(GEN, [('np.random.rand(N_list[ii], R)', 'np.random.random_sample((N_list[ii], R))'), ('np.random.rand(*Ranks)', 'np.random.random_sample(tuple(Ranks))'),
         ('np.random.rand(N_list[ii], Ranks[ii])', 'np.random.random_sample((N_list[ii], Ranks[ii]))'), ('np.random.randn(*N_list)', 'np.random.standard_normal(tuple(N_list))')]))

ref('pitf-loop', 'C21 C19 C20',
    rx(PT, (r"            RMSE = 0\n.*?loss_op = [^\n]*\n", "            loss_op = tf.sqrt(tf.reduce_sum(tf.square(e)) / spn)\n"),
       (r"            y_new = y \+ delt\*e\n            sample_vector_update_op = y.assign\(y_new\)", "            sample_vector_update_op = y.assign_add(delt * e)"),
       (r"            if \(step == steps\) or.*?(?=                # ea)", "            due = step in (1, steps)\n            if args.validation_internal != -1:\n                due = due or step % args.validation_internal == 0\n            if due:\n")))

ref('pitf-ops-rewritten', 'C19 C20 C21 C22',
    func(PO, 'index_value_append', '''
def index_value_append(spl, sp_num, sample_vec, l1=0, l2=0):
    indices = [[spl[l1][i], spl[l2][i]] for i in range(sp_num)]
    values = [sample_vec[i] for i in range(sp_num)]
    return indices, values
'''), func(PO, 'Pomega_tensor', '''
def Pomega_tensor(spl, tensor, sp_num):
    where = tf.stack([tf.cast(s, tf.int32)[:sp_num] for s in spl], axis=1)
    return tf.gather_nd(tensor, where)
'''), func(PO, 'Pomega_Pair', '''
def Pomega_Pair(spl, X, Y, Z, tensor_shape, sp_num):
    return sum(Pomega_mat(spl, m, tensor_shape, sp_num, d) for d, m in ((1, Y), (2, Z))) + Pomega_mat(spl, X, tensor_shape, sp_num, 0)
'''), func(PO, 'centralization', '''
def centralization(mat):
    return mat - tf.reduce_mean(mat, axis=0, keepdims=True)
'''))

ref('comments', 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25',
    *[(f, lambda s: s.rstrip('\n') + '\n# end of file\n') for f in (OPS, TYP, LOSS, RD, ENV, GEN, CP, NCP, NTK, TK, PO, PN, PT, PTN)])


def main(argv):
    checks = None
    if '--checks' in argv:
        i = argv.index('--checks'); checks = argv[i + 1].split(','); del argv[i:i + 2]
    bad = 0
    for name, cs, edits in R:
        if argv and name not in argv:
            continue
        S = '/tmp/refac/' + name
        shutil.rmtree(S, ignore_errors=True); os.makedirs('/tmp/refac', exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', S], check=True)
        try:
            for f, go in edits:
                raw = open(S + '/' + f, newline='').read()
                crlf = '\r\n' in raw
                s = go(raw.replace('\r\n', '\n'))
                compile(s, f, 'exec')
                open(S + '/' + f, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
            out = []
            for c in checks or cs:
                t0 = time.time()
                r = subprocess.run('VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash run.sh %s' % (S, c), shell=True, cwd=V, capture_output=True, text=True)
                out.append('%s %s %.0fs' % (c, 'ok' if r.returncode == 0 else 'ALARM rc=%d' % r.returncode, time.time() - t0))
                if r.returncode:
                    bad += 1
                    print(name, c, [l for l in (r.stdout + r.stderr).splitlines() if 'VIOLATION' in l or 'rror' in l or 'replay' in l][:6], (r.stdout + r.stderr)[-600:], flush=True)
            print(name, '|', '; '.join(out), flush=True)
        finally:
            shutil.rmtree(S, ignore_errors=True)
    return bad


if __name__ == '__main__':
    sys.exit(1 if main(sys.argv[1:]) else 0)
