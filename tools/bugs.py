"""Planted bugs: id, property, edits [(file, old, new)], needs, breaks, demo."""
B = []


def bug(id, prop, edits, needs, breaks, demo, **k):
    B.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))


OPS, TYP, LOSS = 'tensorD/base/ops.py', 'tensorD/base/type.py', 'tensorD/loss.py'
RD, ENV, GEN = 'tensorD/dataproc/reader.py', 'tensorD/factorization/env.py', 'tensorD/demo/DataGenerator.py'
CP, NCP, NTK, TK = ['tensorD/factorization/%s.py' % n for n in ('cp', 'ncp', 'ntucker', 'tucker')]
PO, PN, PT, PTN = 'tensorD/base/pitf_ops.py', 'tensorD/base/pitf_ops_numpy.py', 'tensorD/factorization/pitf.py', 'tensorD/factorization/pitf_numpy.py'
H = 'from seedrt import *\n'

# ------------------------------------------------------------------ C01..C04
bug('t2mat-inferred-columns-kolda', 'C01',
    [(OPS, "            c_axis = [_ for _ in range(tensor.get_shape().ndims) if _ not in indies]\n",
      "            c_axis = [_ for _ in range(tensor.get_shape().ndims) if _ not in indies]\n            if len(indies) == 1 and indies[0] not in (0, tensor.get_shape().ndims - 1):\n                c_axis.reverse()    # Kolda-type unfolding of an inner mode\n")],
    'column axes left to be inferred, the single row axis being neither the first nor the last one of the tensor',
    'inferred column axes come in descending instead of ascending order, so matricization (and contraction) permutes columns',
    H + '''
import tensorD.base.ops as ops
graph()
X = np.arange(24.).reshape(2, 3, 4)
check(np.array_equal(ev(ops.t2mat(tf.constant(X), 1, -1)), X.transpose(1, 0, 2).reshape(3, 8)), 't2mat(X, 1, -1)')
done()
''')

bug('ttm-skip-list-offset', 'C02',
    [(OPS, "                axis = [i for i in range(min(order, matrices_cnt)) if i not in skip_matrices_index]\n",
      "                axis = [i for i in range(min(order, matrices_cnt)) if i not in sorted(skip_matrices_index)[:2]][:len(matrices)]\n")],
    'three or more matrices skipped at once',
    'with three skipped positions the remaining matrices are multiplied into the wrong modes',
    H + '''
import tensorD.base.ops as ops
for shape, skip in [((2, 2, 2), [0, 2]), ((2, 2, 2, 2), [0, 1, 2]), ((2, 2, 2, 2), [1, 2, 3]), ((2, 2, 2, 2, 2), [0, 1, 3])]:
    graph()
    X = np.random.rand(*shape)
    M = [np.random.rand(2, 2) for _ in shape]
    want = X
    for n, m in enumerate(M):
        if n not in skip:
            want = np.moveaxis(np.tensordot(m, want, (1, n)), 0, n)
    got = ev(ops.ttm(tf.constant(X), [tf.constant(m) for m in M], skip_matrices_index=list(skip)))
    check(close(got, want, 1e-9), 'ttm %s skipping %s' % (shape, skip))
done()
''')

bug('mul-inverse-permutation', 'C03',
    [(OPS, "            b_axis = [b_axis]\n", "            b_axis = [b_axis]\n        # contract in the order of tensor A\n        place = list(np.argsort(a_axis))\n        a_axis = [a_axis[_] for _ in place]\n        b_axis = [b_axis[int(_)] for _ in np.argsort(place)]\n")],
    'contraction over three axis pairs of equal dimension, the first list being a cyclic permutation',
    'the axis pairs are reordered by a permutation and its inverse, which agree for up to two pairs only',
    H + '''
import tensorD.base.ops as ops
graph()
A, C = np.random.rand(3, 3, 3, 2), np.random.rand(3, 4, 3, 3)
got = ev(ops.mul(tf.constant(A), tf.constant(C), [1, 2, 0], [0, 2, 3]))
check(close(got, np.tensordot(A, C, ([1, 2, 0], [0, 2, 3])), 1e-9), 'mul(A, C, [1, 2, 0], [0, 2, 3])')
done()
''')

bug('kron-reverse-before-skip', 'C04',
    [(OPS, """    with tf.name_scope('kronecker') as scope:
        matrices = _skip(matrices, skip_matrices_index)
        if reverse:
            matrices = matrices[::-1]
""", """    with tf.name_scope('kronecker') as scope:
        if reverse:
            matrices = matrices[::-1]
        matrices = _skip(matrices, skip_matrices_index)
""")],
    'kron with reverse and a skip position that is not the middle one',
    'the skip index is applied to the reversed list, so the wrong matrix is left out',
    H + '''
import tensorD.base.ops as ops
graph()
M = [np.random.rand(2, 2) for _ in range(3)]
got = ev(ops.kron([tf.constant(m) for m in M], skip_matrices_index=0, reverse=True))
check(close(got, np.kron(M[2], M[1]), 1e-9), 'kron skip 0 reverse')
done()
''')

bug('singular-values-batched', 'C04',
    [(OPS, "        max_single_value = [tf.reduce_max(tf.svd(mat, compute_uv=False)) for mat in matrices]\n",
      "        if len(set(tuple(mat.get_shape().as_list()) for mat in matrices)) == 1:\n            # one batched decomposition for equally shaped matrices\n            return tf.pow(tf.reduce_max(tf.svd(tf.stack(matrices), compute_uv=False)), len(matrices))\n        max_single_value = [tf.reduce_max(tf.svd(mat, compute_uv=False)) for mat in matrices]\n")],
    'two or more different matrices of the same shape',
    'the largest singular value of all matrices is used for each of them',
    H + '''
import tensorD.base.ops as ops
graph()
M = [np.array([[1., -3.], [2., -1.]]), np.random.rand(2, 2)]
check(close(ev(ops.max_single_value_mul([tf.constant(m) for m in M])), np.prod([np.linalg.norm(m, 2) for m in M]), 1e-6), 'product of largest singular values')
done()
''')

# ------------------------------------------------------------------ C05..C08
bug('dtensor-t2mat-cache', 'C05',
    [(TYP, "        self.unfold_T = None\n", "        self.unfold_T = None\n        self._mats = {}\n"),
     (TYP, "        return DTensor(ops.t2mat(self.T, r_axis, c_axis))\n",
      "        key = (str(r_axis), str(sorted(c_axis) if isinstance(c_axis, list) else c_axis))\n        if key not in self._mats:\n            self._mats[key] = ops.t2mat(self.T, r_axis, c_axis)\n        return DTensor(self._mats[key])\n")],
    'two matricizations of one object with the same rows and differently ordered columns',
    'the second matricization returns the first one',
    H + '''
from tensorD.base.type import DTensor
graph()
X = np.arange(24.).reshape(2, 3, 4)
d = DTensor(tf.constant(X))
a, b = d.t2mat(1, [0, 2]), d.t2mat(1, [2, 0])
a, b = ev(a.T, b.T)
check(np.array_equal(a, X.transpose(1, 0, 2).reshape(3, 8)), 'first')
check(np.array_equal(b, X.transpose(1, 2, 0).reshape(3, 8)), 'second')
done()
''')

bug('ktensor-rank-one-weight', 'C06',
    [(TYP, "            tmp = ops.khatri(self.U)\n",
      "            tmp = ops.khatri(self.U)\n            if tmp.get_shape()[1].value == 1:\n                # a single component needs no recombination\n                return tf.reshape(tmp, [U.get_shape()[0].value for U in self.U])\n")],
    'a Kruskal tensor of rank one with a weight other than one',
    'the weight of a rank-one Kruskal tensor is dropped (and with it the scale of rank-one CP_ALS reconstructions)',
    H + '''
from tensorD.base.type import KTensor
graph()
U = [np.random.rand(n, 1).astype(np.float32) for n in (2, 3, 4)]
check(close(ev(KTensor(U, np.array([2.5], np.float32)).extract()), kruskal(U, [2.5]), 1e-5), 'rank one with weight')
done()
''')

bug('rmse-mask-positive', 'C07',
    [(LOSS, "        B = B * tf.cast(tf.not_equal(A, 0), B.dtype)\n", "        observed = tf.cast(tf.greater(tf.abs(A) + A, 0), B.dtype)\n        B = B * observed\n"),
     (LOSS, "        return tf.sqrt(tf.reduce_sum(tf.square(diff_tensor)) / tf.reduce_sum(tf.cast(tf.not_equal(A, 0), B.dtype)))",
      "        return tf.sqrt(tf.reduce_sum(tf.square(diff_tensor)) / tf.reduce_sum(observed))")],
    'negative entries in the first tensor',
    'negative entries are treated as missing by the zero-ignoring RMSE',
    H + '''
from tensorD.loss import rmse_ignore_zero
graph()
A, C = np.array([[1., -2.], [0., 3.]]), np.array([[2., 1.], [5., 3.]])
check(close(ev(rmse_ignore_zero(tf.constant(A), tf.constant(C))), rmse_nz(A, C), 1e-6), 'zero-ignoring RMSE with a negative entry')
done()
''')

bug('reader-keeps-rows', 'C08',
    [(RD, "        str_in = []\n", "        str_in = [] if full_shape is None or self._rows is None else self._rows\n"),
     (RD, "        self._full_data = None\n", "        self._full_data = None\n        self._rows = None\n"),
     (RD, "                if len(row) != 0:\n", "                if len(row) != 0 and row not in str_in:\n"),
     (RD, "        file.close()\n", "        file.close()\n        self._rows = str_in\n")],
    'the file changes between two reads and the second read names a shape',
    'entries of the earlier version of the file survive a re-read with an explicit shape',
    H + '''
from tensorD.dataproc.reader import TensorReader
graph()
open('a.csv', 'w').write('0,0,1.5\\n1,2,2\\n')
r = TensorReader('a.csv')
r.read()
a = ev(r.full_data)
open('a.csv', 'w').write('0,1,4\\n')
r.read(full_shape=[2, 3])
b = ev(r.full_data)
check(np.array_equal(a, [[1.5, 0, 0], [0, 0, 2]]), 'first read')
check(np.array_equal(b, [[0, 4, 0], [0, 0, 0]]), 'second read')
done()
''')

bug('reader-shape-from-last-row', 'C08',
    [(RD, "            max_dim = np.max(idx, axis=0) + np.ones(order).astype(int)\n",
      "            # coordinate files are sorted by their first mode\n            max_dim = np.append(idx[-1, :1], np.max(idx[:, 1:], axis=0)) + np.ones(order).astype(int)\n")],
    'rows not sorted by the first index and no shape given',
    'the first dimension is taken from the last row of the file',
    H + '''
from tensorD.dataproc.reader import TensorReader
graph()
open('a.csv', 'w').write('3,0,1\\n1,2,2\\n')
r = TensorReader('a.csv')
r.read()
want = np.zeros((4, 3)); want[3, 0] = 1; want[1, 2] = 2
try:
    got = ev(r.full_data)
except Exception as e:
    check(False, repr(e)[:200])
check(np.array_equal(got, want), 'unsorted file')
done()
''')

# ------------------------------------------------------------------ C09..C12
bug('als-weights-by-column-sum-scale', 'C09',
    [(CP, "                assign_op[mode] = A[mode].assign(tf.div(non_norm_A, lambda_op))\n",
      "                # no scaling needed while the columns stay below one\n                assign_op[mode] = A[mode].assign(tf.div(non_norm_A, tf.maximum(lambda_op, 1.0e-2)))\n")],
    'an intermediate factor whose column maximum lies below 0.01 (data of small scale)',
    'columns are not normalised to largest magnitude one and the weights no longer match the factors',
    H + '''
from tensorD.factorization.cp import CP_ALS
graph(3)
X = (np.random.rand(3, 4, 3) * 1e-3).astype(np.float32)
m = CP_ALS(env(X)); m.build_model(CP_ALS.CP_Args(rank=2, tol=0))
A = start()[:3]
hist = quiet(m.train, 3)
ref = als(X, A, 3)[-1]
check(close(m.full / 1e-3, ref[2] / 1e-3, 1e-3), 'reconstruction')
check(all(close(a, b, 1e-2) for a, b in zip(m.factors, ref[0])), 'factors')
done()
''')

bug('ncp-weight-uncapped-last-mode', 'C10',
    [(NCP, "                wA_update_op1[mode] = wA[mode].assign(tf.minimum(w, tf.sqrt(L0[mode] / L[mode])))\n",
      "                wA_update_op1[mode] = wA[mode].assign(tf.minimum(w, tf.sqrt(L0[mode] / L[mode - 1])))\n")],
    'several accepted steps, with unequal Lipschitz constants across modes',
    'extrapolation weights of a mode are capped with the Lipschitz constant of another mode',
    H + '''
from tensorD.factorization.ncp import NCP_BCU
for seed in range(6):
    graph(seed)
    X = np.random.rand(3, 6, 2).astype(np.float32); X[:, 3:] *= 5
    m = NCP_BCU(env(X)); m.build_model(NCP_BCU.NCP_Args(rank=2, tol=0))
    A = start()[:3]
    quiet(m.train, 8)
    check(close(m.full, bcu(X, A, 8)[-1][3], 2e-3), 'reconstruction after 8 steps, seed %d' % seed)
done()
''')

bug('ntucker-core-keeps-momentum', 'C11',
    [(NTK, "        self._train_op2 = tf.group(*Am_update_op2, gm_update_op2)\n", "        self._train_op2 = tf.group(*Am_update_op2)\n")],
    'a rejected step (objective not lower), followed by at least one more step',
    'after a rejected step the extrapolated core is not reset to the last accepted core',
    H + '''
from tensorD.factorization.ntucker import NTUCKER_BCU
used = 0
for seed in range(60):
    graph(seed)
    X = np.random.rand(4, 3, 3).astype(np.float32)
    m = NTUCKER_BCU(env(X)); m.build_model(NTUCKER_BCU.NTUCKER_Args(ranks=[2, 2, 2], tol=0))
    v = dict((t.op.name, x) for t, x in zip(tf.global_variables(), start()))
    A, g = [v['random-init/A-%d' % i] if 'random-init/A-%d' % i in v else v['A-%d' % i] for i in range(3)], v['core-tensor']
    ref = bcu(X, A, 40, g)
    objs = [np.linalg.norm(X - r[3]) for r in ref]
    rej = [k for k, r in enumerate(ref[:-1]) if not r[0]]
    if not rej or abs(objs[rej[0]] - objs[rej[0] - 1]) < 1e-4 * objs[0]:
        continue
    steps = rej[0] + 2
    used += 1
    quiet(m.train, steps)
    check(close(m.full, ref[steps - 1][3], 2e-3), 'step after the rejected step %d, seed %d' % (rej[0] + 1, seed))
    if used == 4:
        break
check(used > 0, 'no rejected step found')
done()
''')

bug('ntucker-core-gradient-point', 'C11',
    [(NTK, "            Bsq_update_op_g = Bsq.assign(ops.ttm(gm, AtA_g))\n", "            Bsq_update_op_g = Bsq.assign(ops.ttm(g, AtA_g))\n")],
    'two or more accepted steps, so that the extrapolated core differs from the core',
    'the gradient of the core is taken at the core instead of the extrapolated core',
    H + '''
from tensorD.factorization.ntucker import NTUCKER_BCU
for seed in range(3):
    graph(seed)
    X = np.random.rand(4, 3, 2).astype(np.float32)
    m = NTUCKER_BCU(env(X)); m.build_model(NTUCKER_BCU.NTUCKER_Args(ranks=[2, 2, 2], tol=0))
    v = dict((t.op.name.split('/')[-1], x) for t, x in zip(tf.global_variables(), start()))
    quiet(m.train, 5)
    ref = bcu(X, [v['A-%d' % i] for i in range(3)], 5, v['core-tensor'])[-1]
    check(close(m.full, ref[3], 1e-3), 'reconstruction after five steps')
    check(close(m.core, ref[1], 1e-3), 'core after five steps')
done()
''')

bug('hooi-sequential-projection', 'C12',
    [(TK, "                init_ops[mode] = A[mode].assign(U[:, :args.ranks[mode]])\n",
      "                init_ops[mode] = A[mode].assign(U[:, -args.ranks[mode]:])\n")],
    'more columns than the rank in some mode, and looking at the first step rather than at the limit',
    'HOOI starts from the trailing instead of the leading singular vectors',
    H + '''
from tensorD.factorization.tucker import HOOI
graph()
X = np.random.RandomState(5).rand(4, 4, 4).astype(np.float32)
m = HOOI(env(X)); m.build_model(HOOI.HOOI_Args(ranks=[2, 2, 2], tol=0))
quiet(m.train, 1)
A = [np.linalg.svd(kolda(X.astype(float), n))[0][:, :2] for n in range(3)]
for n in range(3):
    A[n] = np.linalg.svd(kolda(ttm(X, A, n, True), n))[0][:, :2]
check(close(m.full, ttm(ttm(X, A, T=True), A), 1e-3), 'reconstruction after one step')
done()
''')

# ------------------------------------------------------------------ C13, C14
bug('predict-cache', 'C13',
    [(NTK, "        return self._full_tensor.item(key)\n",
      "        if key not in self._known:\n            self._known[key] = self._full_tensor.item(key)\n        return self._known[key]\n"),
     (NTK, "        self._is_train_finish = False\n\n    def predict", "        self._is_train_finish = False\n        self._known = {}\n\n    def predict")],
    'the same entry predicted before and after a second training',
    'predict answers from an earlier training',
    H + '''
from tensorD.factorization.ntucker import NTUCKER_BCU
tf.reset_default_graph(); np.random.seed(0)
X = np.random.rand(3, 3, 2).astype(np.float32)
m = NTUCKER_BCU(env(X)); m.build_model(NTUCKER_BCU.NTUCKER_Args(ranks=[2, 1, 2], tol=0))
quiet(m.train, 2)
check(m.predict(1, 2, 0) == m.full[1, 2, 0], 'first training')
quiet(m.train, 7)
check(m.predict(1, 2, 0) == m.full[1, 2, 0], 'second training')
done()
''')

bug('cp-history-after-stop', 'C13',
    [(CP, "            hist.append([loss_v, rel_res])\n            if step == 1:\n", "            if step == 1:\n"),
     (CP, "            if nstall >= 3 or relerr2 < args.tol:\n                break\n",
      "            if nstall >= 3 or relerr2 < args.tol:\n                break\n            hist.append([loss_v, rel_res])\n")],
    'training that ends by tolerance or stall instead of the step limit',
    'the history lacks the last executed step, its last entry belongs to an earlier reconstruction',
    H + '''
from tensorD.factorization.cp import CP_ALS
graph()
X = kruskal([np.random.rand(n, 2) for n in (3, 4, 3)]).astype(np.float32)
m = CP_ALS(env(X)); m.build_model(CP_ALS.CP_Args(rank=2, tol=0.05))
hist = quiet(m.train, 200)
check(0 < len(hist) < 200, 'stops early')
check(abs(hist[-1][1] - relres(X, m.full)) < 1e-4, 'last history entry')
done()
''')

bug('ncp-stall-counter-never-reset', 'C14',
    [(NCP, "            else:\n                nstall = 0\n", "            elif obj < obj0:\n                nstall = 0\n")],
    'a stall count interrupted by a step that raises the objective noticeably',
    'stalls separated by an objective increase count as consecutive, training stops too early',
    H + '''
from tensorD.factorization.ncp import NCP_BCU
# an environment whose sessions answer the objective with a given sequence
import tensorflow as tfm
seq = [10., 8., 8., 9., 8., 7.9999, 4., 3.]   # stalls: step 3, (4 rises), 5, 6 -> only two in a row
class Sess:
    def __init__(self): self.s, self.k = tf.Session(), 0
    graph = property(lambda self: self.s.graph)
    def run(self, fetches, *a, **k):
        r = self.s.run(fetches, *a, **k)
        if isinstance(fetches, list) and isinstance(r, list) and len(r) >= 5:
            r = list(r)
            for i, f in enumerate(fetches):
                if not isinstance(f, list) and getattr(f, 'name', '').startswith('objective-value'):
                    r[i] = np.float32(seq[self.k]); self.k += 1
        return r
graph()
X = np.random.rand(3, 3, 3).astype(np.float32)
e = env(X)
type(e).sess = property(lambda self: Sess())
m = NCP_BCU(e); m.build_model(NCP_BCU.NCP_Args(rank=2, tol=1e-3))
hist = quiet(m.train, len(seq))
check(len(hist) == len(seq), 'stopped after %d of %d steps' % (len(hist), len(seq)))
done()
''')

bug('hooi-tolerance-inclusive-objective', 'C14',
    [(TK, "            relerr1 = abs(obj - obj0) / (obj0 + 1)\n", "            relerr1 = (obj0 - obj) / (obj0 + 1)\n")],
    'an objective above the reference (obj0 is the first objective plus one), three steps in a row',
    'increases of the objective count as stalls',
    H + '''
from tensorD.factorization.tucker import HOOI
class Sess:
    def __init__(self): self.s, self.k = tf.Session(), 0
    graph = property(lambda self: self.s.graph)
    def run(self, fetches, *a, **k):
        r = self.s.run(fetches, *a, **k)
        if isinstance(fetches, list) and isinstance(r, list) and len(r) >= 5:
            r = list(r)
            for i, f in enumerate(fetches):
                if not isinstance(f, list) and getattr(f, 'name', '').startswith('objective-value'):
                    r[i] = np.float32(seq[self.k]); self.k += 1
        return r
seq = [10., 15., 16., 17., 18., 19.]
graph()
X = np.random.rand(3, 3, 3).astype(np.float32)
e = env(X)
type(e).sess = property(lambda self: Sess())
m = HOOI(e); m.build_model(HOOI.HOOI_Args(ranks=[2, 2, 2], tol=1e-3))
check(len(quiet(m.train, 6)) == 6, 'stopped early')
done()
''')

# ------------------------------------------------------------------ C15
bug('cp-mttkrp-outside-dependency', 'C15',
    [(CP, """                           range(order)]
                    XA = tf.matmul(mats[mode], ops.khatri(A, mode, True), name='XA-%d' % mode)
            else:""", """                           range(order)]
                XA = tf.matmul(mats[mode], ops.khatri(A, mode, True), name='XA-%d' % mode)
            else:""")],
    'a schedule that runs the Khatri-Rao product of a later mode before the update of an earlier mode',
    'the product with the data may use factors of the previous step',
    H + '''
from tensorD.factorization.cp import CP_ALS
for seed in range(3):
    graph(seed)
    X = np.random.rand(6, 5, 7).astype(np.float32)
    m = CP_ALS(env(X)); m.build_model(CP_ALS.CP_Args(rank=3, tol=0))
    A = start()[:3]
    for _ in range(3):
        quiet(m.train, 3)
        check(close(m.full, als(X, A, 3)[-1][2], 1e-2), 'reconstruction, seed %d' % seed)
done()
''', repeat=4)

bug('ncp-l0-race', 'C15',
    [(NCP, "            with tf.control_dependencies([L0_update_op[mode]]):\n                L_update_op[mode] = L[mode].assign(tf.reduce_max(tf.svd(V, compute_uv=False)))\n",
      "            L_update_op[mode] = L[mode].assign(tf.reduce_max(tf.svd(V, compute_uv=False)))\n")],
    'a schedule that runs the new Lipschitz constant before the old one is saved',
    'the saved previous Lipschitz constant may be the current one',
    H + '''
from tensorD.factorization.ncp import NCP_BCU
from collections import deque
# every update of a Lipschitz variable must come after the op that saves its old value, in the same call
graph()
X = np.random.rand(3, 4, 3).astype(np.float32)
m = NCP_BCU(env(X)); m.build_model(NCP_BCU.NCP_Args(rank=2, tol=0))
g = tf.get_default_graph()
def before(a, b):
    seen, q = {b}, deque([b])
    while q:
        o = q.popleft()
        for p in [t.op for t in o.inputs] + list(o.control_inputs):
            if p is a:
                return True
            if p not in seen:
                seen.add(p); q.append(p)
    return False
n = 0
for v in tf.global_variables():
    reads = [o for o in g.get_operations() if o.type == 'Identity' and o.inputs and o.inputs[0].op is v.op]
    writes = [o for o in g.get_operations() if o.type == 'Assign' and o.inputs[0].op is v.op and o is not v.initializer]
    if v.shape.ndims == 0 and len(writes) == 1 and any(o.type == 'Svd' for o in [writes[0].inputs[1].op.inputs[0].op]):
        saves = [o for o in g.get_operations() if o.type == 'Assign' and o.inputs[1].op in reads and o.inputs[0].op is not v.op and not any(o is w.initializer for w in tf.global_variables())]
        for s in saves:
            n += 1
            check(before(s, writes[0]), 'update of %s may overtake its saving' % v.op.name)
check(n == 3, 'found %d' % n)
done()
''')

bug('ncp-t0-race', 'C15',
    [(NCP, "            with tf.control_dependencies([Am_update_op1[order - 1]]):\n                t0_update_op1 = t0.assign(t)\n",
      "            with tf.control_dependencies([wA_update_op1[0]]):\n                t0_update_op1 = t0.assign(t)\n")],
    'a schedule that moves t0 forward before the momentum ratio has been read by the modes after the first',
    'the momentum ratio may be computed from the already advanced t0',
    '', skip=True)

# ------------------------------------------------------------------ C16..C18
bug('shared-session', 'C16',
    [(ENV, "        self._sum_path = summary_path\n", "        self._sum_path = summary_path\n        self._sess = None\n"),
     (ENV, "        return tf.Session()\n", "        if self._sess is None:\n            self._sess = tf.Session()\n        return self._sess\n")],
    'one environment used by models that live in two graphs',
    'the session of the first graph is used for the second model, whose training fails',
    H + '''
from tensorD.factorization.cp import CP_ALS
from tensorD.factorization.tucker import HOSVD
X = np.random.rand(3, 3, 2).astype(np.float32)
e = env(X)
with tf.Graph().as_default():
    m = CP_ALS(e); m.build_model(CP_ALS.CP_Args(rank=2)); quiet(m.train, 2)
with tf.Graph().as_default():
    h = HOSVD(e); h.build_model(HOSVD.HOSVD_Args([2, 2, 2]))
    try:
        quiet(h.train)
    except Exception as x:
        check(False, repr(x)[:200])
check(h.train_finish, 'second model trained')
done()
''')

bug('ncp-finish-flag-kept', 'C17',
    [(NCP, "    def train(self, steps):\n        self._is_train_finish = False\n\n        sess = self._env.sess\n",
      "    def train(self, steps):\n        sess = self._env.sess\n")],
    'a second training that fails (or is observed while running)',
    'the model reports finished during and after a failed retraining',
    H + '''
from tensorD.factorization.ncp import NCP_BCU
graph()
X = np.random.rand(3, 3, 2).astype(np.float32)
e = env(X)
m = NCP_BCU(e); m.build_model(NCP_BCU.NCP_Args(rank=2, tol=0))
quiet(m.train, 2)
check(m.train_finish, 'first')
class Broken:
    graph = tf.get_default_graph()
    def run(self, *a, **k): raise RuntimeError('lost')
type(e).sess = property(lambda self: Broken())
try:
    quiet(m.train, 2)
except RuntimeError:
    pass
check(not m.train_finish, 'finished after a failed training')
done()
''')

bug('centralization-in-place', 'C18',
    [(PN, "    centermat = mat-tmp\n    return centermat\n", "    mat -= tmp\n    return mat\n")],
    'looking at the argument afterwards, or shrinking in the second mode (which still needs the original total)',
    'centralization overwrites its argument',
    H + '''
from tensorD.base import pitf_ops_numpy as pn
M = np.arange(6.).reshape(2, 3)
K = M.copy()
pn.centralization(M)
check(np.array_equal(M, K), 'centralization changed its argument')
done()
''')

bug('ranks-clipped-in-place', 'C18',
    [(TK, "        order = input_data.get_shape().ndims\n        A = []\n        for n in range(order):\n",
      "        order = input_data.get_shape().ndims\n        A = []\n        for n in range(order):\n            args.ranks[n] = min(args.ranks[n], self._env.full_shape()[n])\n")],
    'a rank larger than the dimension, and reading the rank list afterwards',
    'the rank list of the caller is modified',
    H + '''
from tensorD.factorization.tucker import HOSVD
graph()
X = np.random.rand(3, 2, 4).astype(np.float32)
r = [3, 3, 3]
m = HOSVD(env(X)); m.build_model(HOSVD.HOSVD_Args(r)); quiet(m.train)
check(r == [3, 3, 3], 'rank list became %s' % r)
done()
''')

# ------------------------------------------------------------------ C19..C25
bug('pair-scale-swapped', 'C19',
    [(PO, "        Pomega_BY = tf.div(sum_vec, tf.sqrt(tf.cast(shape[0], dtype=mat.dtype)), name='Pomega_BY')\n",
      "        Pomega_BY = tf.div(sum_vec, tf.sqrt(tf.cast(shape[0] if len(sum_vec) > 1 else shape[1], dtype=mat.dtype)), name='Pomega_BY')\n")],
    'a sample list of length one and unequal first two dimensions',
    'a single sample of the second matrix is scaled by the wrong mode size',
    H + '''
from tensorD.base import pitf_ops as po
graph()
M = np.random.rand(3, 4).astype(np.float32)
got = ev(po.Pomega_mat([[1], [2], [3]], tf.constant(M), (2, 3, 4), 1, 1))
check(close(got, [M[2, 3] / np.sqrt(2)], 1e-5), 'one sample')
done()
''')

bug('sample-last-index-missing', 'C19',
    [(PN, "    c = np.random.randint(0, len_3d, sample_num)\n", "    c = np.random.randint(0, max(1, len_3d - 1), sample_num)\n")],
    'many samples along the third mode',
    'the last slice of the third mode is never sampled',
    H + '''
from tensorD.base import pitf_ops_numpy as pn
np.random.seed(0)
a, b, c = pn.sample3D_rule((3, 3, 3), 500)
check(set(a) == set(b) == set(c) == {0, 1, 2}, 'all indices are drawn')
done()
''')

bug('shrink-total-positive-only', 'C20',
    [(PN, "            tmp2 = (max(0, delta-tao)+min(0, delta+tao))*np.ones(mat.shape)/np.sqrt(mat.shape[0]*mat.shape[1])\n",
      "            tmp2 = max(0, np.sign(delta)*delta-tao)*np.ones(mat.shape)/np.sqrt(mat.shape[0]*mat.shape[1])\n")],
    'a matrix with a negative total larger in size than the threshold, second mode',
    'the soft-thresholded total loses its sign',
    H + '''
from tensorD.base import pitf_ops_numpy as pn
M = -np.ones((2, 3))
check(close(pn.shrink(M, 0.5, 'complicated'), -(6 / np.sqrt(6) - .5) / np.sqrt(6) * np.ones((2, 3)), 1e-9), 'negative total')
done()
''')

bug('cone-keeps-scale', 'C20',
    [(PN, "    if t >= np.negative(norm_x) and t <= norm_x:\n        tmp = (norm_x + t)/(2 * norm_x)\n",
      "    if t >= np.negative(norm_x) and t <= norm_x:\n        tmp = min(1, (norm_x + abs(t))/(2 * norm_x))\n")],
    'a point outside the cone and its polar with negative t',
    'points below the horizontal plane are projected to a wrong point',
    H + '''
from tensorD.base import pitf_ops_numpy as pn
x, t = np.array([3., 4.]), -1.
a, b = pn.cone_projection_operator(x, t)
check(close(a, x * .4, 1e-9) and abs(b - 2) < 1e-9, 'projection of ((3,4),-1)')
done()
''')

bug('pitf-scale-of-third', 'C21',
    [(PTN, "            Z = Z / np.sqrt(shape[1])\n", "            Z = Z / np.sqrt(shape[0])\n")],
    'a tensor whose first two dimensions differ and a second step',
    'the third matrix is scaled by the wrong mode size',
    H + '''
from tensorD.factorization.pitf_numpy import PITF_np
from tensorD.base import pitf_ops_numpy as pn
np.random.seed(3)
T = np.random.rand(2, 5, 3)
p = PITF_np(env(T))
st = np.random.get_state()
args = PITF_np.PITF_np_Args(rank=1, delt=.9, tao=.01, sample_num=9, steps=4)
y, X, Y, Z, I, E, R = quiet(p.exact_recovery, args, T)
np.random.set_state(st)
spl = pn.sample3D_rule(T.shape, 9)
q = np.zeros(9); d, tao = .9 * 9 / np.sqrt(30), .01 * np.sqrt(30)
for _ in range(4):
    P = [pn.shrink(pn.adjoint_operator(spl, q, T.shape, 9, k), tao, 'complicated' if k == 0 else 'normal') / np.sqrt(T.shape[[2, 0, 1][k]]) for k in range(3)]
    e = np.array([T[i, j, k] for i, j, k in zip(*spl)]) - pn.Pomega_Pair(spl, *P, T.shape, 9)
    q = q + d * e
check(close(y, q, 1e-6), 'dual vector')
done()
''')

bug('noise-may-subtract', 'C22',
    [(GEN, "        Mtrue = sess.run(M.extract())\n    noise = np.maximum(0, max_noise * np.random.randn(*N_list))\n    return Mtrue + noise\n\n\n",
      "        Mtrue = sess.run(M.extract())\n    noise = max_noise * np.random.randn(*N_list)\n    return np.maximum(0, Mtrue + noise)\n\n\n")],
    'a positive noise level and comparison with the noise-free tensor',
    'noise lowers entries of the CP data',
    H + '''
from tensorD.demo.DataGenerator import synthetic_data_cp
graph(4); a = synthetic_data_cp([3, 4, 2], 2, 0)
graph(4); b = synthetic_data_cp([3, 4, 2], 2, 0.5)
check((b >= a - 1e-6).all(), 'noise subtracts')
done()
''')

bug('memory-order-feed', 'C23',
    [(ENV, "        return self._data_provider.full_tensor()\n",
      "        data = self._data_provider.full_tensor()\n        if hasattr(data, 'ravel') and not data.flags['C_CONTIGUOUS']:\n            # one contiguous block feeds faster\n            data = data.ravel(order='K').reshape(data.shape)\n        return data\n")],
    'data given as a transposed or Fortran-ordered array',
    'entries are permuted for arrays that are not C-contiguous',
    H + '''
from tensorD.factorization.tucker import HOSVD
graph()
X = np.random.rand(2, 3, 4).astype(np.float32).transpose(2, 0, 1)
m = HOSVD(env(X)); m.build_model(HOSVD.HOSVD_Args([4, 2, 3])); quiet(m.train)
check(close(m.full, X, 1e-4), 'full-rank reconstruction of a transposed view')
done()
''')

bug('log-step-shifted', 'C24',
    [(NTK, "                sum_writer.add_summary(sum_msg, step)\n", "                sum_writer.add_summary(sum_msg, step if args.verbose or args.validation_internal == -1 else max(1, len(hist)))\n")],
    'a validation interval, and reading the step numbers of the log',
    'logged values carry the number of the step before',
    H + '''
import glob, json, subprocess
if len(sys.argv) == 1:
    out = subprocess.run([sys.executable, os.path.abspath(__file__), 'child'], capture_output=True, text=True).stdout
    hist = json.loads(out.strip().splitlines()[-1])
    got = {}
    for f in glob.glob('log/events*'):
        for e in tf.train.summary_iterator(f):
            for v in e.summary.value:
                if 'relative' in v.tag:
                    got[e.step] = v.simple_value if v.HasField('simple_value') else float(tf.make_ndarray(v.tensor))
    check(sorted(got) == [1, 2, 4, 5], 'logged steps %s' % sorted(got))
    check(all(abs(got[s] - hist[s - 1]) < 1e-5 for s in got), 'values')
    done()
else:
    from tensorD.factorization.ntucker import NTUCKER_BCU
    graph()
    X = np.random.rand(3, 3, 2).astype(np.float32)
    m = NTUCKER_BCU(env(X)); m.build_model(NTUCKER_BCU.NTUCKER_Args(ranks=[2, 1, 2], tol=0, validation_internal=2))
    hist = quiet(m.train, 5)
    print(json.dumps([float(h[1]) for h in hist]))
''')

bug('hosvd-weakest-direction', 'C25',
    [(TK, "            A.append(U[:, :args.ranks[n]])\n", "            A.append(tf.concat([U[:, :args.ranks[n] - 1], U[:, -1:]], 1))\n")],
    'a rank below the dimension in some mode',
    'the last kept direction is the weakest instead of the next strongest, the truncation bound is broken',
    H + '''
from tensorD.factorization.tucker import HOSVD
graph()
X = np.zeros((4, 4, 4), np.float32)
for i, v in enumerate((4, 3, .1, .05)):
    X[i, i, i] = v
m = HOSVD(env(X)); m.build_model(HOSVD.HOSVD_Args([2, 2, 2])); quiet(m.train)
tails = [(np.linalg.svd(kolda(X.astype(float), n), compute_uv=False)[2:] ** 2).sum() for n in range(3)]
err = ((X - m.full) ** 2).sum()
check(err <= sum(tails) * 1.001, 'error %.4f above bound %.4f' % (err, sum(tails)))
done()
''')
B = [b for b in B if not b.get('skip')]

# ================================================================== second batch
bug('settings-on-class', 'C16',
    [(CP, "        self._is_train_finish = False\n        self._args = None\n", "        self._is_train_finish = False\n"),
     (CP, "        self._args = args\n        self._init_op = init_op\n        self._lambda_op", "        CP_ALS._args = args\n        self._init_op = init_op\n        self._lambda_op")],
    'two CP models with different tolerances, the first one trained after the second one was built',
    'the settings of the model built last are used by every model of the class',
    H + '''
from tensorD.factorization.cp import CP_ALS
graph()
X = np.random.rand(3, 4, 5).astype(np.float32)
e = env(X)
a = CP_ALS(e); a.build_model(CP_ALS.CP_Args(rank=1, tol=0))
b = CP_ALS(e); b.build_model(CP_ALS.CP_Args(rank=1, tol=0.99))
n = len(quiet(a.train, 6))
check(n == 6, '%d steps without tolerance' % n)
check(len(quiet(b.train, 6)) == 1, 'steps with a large tolerance')
done()
''')

bug('history-list-reused', 'C18',
    [(TK, "        self._loss_op = None\n        self._is_train_finish = False\n\n    def build_model(self, args):\n        assert", "        self._loss_op = None\n        self._hist = []\n        self._is_train_finish = False\n\n    def build_model(self, args):\n        assert"),
     (TK, "        hist = []\n", "        hist = self._hist\n        del hist[:]\n")],
    'a HOOI model trained again while the history of the first training is still in use',
    'the history returned by an earlier training is overwritten by the later one',
    H + '''
from tensorD.factorization.tucker import HOOI
graph()
X = np.random.rand(3, 4, 5).astype(np.float32)
m = HOOI(env(X)); m.build_model(HOOI.HOOI_Args([2, 2, 2], tol=0))
h = quiet(m.train, 5)
copy = [list(x) for x in h]
quiet(m.train, 2)
check([list(x) for x in h] == copy, 'history of the first training is now %s' % h)
done()
''')

bug('rmse-small-entries-missing', 'C07',
    [(LOSS, "        B = B * tf.cast(tf.not_equal(A, 0), B.dtype)\n", "        known = tf.cast(tf.greater(tf.abs(A), 1e-6), B.dtype)\n        B = B * known\n"),
     (LOSS, "tf.reduce_sum(tf.cast(tf.not_equal(A, 0), B.dtype)))", "tf.reduce_sum(known))")],
    'data with non-zero entries below 1e-6',
    'very small entries are taken for missing ones',
    H + '''
from tensorD.loss import rmse_ignore_zero
graph()
A = np.array([1., 1e-7, 0., 2.], np.float32); B = np.array([.5, 3., 4., 2.], np.float32)
check(close(ev(rmse_ignore_zero(tf.constant(A), tf.constant(B))), rmse_nz(A.astype(float), B.astype(float)), 1e-4), 'loss')
done()
''')

bug('hooi-core-unordered', 'C15',
    [(TK, "            g = ops.ttm(input_data, assign_op, transpose=True)\n", "            with tf.control_dependencies(assign_op[:-1]):\n                g = ops.ttm(input_data, A, transpose=True)\n")],
    'a schedule that computes the core before the last factor is updated',
    'the core may be the projection on the factors of the previous step',
    H + '''
from tensorD.factorization.tucker import HOOI
bad = 0
for seed in range(4):
    graph(seed)
    X = np.random.rand(6, 5, 7).astype(np.float32)
    m = HOOI(env(X)); m.build_model(HOOI.HOOI_Args([2, 2, 2], tol=0))
    for _ in range(5):
        quiet(m.train, 1)
        bad += not close(m.core, ttm(X.astype(float), f64(m.factors), T=True), 1e-3)
check(bad == 0, '%d cores do not belong to the factors' % bad)
done()
''')

bug('ncp-momentum-restart', 'C10',
    [(NCP, "        self._train_op2 = tf.group(*Am_update_op2)\n", "        self._train_op2 = tf.group(*Am_update_op2, t0.assign(1.0))\n")],
    'a step that does not lower the objective, followed by at least two more steps',
    'a rejected step also resets the momentum sequence',
    H + '''
from tensorD.factorization.ncp import NCP_BCU
hit = 0
for seed in range(150):
    graph(seed)
    X = np.round(3 * np.random.rand(*[(2, 3), (3, 3), (3, 2, 2)][seed % 3])).astype(np.float32)
    X[X.ndim * (0,)] = 1
    r0 = 3
    m = NCP_BCU(env(X)); m.build_model(NCP_BCU.NCP_Args(rank=r0, tol=0))
    A = start()[:X.ndim]
    want = bcu(X, A, 40)
    rej = [k for k, w in enumerate(want) if not w[0]]
    if not rej or rej[0] > 30:
        continue
    n = min(rej[0] + 5, 40)
    objs = [.5 * np.linalg.norm(X - w[3]) ** 2 for w in want[:n]]
    if min(abs(a - b) for a, b in zip(objs, objs[1:])) < 2e-5:
        continue
    hit += 1
    quiet(m.train, n)
    check(close(m.full, want[n - 1][3], 3e-3), 'seed %d: reconstruction after %d steps, rejected %s' % (seed, n, rej))
    if hit >= 4:
        break
check(hit, 'no rejected step found')
done()
''')

bug('sample-c-range', 'C19',
    [(PO, "    c = tf.random_uniform([sample_num], 0, shape[2], dtype=tf.int32, name='sample_rule_c')\n", "    c = tf.random_uniform([sample_num], 0, tf.minimum(shape[1], shape[2]), dtype=tf.int32, name='sample_rule_c')\n")],
    'a tensor whose third mode is longer than the second',
    'the last indices of the third mode are never sampled',
    H + '''
import tensorD.base.pitf_ops as po
graph()
a, b, c = ev(*po.sample3D_rule((3, 2, 6), 400))
check(set(a) == set(range(3)) and set(b) == set(range(2)) and set(c) == set(range(6)), 'third indices drawn: %s' % sorted(set(c)))
done()
''')

bug('log-repeated-at-stop', 'C24',
    [(NTK, "            if nstall >= 3 or relerr2 < args.tol:\n                break\n", "            if nstall >= 3 or relerr2 < args.tol:\n                sum_writer.add_summary(sum_msg, step)\n                break\n")],
    'training that stops early in a step that is not a logged one',
    'the values of the last logged step are logged again under the number of the stopping step',
    H + '''
import glob
from tensorD.factorization.ntucker import NTUCKER_BCU
graph()
X = np.random.rand(3, 4, 3).astype(np.float32)
writers, FW = [], tf.summary.FileWriter
tf.summary.FileWriter = lambda *a, **k: writers.append(FW(*a, **k)) or writers[-1]
m = NTUCKER_BCU(env(X, 'events')); m.build_model(NTUCKER_BCU.NTUCKER_Args([2, 2, 2], tol=5e-2))
h = quiet(m.train, 50)
check(1 < len(h) < 50, 'no early stop: %d steps' % len(h))
for w in writers:
    w.close()
out = []
for f in glob.glob(os.path.join(WORK, 'events', '*tfevents*')):
    for e in tf.train.summary_iterator(f):
        if e.summary.value:
            out.append(e.step)
check(out == [1], 'logged steps %s of %d' % (out, len(h)))
done()
''')

bug('environment-keeps-data', 'C23',
    [(ENV, "        self._sum_path = summary_path\n", "        self._sum_path = summary_path\n        self._data = None\n"),
     (ENV, "    def full_data(self):\n        return self._data_provider.full_tensor()\n", "    def full_data(self):\n        if self._data is None:\n            self._data = self._data_provider.full_tensor()\n        return self._data\n")],
    'two models built on one environment whose provider got new data of the same shape in between',
    'the second model is trained on the data of the first',
    H + '''
from tensorD.factorization.tucker import HOSVD
from tensorD.factorization.env import Environment
from tensorD.dataproc.provider import Provider
graph()
X, Y = np.random.rand(2, 3, 4, 2).astype(np.float32)
p = Provider(); e = Environment(p, WORK + '/log')
p.full_tensor = lambda: X
a = HOSVD(e); a.build_model(HOSVD.HOSVD_Args([3, 4, 2])); quiet(a.train)
p.full_tensor = lambda: Y
b = HOSVD(e); b.build_model(HOSVD.HOSVD_Args([3, 4, 2])); quiet(b.train)
check(close(a.full, X) and close(b.full, Y), 'reconstructions')
done()
''')

bug('pitf-step-size-capped', 'C21',
    [(PTN, "        delt = args.delt * spn / np.sqrt(shape[0] * shape[1] * shape[2])\n", "        delt = args.delt * min(spn, shape[0] * shape[1] * shape[2]) / np.sqrt(shape[0] * shape[1] * shape[2])\n")],
    'more samples than the tensor has entries (array version)',
    'the step size no longer scales with the sample count once it exceeds the volume',
    H + '''
from tensorD.factorization.pitf_numpy import PITF_np
graph()
T = np.random.rand(2, 2, 2) + .5
for n in (5, 8, 12):
    m = PITF_np(env(T))
    y = quiet(m.exact_recovery, PITF_np.PITF_np_Args(rank=1, delt=.8, tao=.1, sample_num=n, steps=1), T)[0]
    d = .8 * n / np.sqrt(8)
    check(all(np.abs(T.ravel() * d - v).min() < 1e-9 for v in y), 'first dual vector with %d samples: %s' % (n, y))
done()
''')

bug('xcb-mask-positive', 'C04',
    [(OPS, "    binX = tf.cast(tf.not_equal(X, tf.zeros(X.get_shape(), X.dtype)), X.dtype)\n", "    binX = tf.cast(tf.greater(X, tf.zeros(X.get_shape(), X.dtype)), X.dtype)\n")],
    'negative entries in the data',
    'negative entries are masked out of the product',
    H + '''
import tensorD.base.ops as ops
graph()
X = np.arange(24.).reshape(2, 3, 4) - 7
B, C = np.random.rand(3, 2), np.random.rand(4, 2)
want = np.einsum('ijk,jr,kr->ir', X, B, C)
check(close(ev(ops.xcb(tf.constant(X), tf.constant(C), tf.constant(B))), want, 1e-9), 'xcb')
done()
''')

bug('inner-counts-elements', 'C03',
    [(OPS, "        if tensorA.get_shape() != tensorB.get_shape():\n", "        if tensorA.get_shape().num_elements() != tensorB.get_shape().num_elements():\n")],
    'two tensors of different shape with the same number of entries',
    'the inner product of tensors of unequal shape is computed instead of rejected',
    H + '''
import tensorD.base.ops as ops
graph()
try:
    ops.inner(tf.zeros((2, 3)), tf.zeros((3, 2)))
    check(False, 'unequal shapes accepted')
except ValueError:
    pass
check(float(ev(ops.inner(tf.ones((2, 3)), tf.ones((2, 3))))) == 6, 'value')
done()
''')

bug('reader-drops-zeros', 'C08',
    [(RD, "        self._sparse_data = tf.SparseTensor(indices=idx, values=value, dense_shape=max_dim)\n", "        stored = value != 0\n        self._sparse_data = tf.SparseTensor(indices=idx[stored], values=value[stored], dense_shape=max_dim)\n")],
    'a file that lists entries with value zero',
    'listed zero entries are missing in the sparse form',
    H + '''
from tensorD.dataproc.reader import TensorReader
graph()
open('d.csv', 'w').write('0,0,1.5\\n1,2,0\\n2,1,-1\\n')
r = TensorReader('d.csv'); r.read()
full, sp = ev(r.full_data, r.sparse_data)
check(full.shape == (3, 3) and full[0, 0] == 1.5 and full[2, 1] == -1, 'dense %s' % full)
check(sorted(map(tuple, sp.indices.tolist())) == [(0, 0), (1, 2), (2, 1)], 'sparse %s' % sp.indices.tolist())
done()
''')

bug('cp-reference-moves', 'C14',
    [(CP, "                nstall = 0\n            if nstall >= 3", "                nstall = 0\n                obj0 = obj\n            if nstall >= 3")],
    'slow progress over several steps',
    'the objective is compared with the last objective that changed enough instead of the first one',
    H + '''
from tensorD.factorization.cp import CP_ALS
graph(4)
X = (np.random.rand(4, 4, 4) * 3).astype(np.float32)
for tol in (.02, .05, .1, .2):
    m = CP_ALS(env(X)); m.build_model(CP_ALS.CP_Args(rank=2, tol=tol))
    h = quiet(m.train, 40)
    n = np.linalg.norm(X)
    o = [.5 * (r[1] * n) ** 2 for r in h]
    o0, stall, stop = o[0] + 1, 0, None
    for k, x in enumerate(o):
        stall = stall + 1 if abs(x - o0) / (o0 + 1) < tol else 0
        if stall >= 3 or h[k][1] < tol:
            stop = k + 1
            break
    check(len(h) == (stop or 40), 'tol %s: %d steps, the rule says %s' % (tol, len(h), stop))
done()
''')

bug('hosvd-finish-before-log', 'C17',
    [(TK, "        sum_writer.add_run_metadata(run_metadata, 'step1')\n", "        self._is_train_finish = True\n        sum_writer.add_run_metadata(run_metadata, 'step1')\n"),
     (TK, "        print('HOSVD model train finish, with RMSE = %f' % loss_v)\n        self._is_train_finish = True\n", "        print('HOSVD model train finish, with RMSE = %f' % loss_v)\n")],
    'a failure while the summary of the decomposition is written',
    'finished is reported although the training call failed',
    H + '''
from tensorD.factorization.tucker import HOSVD
graph()
X = np.random.rand(3, 4, 2).astype(np.float32)
m = HOSVD(env(X)); m.build_model(HOSVD.HOSVD_Args([2, 2, 2]))
real = tf.summary.FileWriter.add_summary
def broken(*a, **k):
    raise IOError('no space left')
tf.summary.FileWriter.add_summary = broken
try:
    quiet(m.train)
    failed = False
except IOError:
    failed = True
tf.summary.FileWriter.add_summary = real
check(bool(m.train_finish) != failed, 'finished is %s although the call %s' % (m.train_finish, 'failed' if failed else 'returned'))
done()
''')

bug('out-of-range-ends-training', 'C17',
    [(NCP, "            if obj < obj0:\n                sess.run(train_op1)\n                obj0 = obj\n            else:\n                sess.run(train_op2)\n",
      "            try:\n                sess.run(train_op1 if obj < obj0 else train_op2)\n            except tf.errors.OutOfRangeError:\n                break    # the data queue has ended\n            obj0 = min(obj, obj0)\n")],
    'an out-of-range error in the extrapolation call of a step',
    'the failure is swallowed and the training reported as finished',
    H + '''
from tensorD.factorization.ncp import NCP_BCU
graph()
X = np.random.rand(3, 4, 2).astype(np.float32)
m = NCP_BCU(env(X)); m.build_model(NCP_BCU.NCP_Args(rank=2, tol=0))
real, n = tf.Session.run, [0]
for at in range(3, 8):
    n[0] = 0
    def run(self, *a, **k):
        n[0] += 1
        if n[0] == at:
            raise tf.errors.OutOfRangeError(None, None, 'injected')
        return real(self, *a, **k)
    tf.Session.run = run
    try:
        quiet(m.train, 4)
        ok = True
    except tf.errors.OutOfRangeError:
        ok = False
    tf.Session.run = real
    check(not ok and not m.train_finish, 'failure of call %d: returned %s, finished %s' % (at, ok, m.train_finish))
done()
''')

bug('hooi-start-scaled', 'C12',
    [(TK, "                init_ops[mode] = A[mode].assign(U[:, :args.ranks[mode]])\n", "                init_ops[mode] = A[mode].assign(tf.reverse(U, [1])[:, :args.ranks[mode]] if args.ranks[mode] == shape[mode] // 2 else U[:, :args.ranks[mode]])\n")],
    'a rank that is exactly half the dimension of its mode, and few HOOI steps',
    'the starting point uses the weakest instead of the leading singular vectors',
    H + '''
from tensorD.factorization.tucker import HOOI
for seed in range(3):
    graph(seed)
    X = np.random.rand(4, 4, 4).astype(np.float32)
    m = HOOI(env(X)); m.build_model(HOOI.HOOI_Args([2, 2, 2], tol=0))
    quiet(m.train, 1)
    U = [np.linalg.svd(kolda(X.astype(float), n))[0][:, :2] for n in range(3)]
    for n in range(3):
        U[n] = np.linalg.svd(kolda(ttm(X.astype(float), U, n, T=True), n))[0][:, :2]
    want = ttm(ttm(X.astype(float), U, T=True), U)
    check(close(m.full, want, 2e-3), 'reconstruction after one step, seed %d' % seed)
done()
''')

bug('ncp-reference-on-class', 'C26',
    [(NCP, "                obj0 = obj + 1\n            hist", "                NCP_BCU._ref = obj + 1\n            obj0 = NCP_BCU._ref\n            hist"),
     (NCP, "                obj0 = obj\n            else", "                NCP_BCU._ref = obj\n            else")],
    'two non-negative CP models trained in two threads, switching between the steps',
    'the objective of the last accepted step is kept on the class, so concurrent trainings compare with each other',
    H + '''
import threading
from tensorD.factorization.ncp import NCP_BCU
RealSession = tf.Session

def make(shape, scale):
    g = tf.Graph()
    with g.as_default():
        tf.set_random_seed(2)
        np.random.seed(2)
        m = NCP_BCU(env((np.random.rand(*shape) * scale).astype(np.float32), 'l%s' % scale))
        m.build_model(NCP_BCU.NCP_Args(rank=2, tol=0))
    return g, m

small, big = make((3, 4, 2), 1), make((3, 4, 2), 100)

def go(gm, n):
    with gm[0].as_default():
        return gm[1].train(n)
with contextlib.redirect_stdout(io.StringIO()):
    alone = go(big, 8)
    for at in range(2, 14):
        count = [0]

        class S(RealSession):
            def run(self, *a, **k):
                if threading.current_thread() is threading.main_thread() and self.graph is big[0]:
                    count[0] += 1
                    if count[0] == at:
                        t = threading.Thread(target=go, args=(small, 3))
                        t.start()
                        t.join()
                return RealSession.run(self, *a, **k)
        tf.Session = S
        h = go(big, 8)
        tf.Session = RealSession
        check(close(np.array(h), np.array(alone), 1e-4), 'another thread trained before session call %d: %s instead of %s' % (at, h, alone))
done()
''')

bug('khatri-shared-operands', 'C26',
    [(OPS, "        tmp = tf.einsum(operation, *matrices)\n        r_size = tf.reduce_prod([int(mat.get_shape()[0].value) for mat in matrices])\n",
      "        khatri.operands = matrices\n        tmp = tf.einsum(operation, *khatri.operands)\n        r_size = tf.reduce_prod([int(mat.get_shape()[0].value) for mat in khatri.operands])\n")],
    'another thread builds a Khatri-Rao product between two lines of this one',
    'the operands are kept on the function object, so a product may be computed from the matrices of another thread',
    H + '''
import threading
import tensorD.base.ops as ops

def build(seed):
    g = tf.Graph()
    with g.as_default():
        r = np.random.RandomState(seed)
        A, B = r.rand(2 + seed, 2), r.rand(3, 2)
        with tf.Session() as s:
            return s.run(ops.khatri([tf.constant(A), tf.constant(B)])), kr([A, B])
busy = []

def tracer(frame, event, arg):
    if not frame.f_code.co_filename.endswith('base/ops.py') or threading.current_thread() is not threading.main_thread():
        return None
    def local(frame, event, arg):
        if event == 'line' and not busy:
            busy.append(1)
            t = threading.Thread(target=build, args=(1,))
            t.start()
            t.join()
            busy.pop()
        return local
    return local
build(0), build(1)
sys.settrace(tracer)
try:
    got, want = build(0)
    ok = close(got, want)
except Exception as e:
    ok = False
    print(repr(e)[:200])
finally:
    sys.settrace(None)
check(ok, 'product disturbed by another thread')
done()
''')

# ------------------------------------------------------------------ later additions
bug('ncp-fixed-op-seed', 'C27',
    [(NCP, "            A = [tf.Variable(tf.nn.relu(tf.random_uniform(shape=(shape[ii], args.rank), dtype=tf.float32)),\n",
      "            A = [tf.Variable(tf.nn.relu(tf.random_uniform(shape=(shape[ii], args.rank), dtype=tf.float32, seed=ii + 1)),\n")],
    'two trainings without a graph seed, compared with each other',
    'the draws carry seeds of their own, so every unseeded training of NCP starts from the same point (and all models of one shape agree under a graph seed)',
    H + '''
from tensorD.factorization.ncp import NCP_BCU
tf.reset_default_graph()
X = np.random.rand(3, 4, 2).astype(np.float32)
m = NCP_BCU(env(X)); m.build_model(NCP_BCU.NCP_Args(rank=2, tol=1e-12))
quiet(m.train, 1)
a = [f.copy() for f in m.factors]
quiet(m.train, 1)
check(not all(np.array_equal(x, y) for x, y in zip(a, m.factors)), 'two unseeded trainings start from different points')
done()
''')

bug('noise-fixed-stream', 'C27',
    [(GEN, "    noise = np.maximum(0, max_noise * np.random.randn(*N_list))\n    return Mtrue + noise\n\n\ndef synthetic_data_tucker",
      "    noise = np.maximum(0, max_noise * np.random.RandomState(len(N_list)).randn(*N_list))\n    return Mtrue + noise\n\n\ndef synthetic_data_tucker")],
    'the noise of two generator calls compared, the low-rank part taken away',
    'every call of the CP generator for one order adds the same noise, whatever the seed',
    H + '''
from tensorD.demo.DataGenerator import synthetic_data_cp
noise = []
for seed in (1, 2):
    d = []
    for level in (0, 1.0):
        graph(seed)
        d.append(synthetic_data_cp([3, 4, 2], 2, level))
    noise.append(d[1] - d[0])
check(not np.allclose(noise[0], noise[1], atol=1e-3), 'noise differs between seeds')
done()
''')

bug('ntucker-core-entropy', 'C27',
    [(NTK, "        g = tf.Variable(tf.nn.relu(tf.random_uniform(shape=args.ranks, dtype=tf.float32)), name='core-tensor')\n",
      "        g = tf.Variable(tf.nn.relu(tf.random_uniform(shape=args.ranks, dtype=tf.float32,\n                                                     seed=int(np.random.default_rng().integers(2 ** 31)))), name='core-tensor')\n")],
    'two runs of one program under the same seeds',
    'the core starts from a draw seeded by the entropy of the system, so results cannot be reproduced by seeding',
    H + '''
from tensorD.factorization.ntucker import NTUCKER_BCU
X = np.random.rand(3, 4, 2).astype(np.float32)
out = []
for i in range(2):
    graph(3)
    m = NTUCKER_BCU(env(X)); m.build_model(NTUCKER_BCU.NTUCKER_Args(ranks=[2, 2, 2], tol=1e-12))
    quiet(m.train, 2)
    out.append(m.full)
check(np.array_equal(*out), 'same seeds, same result')
done()
''')

bug('dtensor-eval-kept', 'C05',
    [(TYP, "        return self.T.eval(feed_dict, session)\n",
      "        if feed_dict is not None:\n            return self.T.eval(feed_dict, session)\n        if not hasattr(self, '_value'):\n            self._value = self.T.eval(session=session)\n        return self._value\n")],
    'a tensor object over a variable, evaluated before and after an assignment',
    'evaluation returns the value of the first evaluation for ever',
    H + '''
from tensorD.base.type import DTensor
graph()
v = tf.Variable(np.arange(6.).reshape(2, 3))
d = DTensor(v.read_value())
with tf.Session() as s:
    s.run(tf.global_variables_initializer())
    a = d.eval(session=s)
    s.run(v.assign(v + 1))
    b = d.eval(session=s)
check(np.array_equal(b, np.arange(6.).reshape(2, 3) + 1), 'eval after assign')
done()
''')

bug('ncp-lipschitz-floor', 'C10',
    [(NCP, "                L_update_op[mode] = L[mode].assign(tf.reduce_max(tf.svd(V, compute_uv=False)))\n",
      "                L_update_op[mode] = L[mode].assign(tf.maximum(tf.reduce_max(tf.svd(V, compute_uv=False)), 1.0))    # never divide by (almost) zero\n")],
    'data so small that the curvature of a factor update is below one',
    'the step length is capped at one, small data is fitted far too slowly',
    H + '''
from tensorD.factorization.ncp import NCP_BCU
graph()
X = (kruskal([np.random.rand(n, 2) for n in (3, 4, 3)]) * 1e-3).astype(np.float32)
m = NCP_BCU(env(X)); m.build_model(NCP_BCU.NCP_Args(rank=2, tol=1e-9))
quiet(m.train, 200)
check(relres(X, m.full) < 0.2, 'small data is fitted, residual %g' % relres(X, m.full))
done()
''')

bug('fold-places-as-text', 'C01',
    [(OPS, "sorted(enumerate(perm), key=lambda x: x[1])]", "sorted(enumerate(perm), key=lambda x: str(x[1]))]")],
    'tensors of order 11 and more',
    'mode numbers are compared as text, so folding puts the modes back in the wrong places from eleven modes on',
    H + '''
import tensorD.base.ops as ops
graph()
s = (2,) + (1,) * 8 + (2, 2)
X = np.arange(8.).reshape(s)
check(np.array_equal(ev(ops.fold(tf.constant(kolda(X, 0)), 0, s)), X), 'fold of order 11')
done()
''')

bug('mul-sorted-tuples', 'C03',
    [(OPS, "        A = t2mat(tensorA, a_axis, -1)\n        B = t2mat(tensorB, b_axis, -1)\n",
      "        if not isinstance(a_axis, list):\n            a_axis, b_axis = zip(*sorted(zip(a_axis, b_axis)))\n        if not isinstance(b_axis, list):\n            b_axis = sorted(b_axis)\n        A = t2mat(tensorA, a_axis, -1)\n        B = t2mat(tensorB, b_axis, -1)\n")],
    'axes given as tuples, the second in descending order, the dimensions equal',
    'the axes of the second tensor are sorted on their own, pairing the wrong modes',
    H + '''
import tensorD.base.ops as ops
graph()
A, C = np.random.rand(3, 3, 2), np.random.rand(4, 3, 3)
check(close(ev(ops.mul(tf.constant(A), tf.constant(C), (0, 1), (2, 1))), np.tensordot(A, C, ((0, 1), (2, 1))), 1e-9), 'mul with tuples')
done()
''')

bug('ttm-transposed-axis-sorted', 'C02',
    [(OPS, "            mat_op = ','.join([chr(tensor_start + i) + chr(mats_start + i) for i in axis])\n",
      "            mat_op = ','.join([chr(tensor_start + i) + chr(mats_start + i) for i in sorted(axis)])\n")],
    'transposed matrices together with a list of axes that is not ascending, the dimensions equal',
    'matrices are applied to the modes in ascending order instead of the listed ones',
    H + '''
import tensorD.base.ops as ops
graph()
X = np.random.rand(3, 3, 2)
M = [np.random.rand(3, 3) for _ in range(2)]
got = ev(ops.ttm(tf.constant(X), [tf.constant(m) for m in M], axis=[1, 0], transpose=True))
check(close(got, ttm(X, [M[1], M[0]], T=True), 1e-9), 'ttm transposed with axes')
done()
''')

bug('ktensor-common-weights-shape', 'C06',
    [(TYP, "            if self.lambdas.get_shape().ndims == 1:\n                self.lambdas = tf.expand_dims(self.lambdas, -1)\n",
      "            if self.lambdas.get_shape().ndims == 1:\n                # factors may be listed in any order, keep the strongest first\n                self.lambdas = tf.expand_dims(tf.sort(self.lambdas, direction='DESCENDING'), -1)\n")],
    'weights given as a vector that is not descending',
    'weights are sorted while the columns are not, so components get the weights of others',
    H + '''
from tensorD.base.type import KTensor
graph()
U = [np.random.rand(n, 2).astype(np.float32) for n in (2, 3, 2)]
lam = np.array([1., 5.], np.float32)
check(close(ev(KTensor(U, lam).extract()), kruskal(U, lam), 1e-5), 'weights')
done()
''')

bug('ncp-late-momentum-reset', 'C10',
    [(NCP, "            if obj < obj0:\n", "            if obj < obj0 and step % 64:    # now and then start afresh from the last point\n")],
    'a run of more than 64 steps',
    'every 64th step counts as one that did not lower the objective, so its progress is extrapolated from the wrong point',
    H + '''
from tensorD.factorization.ncp import NCP_BCU
hit = 0
for seed in range(40):
    graph(seed)
    X = np.random.rand(4, 5, 3).astype(np.float32)
    m = NCP_BCU(env(X)); m.build_model(NCP_BCU.NCP_Args(rank=2, tol=0))
    A = start()[:3]
    want = bcu(X, A, 70)
    if not all(w[0] for w in want):
        continue
    objs = [.5 * np.linalg.norm(X - w[3]) ** 2 for w in want]
    if min(a - b for a, b in zip(objs[:70], objs[1:])) < 1e-4 * objs[-1]:
        continue
    hit += 1
    h = quiet(m.train, 70)
    check(close(m.full, want[69][3], 1e-4), 'seed %d: reconstruction after 70 steps off by %g' % (seed, np.abs(m.full - want[69][3]).max()))
    if hit >= 3:
        break
check(hit, 'no run without rejected steps found')
done()
''')

bug('pitf-array-early-exit', 'C21',
    [(PTN, "            y = y + delt * e\n", "            y = y + delt * e\n            if abs(tmpe - erate) < 1e-5 and i > 100:\n                break\n")],
    'more than a hundred steps, the error rate no longer moving',
    'the recovery ends before the steps asked for and returns fewer records',
    H + '''
from tensorD.factorization.pitf_numpy import PITF_np
graph()
T = np.random.rand(3, 2, 4) + .5
m = PITF_np(env(T))
r = quiet(m.exact_recovery, PITF_np.PITF_np_Args(rank=1, delt=.5, tao=.01, sample_num=8, steps=400), T)
check(len(r[4]) == len(r[5]) == len(r[6]) == 400, 'records for %d of 400 steps' % len(r[4]))
done()
''')

bug('ntucker-late-stall-rule', 'C14',
    [(NTK, "            if nstall >= 3 or relerr2 < args.tol:\n", "            if nstall >= (3 if step <= 60 else 1) or relerr2 < args.tol:    # long runs are done at the first stall\n")],
    'a run of more than 60 steps whose objective stalls for one step at a time',
    'after sixty steps a single stalling step ends training',
    H + '''
from tensorD.factorization.ntucker import NTUCKER_BCU
hit = 0
for seed in range(40):
    graph(seed)
    X = np.random.rand(4, 5, 3).astype(np.float32)
    m = NTUCKER_BCU(env(X)); m.build_model(NTUCKER_BCU.NTUCKER_Args(ranks=[2, 2, 2], tol=0))
    n = np.linalg.norm(X)
    o = [.5 * (r[1] * n) ** 2 for r in quiet(m.train, 300)]
    r0, moves = o[0] + 1, []
    for x in o:
        moves.append(abs(x - r0) / (r0 + 1))
        r0 = min(r0, x)
    # a tolerance first undercut after step 65
    tol = min(moves[:65]) * .9
    late = [k + 1 for k, v in enumerate(moves) if v < tol * 1.1]
    if tol < 1e-5 or not late or late[0] > 250:
        continue
    hit += 1
    graph(seed)
    m = NTUCKER_BCU(env(X)); m.build_model(NTUCKER_BCU.NTUCKER_Args(ranks=[2, 2, 2], tol=tol))
    h = quiet(m.train, 300)
    check(len(h) >= late[0] + 2 or len(h) < 66, 'seed %d: stopped after %d steps, the first stall was step %d' % (seed, len(h), late[0]))
    if hit >= 3:
        break
check(hit, 'no late stall found')
done()
''')
