"""C18: nothing passed in is changed, nothing handed out changes later."""
import copy
import itertools

from mc import boot, train
import numpy as np
from mc.boot import tf1

SHAPE = (2, 3, 4)


def image(x):
    """A value image of an argument: contents, structure and identity of leaves."""
    if isinstance(x, np.ndarray):
        return ('a', id(x), x.shape, x.dtype.str, x.strides, x.flags.writeable, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (x.__class__.__name__, id(x), tuple(image(y) for y in x))
    if isinstance(x, dict):
        return ('d', id(x), tuple((k, image(v)) for k, v in sorted(x.items())))
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    if isinstance(x, tf1.Tensor):
        return ('t', id(x), x.name)
    if x.__class__.__name__.endswith('_Args'):
        return ('o', id(x), tuple((k, image(v)) for k, v in sorted(vars(x).items())))
    return ('?', id(x))


def mats(r=2, shape=SHAPE, np_=False):
    out = [(np.arange(s * r).reshape(s, r) % 5 + 1).astype(np.float32) for s in shape]
    return out if np_ else [tf1.constant(m) for m in out]


def X():
    return tf1.constant((np.arange(24).reshape(SHAPE) % 7 + 1).astype(np.float32))


def op_cases():
    """(label, function building (callable, args, kwargs))."""
    from tensorD.base import ops
    from tensorD.base.type import DTensor, KTensor, TTensor
    from tensorD import loss
    out = []

    def add(label, fn, *a, **k):
        out.append((label, fn, a, k))
    axes = list(range(3))
    for n in range(0, 4):
        for r in itertools.permutations(axes, n):
            rest = [a for a in axes if a not in r]
            for c in itertools.permutations(rest):
                for form in (list, tuple):
                    for rr, cc in ((form(r), form(c)), (form(r), -1), (r[0], form(c)) if n == 1 else (form(r), form(c)),
                                   (form(r), c[0]) if len(c) == 1 else (form(r), form(c))):
                        if (cc == -1 or cc) and (rr == 0 or rr):
                            add('ops.t2mat', lambda r_, c_: ops.t2mat(X(), r_, c_), rr, cc)
                            add('DTensor.t2mat', lambda r_, c_: DTensor(X()).t2mat(r_, c_).T, rr, cc)
    for n in (1, 2, 3):
        for a in itertools.permutations(axes, n):
            for b in itertools.permutations(axes, n):
                for form in (list, tuple):
                    sb = [0, 0, 0]
                    for i, j in zip(a, b):
                        sb[j] = SHAPE[i]
                    sb = [s or 2 for s in sb]
                    if n == 3 and form is tuple:
                        continue
                    add('ops.mul', lambda a_, b_, s=tuple(sb): ops.mul(X(), tf1.ones(s), a_, b_), form(a), form(b))
    for ax in [p for n in (1, 2, 3) for p in itertools.permutations(axes, n)]:
        for form in (list, tuple):
            ms = [mats(2)[a] for a in ax]
            add('ops.ttm axis', lambda m, a_: ops.ttm(X(), m, axis=a_, transpose=True), ms, form(ax))
    for sk in [p for n in (1, 2) for p in itertools.combinations(axes, n)]:
        for form in (list, tuple):
            add('ops.ttm skip', lambda m, s: ops.ttm(X(), m, transpose=True, skip_matrices_index=s), mats(2), form(sk))
            for name in ('kron', 'khatri'):
                for rev in (False, True):
                    add('ops.' + name, lambda m, s, f=getattr(ops, name), v=rev: f(m, s, v), mats(2), form(sk))
            add('ops.hadamard', lambda m, s: ops.hadamard(m, s), mats(2, (3, 3, 3)), form(sk))
            add('ops.max_single_value_mul', lambda m, s: ops.max_single_value_mul(m, s), mats(2), form(sk))
    for name in ('kron', 'khatri'):
        for sk in (None, 0, 1, 2):
            for rev in (False, True):
                add('ops.' + name, lambda m, f=getattr(ops, name), s=sk, v=rev: f(m, s, v), mats(2))
    for rank_form in ('np', 'tf'):
        fs = mats(2, np_=rank_form == 'np')
        for lam in (None, np.array([2.0, 3.0], np.float32), np.array([[2.0], [3.0]])):
            add('KTensor', lambda f, l: KTensor(f, l).extract(), fs, lam)
        core = np.arange(8, dtype=np.float32).reshape(2, 2, 2) if rank_form == 'np' else tf1.ones((2, 2, 2))
        add('TTensor', lambda g, f: TTensor(g, f).extract(), core, fs)
    A = (np.arange(24.0).reshape(SHAPE) % 5).astype(np.float32)
    add('DTensor', lambda a: DTensor(a).unfold(1).T, A)
    for f in ('l2', 'rmse', 'rmse_ignore_zero'):
        add('loss.' + f, lambda a, b, g=getattr(loss, f): g(tf1.constant(a), tf1.constant(b)), A, A[::-1].copy())
    add('ops.fold', lambda s: ops.fold(ops.unfold(X(), 1), 1, s), list(SHAPE))
    add('ops.vec_to_tensor', lambda s: ops.vec_to_tensor(ops.vectorize(X()), s), list(SHAPE))
    add('xcb', lambda a, b, c: ops.xcb(tf1.constant(a), tf1.constant(c), tf1.constant(b)), A, mats(2, np_=True)[1], mats(2, np_=True)[2])
    return out


def pitf_cases():
    from tensorD.base import pitf_ops, pitf_ops_numpy as pn
    out = []

    def add(label, fn, *a):
        out.append((label, fn, a, {}))
    g = np.random.RandomState(1)
    spl = [np.array([0, 1, 1, 0, 1]), np.array([0, 2, 1, 1, 2]), np.array([3, 0, 1, 2, 2])]
    pairs = [(0, 1), (1, 2), (2, 0)]
    T = g.rand(*SHAPE)
    for d, (r, c) in enumerate(pairs):
        M = g.rand(SHAPE[r], SHAPE[c])
        v = g.rand(5)
        add('np.Pomega_mat', lambda s, m, sh, d=d: pn.Pomega_mat(s, m, sh, 5, d), list(spl), M, list(SHAPE))
        add('np.adjoint', lambda s, v_, sh, d=d: pn.adjoint_operator(s, v_, sh, 5, d), list(spl), v, list(SHAPE))
        for mode in ('normal', 'complicated'):
            add('np.shrink', lambda m, o=mode: pn.shrink(m, 0.3, o), M)
            add('tf.shrink', lambda m, o=mode: pitf_ops.shrink(tf1.constant(m), 0.3, o), M.astype(np.float32))
        add('np.SVT', lambda m: pn.SVT(m, 0.3), M)
        add('np.centralization', lambda m: pn.centralization(m), M)
        add('tf.Pomega_mat', lambda s, m, sh, d=d: pitf_ops.Pomega_mat(s, tf1.constant(m), sh, 5, d), list(spl), M.astype(np.float32), list(SHAPE))
        add('tf.adjoint', lambda s, v_, sh, d=d: pitf_ops.adjoint_operator(s, tf1.constant(v_), sh, 5, d), list(spl), v.astype(np.float32), list(SHAPE))
    add('np.Pomega_tensor', lambda s, t, sh: pn.Pomega_tensor(s, t, sh, 5), list(spl), T, list(SHAPE))
    add('np.Pomega_Pair', lambda s, x, y, z, sh: pn.Pomega_Pair(s, x, y, z, sh, 5), list(spl), g.rand(2, 3), g.rand(3, 4), g.rand(4, 2), list(SHAPE))
    for t in (-5.0, 0.5, 5.0):
        add('np.cone', lambda x, t=t: pn.cone_projection_operator(x, t), g.rand(4))
    add('np.sample3D_rule', lambda sh: pn.sample3D_rule(sh, 6), list(SHAPE))
    add('np.subspace', lambda sh: pn.subspace(sh, 2, 'A'), list(SHAPE))
    add('np.sample_rule4mat', lambda sh: pn.sample_rule4mat(sh, 1, 2, 2, 5), list(SHAPE))
    return out


def gen_cases():
    from tensorD.demo import DataGenerator as d
    return [('synthetic_data_cp', lambda s: d.synthetic_data_cp(s, 2, 0.1), ([2, 3, 2],), {}),
            ('synthetic_data_tucker', lambda s, r: d.synthetic_data_tucker(s, r, 0.1), ([2, 3, 2], [1, 2, 2]), {})]


def cases(tier):
    n = dict(ops=24, pitf=2, gen=1)
    for group in n:
        for i in range(n[group]):
            yield dict(group=group, part=i, of=n[group])
    for kind in train.KINDS:
        for dtype in ('float32', 'float64', 'int64'):
            for order in 'CF':
                for vi, verbose in ((-1, False), (1, False), (-1, True)) if dtype == 'float32' or tier != 'quick' else ((-1, False),):
                    yield dict(group='train', kind=kind, dtype=dtype, order=order, vi=vi, verbose=verbose)
    for kind in train.TUCKER:
        # more directions asked for than a mode has, where the model admits it
        for ranks in ([4, 4, 4], [2, 5, 3], [3, 1, 1]):
            if kind != 'HOOI':
                yield dict(group='train', kind=kind, dtype='float32', order='C', vi=-1, verbose=False, ranks=ranks)
    for kind in ('CP', 'NCP'):
        yield dict(group='train', kind=kind, dtype='float32', order='C', vi=-1, verbose=False, ranks=5)
    yield dict(group='reader')
    yield dict(group='pitfmodel')


def run(case, ctx):
    grp = case['group']
    if grp == 'train':
        return trained(case, ctx)
    if grp == 'reader':
        return reader(ctx)
    if grp == 'pitfmodel':
        return pitfmodel(ctx)
    with train.world(1):
        table = dict(ops=op_cases, pitf=pitf_cases, gen=gen_cases)[grp]()
        evals = []
        for i, (label, fn, a, k) in enumerate(table):
            if i % case['of'] != case['part']:
                continue
            before = image(a)
            r1 = fn(*a)
            r2 = fn(*a)                         # same argument objects again
            after = image(a)
            ctx.check(before == after, lambda: '%s changed its arguments: %r (now %r)' % (label, [b for b in a if not isinstance(b, np.ndarray)], a))
            ctx.count('evaluations')
            ctx.distinct('distinct_nontrivial', (label, repr([x for x in a if not isinstance(x, np.ndarray)])[:200], i))
            if isinstance(r1, tf1.Tensor):
                evals.append((label, a, before, r1, r2))
            ctx.sample(dict(operation=label, arguments=repr(a)[:200]))
        if evals:
            v = boot.evaluate([[e[3], e[4]] for e in evals])
            for (label, a, before, _, _), (x, y) in zip(evals, v):
                ctx.check(x.shape == y.shape and np.array_equal(x, y), lambda: '%s: a second call with the same arguments gives %s, the first gave %s'
                          % (label, y.tolist(), x.tolist()))
                ctx.check(image(a) == before, '%s changed its arguments during evaluation' % label)


def trained(case, ctx):
    kind = case['kind']
    A = np.asarray(np.round(train.tensor(SHAPE, 'generic', 3) * 9), dtype=case['dtype'], order=case['order'])
    rank = {'CP': 2, 'NCP': 2}.get(kind) or [2, 2, 2]
    rank = case.get('ranks', rank)
    p = train.Prov(A)
    ranks = list(rank) if isinstance(rank, list) else rank
    with train.world(1):
        before = image(A)
        env = train.environment(p)
        cls, acls = train.classes(kind)
        args = acls(ranks) if kind == 'HOSVD' else acls(ranks, validation_internal=case['vi'], verbose=case['verbose'], tol=0.0)
        ibefore = (image(args), image(ranks))
        m = cls(env)
        m.build_model(args)

        def unchanged(when):
            ctx.check(image(A) == before, '%s changed the data of the provider (%s)' % (kind, when))
            ctx.check(p.X is A, '%s replaced the data of the provider (%s)' % (kind, when))
            ctx.check((image(args), image(ranks)) == ibefore, '%s changed its arguments (%s): %s' % (kind, when, vars(args)))
        unchanged('build')
        given = []
        for steps in (4, 1, 3, 4):
            h = m.train() if kind == 'HOSVD' else m.train(steps)
            unchanged('train')
            m.predict(0, 1, 2)
            unchanged('predict')
            now = dict(hist=h, factors=m.factors, full=m.full, core=getattr(m, 'core', None), lambdas=getattr(m, 'lambdas', None))
            for old, frozen, n in given:
                for key in old:
                    ctx.check(freeze(old[key]) == frozen[key], lambda: '%s: %s handed out by training %d changed when training again'
                              % (kind, key, n))
            given.append((now, {k: freeze(v) for k, v in now.items()}, len(given)))
            ctx.count('evaluations')
        ctx.distinct('distinct_nontrivial', repr(sorted(case.items())))


def freeze(v):
    if v is None:
        return None
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    v = np.asarray(v)
    return (v.shape, v.tobytes())


def reader(ctx):
    from tensorD.dataproc.reader import TensorReader
    with open('r.csv', 'w') as f:
        f.write('0,1,2.5\n1,0,3\n')
    with train.world(1):
        for shape in ([3, 4], (3, 4), [2, 2]):
            before = image(shape)
            r = TensorReader('r.csv')
            r.read(shape)
            a, sp = r.full_data, r.sparse_data
            ctx.check(image(shape) == before, 'read changed its shape argument to %s' % (shape,))
            want = boot.evaluate(a)
            with open('r.csv', 'w') as f:
                f.write('1,1,7\n')
            r.read([5, 5])
            ctx.check(np.array_equal(boot.evaluate(a), want), 'tensor handed out by an earlier read changed')
            with open('r.csv', 'w') as f:
                f.write('0,1,2.5\n1,0,3\n')
            ctx.check(open('r.csv').read() == '0,1,2.5\n1,0,3\n', 'file changed')
            ctx.count('evaluations')
            ctx.distinct('distinct_nontrivial', ('reader', repr(shape)))


def pitfmodel(ctx):
    from tensorD.factorization.pitf_numpy import PITF_np
    for dtype in (float, np.float32):
        for steps in (1, 3):
            T = np.random.RandomState(2).rand(3, 4, 2).astype(dtype)
            before = image(T)
            with train.world(1):
                m = PITF_np(train.environment(T))
                args = PITF_np.PITF_np_Args(rank=2, delt=0.9, tao=0.1, sample_num=6, steps=steps)
                ib = image(args)
                m.exact_recovery(args, T)
                ctx.check(image(T) == before, 'exact_recovery changed the tensor')
                ctx.check(image(args) == ib, 'exact_recovery changed its arguments')
            ctx.count('evaluations')
            ctx.distinct('distinct_nontrivial', ('pitf', str(dtype), steps))
