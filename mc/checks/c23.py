"""C23: representation of the data, number and time of the provider's answers."""
import itertools

from mc import boot, train, traj
import numpy as np
from mc.boot import tf1

KINDS = ['float32', 'float64', 'F32', 'F64', 'view', 'strided', 'negative', 'transposed', 'readonly', 'readonlyF', 'int64', 'int32', 'float16', 'fortran-slice']
SHAPES = [((3, 4, 2), {'K': 2, 'T': [2, 3, 2]}), ((4, 3), {'K': 2, 'T': [2, 2]}), ((2, 3, 2, 2), {'K': 3, 'T': [2, 2, 1, 2]}),
          ((3, 3, 3), {'K': 2, 'T': [3, 2, 2]})]


def represent(X, how):
    """The values of X (small integers over 8) in another representation."""
    X = np.array(X, dtype=np.float64)
    if how in ('float32', 'float64', 'float16', 'int64', 'int32'):
        return X.astype(how)
    if how == 'F32':
        return np.asfortranarray(X.astype(np.float32))
    if how == 'F64':
        return np.asfortranarray(X)
    if how == 'view':
        b = np.full([s + 2 for s in X.shape], 77.0, np.float32)
        v = b[tuple(slice(1, -1) for _ in X.shape)]
        v[...] = X
        return v
    if how == 'strided':
        b = np.full([2 * s for s in X.shape], 77.0)
        v = b[tuple(slice(None, None, 2) for _ in X.shape)]
        v[...] = X
        return v
    if how == 'negative':
        r = tuple(slice(None, None, -1) for _ in X.shape)
        return np.ascontiguousarray(X[r].astype(np.float32))[r]
    if how == 'transposed':
        return np.ascontiguousarray(X.T.astype(np.float32)).T
    if how == 'fortran-slice':
        b = np.asfortranarray(np.full((X.shape[0] + 1,) + X.shape[1:], 77.0, np.float32))
        b[1:] = X
        return b[1:]
    Y = np.asfortranarray(X) if how.endswith('F') else X.astype(np.float32)
    Y.setflags(write=False)
    return Y


class Fresh(object):
    """A provider with a new object for every question."""

    def __init__(self, X, hows):
        self.X, self.hows, self.asked = X, itertools.cycle(hows), 0

    def full_tensor(self):
        self.asked += 1
        return represent(self.X, next(self.hows))


def cases(tier):
    q = tier == 'quick'
    for si, kind in itertools.product(range(len(SHAPES)), train.KINDS):
        for values in ('ints', 'eighths', 'signed'):
            if kind.startswith('N') and values == 'signed':
                continue
            for seed in (1,) if q else (1, 2, 3):
                yield dict(group='repr', shape=si, kind=kind, values=values, seed=seed)
        yield dict(group='provider', shape=si, kind=kind)
        yield dict(group='after', shape=si, kind=kind)
    for a, b in itertools.product(train.KINDS, repeat=2):
        yield dict(group='two', kinds=[a, b])
    for how in KINDS:
        yield dict(group='ops', how=how)
    yield dict(group='pitf')


def values(shape, kind, seed=1):
    g = np.random.RandomState(int(np.prod(shape)) + 17 * seed)
    X = g.randint(1, 9, size=shape).astype(float)
    return X if kind == 'ints' else X / 8 if kind == 'eighths' else (X - 4.5) / 4


def go(kind, prov, rank, steps=4, tol=0.0, after=None):
    with train.world(5):
        m = train.build(kind, prov, rank, tol=tol)
        if after:
            after()
        s = train.Snapshots()
        with train.hooked(s):
            if kind == 'HOSVD':
                h = m.train()
                return train.result(m, h), s.states
            return train.train(m, steps), s.states


def agree(ctx, kind, X, rank, want, got, states, label):
    ctx.count('evaluations')
    d = train.same(want, got, 1e-5)
    if d is None:
        return
    if kind in ('HOSVD', 'HOOI'):
        if 'factors' in d and train.close(want['full'], got['full'], 1e-4) is None:
            ctx.note('factors not unique')
            return
    else:
        # another starting point is no violation: judge the run by itself
        v, text = traj.verify(kind, np.asarray(X, float), rank, 4, 0.0, states, got)
        if v != 'differ':
            ctx.note('judged against the reference machine')
            return
        d = text
    ctx.fail('%s: %s' % (label, d))


def run(case, ctx):
    grp = case['group']
    if grp == 'ops':
        return operations(case['how'], ctx)
    if grp == 'pitf':
        return pitf(ctx)
    if grp == 'two':
        return two(case['kinds'], ctx)
    shape, ranks = SHAPES[case['shape']]
    kind = case['kind']
    rank = ranks['K' if kind in ('CP', 'NCP') else 'T']
    if grp == 'repr':
        X = values(shape, case['values'], case['seed'])
        want, _ = go(kind, represent(X, 'float32'), rank)
        for how in KINDS:
            if how.startswith('int') and case['values'] != 'ints':
                continue
            A = represent(X, how)
            assert np.array_equal(A.astype(float), X), how
            got, st = go(kind, A, rank)
            agree(ctx, kind, X, rank, want, got, st, '%s on %s data %s as %s' % (kind, case['values'], shape, how))
            ctx.distinct('distinct_nontrivial', (kind, shape, case['values'], case['seed'], how))
    elif grp == 'provider':
        X = values(shape, 'eighths')
        want, _ = go(kind, represent(X, 'float32'), rank)
        for hows in (['float32'], ['float64', 'F32'], ['readonly', 'view', 'F64'], ['strided'], ['transposed', 'float32', 'negative', 'F64']):
            for ask in (0, 1, 5):
                p = Fresh(X, hows)
                for _ in range(ask):
                    p.full_tensor()
                got, st = go(kind, p, rank, after=lambda: [p.full_tensor() for _ in range(ask)])
                agree(ctx, kind, X, rank, want, got, st, '%s on %s, provider answering %s in turn' % (kind, shape, hows))
                ctx.distinct('distinct_nontrivial', (kind, shape, tuple(hows), ask))
    else:
        X = values(shape, 'eighths')
        want, _ = go(kind, represent(X, 'float32'), rank)
        others = [('other values', X[::-1].copy() + 1), ('another shape', np.ones([s + 1 for s in shape])), ('another order', np.ones(shape + (2,))), ('None', None)]
        for name, Y in others:
            p = train.Prov(represent(X, 'float32'))
            got, st = go(kind, p, rank, after=lambda: setattr(p, 'X', Y))
            agree(ctx, kind, X, rank, want, got, st, '%s on %s, provider with %s after the build' % (kind, shape, name))
            ctx.distinct('distinct_nontrivial', (kind, shape, name))
    ctx.sample(case)


def two(kinds, ctx):
    """One provider whose data is replaced between the builds of two models."""
    shape, ranks = SHAPES[0]
    X, Y = values(shape, 'eighths', 1), values((4, 2, 3), 'eighths', 2)
    pick = lambda k, s: ranks['K'] if k in ('CP', 'NCP') else [2, 2, 2]
    want = []
    with train.world(5):
        ms = [train.build(k, represent(Z, 'float32'), pick(k, Z), tol=0.0) for k, Z in zip(kinds, (X, Y))]
        for k, m in zip(kinds, ms):
            h = m.train() if k == 'HOSVD' else m.train(4)
            want.append(train.result(m, h))
    with train.world(5):
        p = train.Prov(represent(X, 'float32'))
        env = train.environment(p)
        ms = []
        for k, Z in zip(kinds, (X, Y)):
            p.X = represent(Z, 'float32')
            m = train.classes(k)[0](env)
            m.build_model(train.args_of(k, pick(k, Z), 0.0))
            ms.append(m)
        p.X = None
        for i, (k, m, Z) in enumerate(zip(kinds, ms, (X, Y))):
            s = train.Snapshots()
            with train.hooked(s):
                h = m.train() if k == 'HOSVD' else m.train(4)
            got = train.result(m, h)
            agree(ctx, k, Z, pick(k, Z), want[i], got, s.states, 'model %d of %s sharing a provider whose data changed between the builds' % (i, kinds))
    ctx.distinct('distinct_nontrivial', tuple(kinds))


def operations(how, ctx):
    from tensorD.base import pitf_ops_numpy as pn
    from tensorD.base.type import DTensor, KTensor, TTensor
    from tensorD import loss
    for shape in ((3, 4, 2), (2, 3), (2, 2, 3, 2)):
        X = values(shape, 'ints')

        def table(R):
            g = np.random.RandomState(3)
            fs = [g.randint(1, 9, size=(s, 2)).astype(float) for s in shape]
            core = g.randint(1, 9, size=(2,) * len(shape)).astype(float)
            with train.world(1):
                d = DTensor(R(X))
                out = [d.unfold(n).T for n in range(len(shape))]
                out += [d.vectorize(), d.t2mat([1], -1).T, d.T]
                if R(fs[0]).dtype.kind == 'f':
                    out += [KTensor([R(f) for f in fs]).extract(), TTensor(R(core), [R(f) for f in fs]).extract()]
                    if R(X).dtype.itemsize >= 4:
                        out += [loss.l2(tf1.constant(R(X)), tf1.constant(R(X + 1))), loss.rmse(tf1.constant(R(X)), tf1.constant(R(X + 2))),
                                loss.rmse_ignore_zero(tf1.constant(R(X)), tf1.constant(R(X * 2)))]
                return [np.asarray(v, float) for v in boot.evaluate([o.T if isinstance(o, DTensor) else o for o in out])]
        want = table(lambda a: np.array(a, np.float64))
        try:
            got = table(lambda a: represent(a, how))
        except Exception as e:
            if how == 'float16':
                ctx.note('%s not accepted by the operations (%s)' % (how, e.__class__.__name__))
                continue
            raise
        if len(got) != len(want):
            want = want[:len(shape) + 3] + (want[len(shape) + 3:] if len(got) > len(shape) + 3 else [])
            want = want[:len(got)]
        for i, (a, b) in enumerate(zip(got, want)):
            ctx.equal(a, b, 'operation %d on %s as %s' % (i, shape, how), 1e-6 if how != 'float16' else 1e-2, 1e-6)
            ctx.count('evaluations')
        ctx.distinct('distinct_nontrivial', (how, shape))
    if how.startswith('int') or how == 'float16':
        return
    shape = (3, 4, 2)
    T, M = values(shape, 'signed'), values((3, 4), 'signed')
    spl = [np.array([0, 2, 1, 2]), np.array([3, 0, 1, 2]), np.array([1, 0, 1, 0])]

    def arr(R):
        return [pn.centralization(R(M)), pn.shrink(R(M), 0.2), pn.shrink(R(M), 0.2, 'complicated'), pn.Pomega_mat(spl, R(M), shape, 4, 0),
                pn.Pomega_tensor(spl, R(T), shape, 4), pn.cone_projection_operator(R(M[0]), 0.3)[0], pn.adjoint_operator(spl, R(M[0]), shape, 4, 1)]
    for i, (a, b) in enumerate(zip(arr(lambda a: represent(a, how)), arr(lambda a: np.array(a)))):
        ctx.equal(a, b, 'array operation %d as %s' % (i, how), 1e-5, 1e-6)
        ctx.count('evaluations')


def pitf(ctx):
    from mc.checks import c21
    for shape in ((2, 3, 2), (3, 2, 4)):
        T = c21.data(shape)
        for n in (3, 6):
            np.random.seed(3)
            want = c21.array_run(T, 0.9, 0.1, n, 4)
            for how in KINDS:
                if how.startswith('int') or how == 'float16':
                    continue
                np.random.seed(3)
                got = c21.array_run(represent(T, how), 0.9, 0.1, n, 4)
                for i in (0, 1, 2, 3, 5, 6):
                    ctx.equal(got[i], want[i], 'recovery of shape %s as %s, output %d' % (shape, how, i), 1e-4, 1e-4)
                ctx.count('evaluations')
                ctx.distinct('distinct_nontrivial', ('pitf', shape, n, how))
