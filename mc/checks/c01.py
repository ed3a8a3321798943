"""C01: matricization, folding, vectorization are the documented index maps."""
import itertools

from mc import boot, ref
import numpy as np
from mc.boot import tf1
from tensorD.base import ops
from tensorD.base.type import DTensor

DT = [np.float32, np.int32, np.float64, np.int64]


# entries that survive moving, but not a detour through another type or through arithmetic
_F = [0.0, -0.0, np.nan, np.inf, -np.inf, 1 / 3., -2 / 3., 1e-30, 1e30]
POOLS = {
    'float16': np.array([0.0, -0.0, np.nan, np.inf, -np.inf, 1 / 3., 6e-8, 65504], np.float16),
    'float32': np.array(_F + [1e-45, 3.4028235e38, 16777217.0, 1 + 2 ** -23.], np.float32),
    'float64': np.array(_F + [5e-324, 1.7976931348623157e308, 2. ** 53 + 1, 1 + 2 ** -52., 1e300], np.float64),
    'int8': np.arange(-128, 128, 5).astype(np.int8), 'uint8': np.arange(255, 0, -7).astype(np.uint8), 'int16': np.arange(-32768, 32768, 2731).astype(np.int16),
    'int32': np.array([0, -1, 2 ** 31 - 1, -2 ** 31, 2 ** 24 + 1, 123456789], np.int32),
    'int64': np.array([0, -1, 2 ** 63 - 1, -2 ** 63, 2 ** 53 + 1, 2 ** 31, 2 ** 24 + 1], np.int64),
    'bool': np.array([True, False, False]),
    'complex64': np.array([1 + 2j, -1j, 1 / 3. + 0j, complex(0, -0.0), complex(np.inf, 1)], np.complex64),
    'complex128': np.array([1 + 2j, -1j, 1 / 3. + 1e-300j, complex(-0.0, 0), 2. ** 53 + 1j], np.complex128),
}


def shapes(tier):
    out = []
    for n in (1, 2, 3):
        out += list(itertools.product((1, 2, 3), repeat=n))
    out += list(itertools.product((1, 2, 3), repeat=4))
    out += list(itertools.product((1, 2), repeat=5)) if tier == 'quick' else list(itertools.product((1, 2, 3), repeat=5))
    out += [(4, 5, 6), (7, 2, 3), (3, 4, 2), (5, 1, 4, 2), (2, 3, 4, 5), (4, 3, 2, 5), (3, 2, 2, 1, 4), (2, 3, 1, 2, 2, 3),
            (2, 2, 3, 1, 2, 2, 1), (11, 12, 13), (16, 17), (40,), (1, 9, 1, 8), (2, 1, 2, 1, 3, 1, 2, 2),
            (3, 2, 4, 2, 3, 2), (12, 3, 2), (2, 25, 3), (3, 1, 31), (300, 2), (2, 300), (2,) * 9, (1, 2) * 6, (2,) * 14]
    return out


def cases(tier):
    for i, s in enumerate(shapes(tier)):
        yield dict(shape=list(s), i=i, tier=tier)
    for i, s in enumerate([(5,), (3, 4), (2, 3, 2), (1, 3, 2), (2, 1, 3, 2), (4, 5, 6)]):
        for kind in sorted(POOLS):
            yield dict(shape=list(s), i=i, tier=tier, pool=kind)


def splits(n):
    for perm in itertools.permutations(range(n)):
        for k in range(1, n):
            yield list(perm[:k]), list(perm[k:])


def groups(n):
    """For orders above five: every set of row axes, ascending and descending, with the columns ascending, descending, rotated."""
    for k in range(1, n):
        for rows in itertools.combinations(range(n), k):
            rest = [m for m in range(n) if m not in rows]
            for r in {rows, rows[::-1]}:
                yield list(r), rest
                yield list(r), rest[::-1]
                yield list(r), rest[1:] + rest[:1]


def forms(axes):
    out = [list(axes), tuple(axes)]
    if len(axes) == 1:
        out.append(axes[0])
    return out


def run(case, ctx):
    shape, i = tuple(case['shape']), case['i']
    n = len(shape)
    size = int(np.prod(shape))
    dts = DT if n <= 2 else [DT[i % 4]]
    pool = None
    if case.get('pool'):
        pool = POOLS[case['pool']]
        pool = np.resize(pool, size)
        dts = [pool.dtype.type]
    for dt in dts:
        X = (np.arange(size).reshape(shape) * 3 - 7).astype(dt) if pool is None else pool.reshape(shape)
        tf1.reset_default_graph()
        checks = []          # (label, tensor, expected)

        def add(label, got, want):
            t = got.T if isinstance(got, DTensor) else got
            checks.append((label, t, want))

        T = tf1.constant(X)
        for mode in range(n):
            U = ref.unfold(X, mode)
            u = ops.unfold(T, mode)
            add('unfold %d' % mode, u, U)
            add('fold(unfold) %d' % mode, ops.fold(u, mode, shape), X)
            add('fold list shape %d' % mode, ops.fold(tf1.constant(U), mode, list(shape)), X)
            d = DTensor(X) if (i + mode) % 2 else DTensor(T)
            add('DTensor.unfold %d' % mode, d.unfold(mode), U)
            add('DTensor.fold %d' % mode, DTensor.fold(tf1.constant(U), mode, shape), X)
            if n > 1 and n <= 5:
                rest = [m for m in range(n - 1, -1, -1) if m != mode]
                add('t2mat kolda %d' % mode, ops.t2mat(T, mode, rest), U)
        add('default unfold', ops.unfold(T), ref.unfold(X, 0))
        add('default DTensor.unfold', DTensor(X).unfold(), ref.unfold(X, 0))
        V = ref.vectorize(X)
        v = ops.vectorize(T)
        add('vectorize', v, V)
        add('DTensor.vectorize', DTensor(X).vectorize(), V)
        add('vec_to_tensor', ops.vec_to_tensor(v, shape), X)
        add('vec_to_tensor list', ops.vec_to_tensor(tf1.constant(V), list(shape)), X)
        if 2 <= n:
            every = n <= 3
            dt2 = DTensor(T)
            full = n <= 4 or case['tier'] != 'quick'
            for j, (r, c) in enumerate(splits(n) if n <= 5 else groups(n)):
                if n <= 5 and not full and (j + i) % 3 or n > 6 and (j + i) % (97 if n < 10 else 9973):
                    continue
                M = ref.t2mat(X, r, c)
                fs = list(itertools.product(forms(r), forms(c)))
                if sorted(c) == c:
                    fs += [(f, -1) for f in forms(r)]
                if not every:
                    fs = [fs[(j + i) % len(fs)], fs[-1]]
                for rf, cf in fs:
                    add('t2mat %r %r' % (rf, cf), ops.t2mat(T, rf, cf), M)
                rf, cf = fs[j % len(fs)]
                add('DTensor.t2mat %r %r' % (rf, cf), dt2.t2mat(rf, cf), M)
            add('operand after all', dt2, X)
        for label, t, want in checks:
            st = t.get_shape()
            ctx.check(st.is_compatible_with(want.shape), '%s of shape %s: static shape %s, expected %s' % (label, shape, st, want.shape))
            ctx.check(t.dtype.base_dtype.as_numpy_dtype == dt, '%s: dtype %s became %s' % (label, dt.__name__, t.dtype))
        got = boot.evaluate([t for _, t, _ in checks])
        for (label, _, want), g in zip(checks, got):
            if pool is None:
                ctx.equal(g, want, '%s of arange%s %s' % (label, shape, dt.__name__), exact=True)
            else:
                ctx.check(g.dtype == want.dtype and g.shape == want.shape and g.tobytes() == np.ascontiguousarray(want).tobytes(),
                          lambda: '%s of %s %s: got %s, expected %s' % (label, shape, dt.__name__, g.tolist(), want.tolist()))
            if size > 1 and n >= 2:
                ctx.distinct('distinct_nontrivial', (label, shape))
        ctx.count('evaluations', len(checks))
    ctx.sample(dict(shape=shape, comparisons=len(checks), first=checks[0][0]))
