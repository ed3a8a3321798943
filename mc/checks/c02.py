"""C02: n-mode products."""
import itertools

from mc import boot, ref
import numpy as np
from mc.boot import tf1
from tensorD.base import ops

DT = [np.float32, np.float64, np.int32]


def shapes(tier):
    out = []
    for n in (1, 2, 3):
        out += list(itertools.product((1, 2, 3), repeat=n))
    out += list(itertools.product((1, 2), repeat=4)) + [(2, 3, 4, 5), (3, 3, 3, 3), (5, 2, 2, 3), (2, 1, 3, 2)]
    out += [(2, 4, 3), (4, 4, 2), (4, 5, 6), (2, 2, 2, 2, 2), (2, 3, 1, 2, 4)]
    out += [(12, 3, 2), (2, 11, 3), (3, 2, 13), (7, 9), (1, 20), (2, 1, 3, 2, 1, 2), (2,) * 6, (2, 1, 2, 1, 2, 1, 2, 2), (2,) * 13, (2,) * 15]
    if tier != 'quick':
        out += list(itertools.product((1, 2, 3), repeat=4)) + list(itertools.product((1, 2), repeat=5)) + [(2, 1, 2, 2, 1, 3)]
    return out


def cases(tier):
    for i, s in enumerate(shapes(tier)):
        for square in (False, True):
            yield dict(shape=list(s), square=square, i=i)
    # the digits of float64 and of large integers
    for i, s in enumerate([(4,), (3, 4), (2, 3, 2), (3, 3, 3), (2, 1, 3, 2), (4, 5, 6)]):
        for square in (False, True):
            for values in ('fractions', 'int64', 'scales'):
                yield dict(shape=list(s), square=square, i=i, values=values)


def data(k, shape):
    size = int(np.prod(shape))
    return np.random.RandomState(100 * k + size).randint(-3, 4, size=shape)


def data_of(kind):
    """float64 numbers that single precision cannot hold, integers beyond 2^24, float32 of very different size"""
    def f(k, shape):
        size = int(np.prod(shape))
        r = np.random.RandomState(100 * k + size)
        if kind == 'fractions':
            return r.randint(1, 97, size=shape) / 97.0
        if kind == 'int64':
            return r.randint(-2 ** 12, 2 ** 12, size=shape)
        return r.randint(1, 9, size=shape) * 10.0 ** r.randint(-3, 4)
    return f


def run(case, ctx):
    shape, i = tuple(case['shape']), case['i']
    n = len(shape)
    dt = DT[i % 3]
    if n > 8:
        dt = np.float64                       # products of many matrices leave the exact range of float32
    data, exact, rtol = globals()['data'], True, 0
    if case.get('values'):
        data = data_of(case['values'])
        dt, exact, rtol = dict(fractions=(np.float64, False, 1e-13), int64=(np.int64, True, 0), scales=(np.float32, False, 1e-5))[case['values']]
    X = data(1, shape).astype(dt)
    J = [2 - (m % 3 == 1) for m in range(n)] if n > 8 and not case['square'] else [d if case['square'] else (d % 3) + 1 + (m % 2) for m, d in enumerate(shape)]
    tf1.reset_default_graph()
    T = tf1.constant(X)
    mats = {False: [data(m + 2, (J[m], shape[m])).astype(dt) for m in range(n)],
            True: [data(m + 2, (shape[m], J[m])).astype(dt) for m in range(n)]}
    tm = {k: [tf1.constant(m) for m in v] for k, v in mats.items()}
    todo = []
    for tr in (False, True):
        M, TM = mats[tr], tm[tr]
        kw = dict(transpose=True) if tr else {}
        for k in range(1, n + 1):
            if n > 5:                         # every set of axes (orders above eight: neighbours), in three orders
                subsets = []
                for j, s in enumerate(itertools.combinations(range(n), k)):
                    if n <= 8 and j % 4 == (i + k) % 4 or k <= 1 or k >= n - 1 and j % 5 == 0:
                        subsets += [s, s[::-1], s[k // 2:] + s[:k // 2]][:3 if n <= 8 else 1 + k // n]
            else:
                subsets = list(itertools.permutations(range(n), k))
            if n == 5:
                subsets = [s for j, s in enumerate(subsets) if j % 5 == (i + k) % 5 or list(s) == sorted(s)]
            for axes in subsets:
                want = ref.ttm(X, [M[a] for a in axes], axes, tr)
                todo.append(('axis=%s transpose=%s' % (list(axes), tr),
                             ops.ttm(T, [TM[a] for a in axes], axis=list(axes), **kw), want))
            if k <= n <= 3:
                for axes in subsets[:: 2]:
                    todo.append(('axis=tuple %s transpose=%s' % (axes, tr), ops.ttm(T, [TM[a] for a in axes], axis=tuple(axes), **kw),
                                 ref.ttm(X, [M[a] for a in axes], axes, tr)))
        want = ref.ttm(X, M, range(n), tr)
        todo.append(('all transpose=%s' % tr, ops.ttm(T, list(TM), transpose=tr), want))
        for k in range(1, n):                 # a list shorter than the order: the first modes
            todo.append(('first %d transpose=%s' % (k, tr), ops.ttm(T, TM[:k], **kw), ref.ttm(X, M[:k], range(k), tr)))
        todo.append(('single matrix transpose=%s' % tr, ops.ttm(T, TM[0], **kw), ref.ttm(X, M[:1], [0], tr)))
        for cnt in range(1, n + 1):           # skips, also with lists shorter than the order
            for k in range(0, cnt):
                for j, skip in enumerate(itertools.combinations(range(cnt), k)):
                    if n > 5 and (cnt < n and k > 1 or k > 1 and j % 29 or n > 8 and (cnt < n or k > 2 or j % 5)):
                        continue
                    keep = [m for m in range(cnt) if m not in skip]
                    want = ref.ttm(X, [M[m] for m in keep], keep, tr)
                    fs = [list(skip), list(skip)[::-1]] if k > 1 else [list(skip)]
                    if k == 1:
                        fs.append(skip[0])
                    for f in fs:
                        todo.append(('skip=%r of %d transpose=%s' % (f, cnt, tr),
                                     ops.ttm(T, TM[:cnt], skip_matrices_index=f, **kw), want))
        for kwargs in (dict(axis=[0], skip_matrices_index=0), dict(axis=list(range(n)), skip_matrices_index=[n - 1])):
            try:
                ops.ttm(T, list(TM), transpose=tr, **kwargs)
            except ValueError:
                pass
            else:
                ctx.fail('ttm accepted axis and skip_matrices_index together: %s' % kwargs)
    got = boot.evaluate([t for _, t, _ in todo])
    for (label, t, want), g in zip(todo, got):
        ctx.check(t.get_shape().is_compatible_with(want.shape), 'ttm %s of %s: static shape %s' % (label, shape, t.get_shape()))
        ctx.equal(g, want, 'ttm %s of shape %s (matrices to %s) %s' % (label, shape, J, dt.__name__), exact=exact, rtol=rtol, atol=0)
        ctx.count('evaluations')
        if X.size > 1:
            ctx.distinct('distinct_nontrivial', (label, shape, case['square']))
    ctx.sample(dict(shape=shape, sizes=J, comparisons=len(todo), last=todo[-1][0]))
