"""C04: Hadamard, Kronecker, Khatri-Rao, spectral product, masked MTTKRP."""
import itertools

from mc import boot, ref
import numpy as np
from mc.boot import tf1
from tensorD.base import ops
from tensorD.base.type import DTensor

DT = [np.float32, np.float64, np.int32]


def data(k, shape):
    size = int(np.prod(shape, dtype=int))
    return np.random.RandomState(100 * k + size).randint(-3, 4, size=shape)


def cases(tier):
    i = 0
    for n in (1, 2, 3):
        for rows in itertools.product((1, 2, 3), repeat=n):
            yield dict(op='khatri', rows=list(rows), i=i)
            i += 1
    for rows in list(itertools.product((1, 2), repeat=4)) + [(2, 3, 4, 5), (3, 3, 3, 3), (2, 3, 1, 2, 2), (5, 4, 3), (7, 6)]:
        yield dict(op='khatri', rows=list(rows), i=i)
        i += 1
    for rows, R in (((12, 9), 5), ((2, 17, 3), 7), ((31, 2), 1), ((3, 4, 5), 13), ((2, 1, 2, 3, 1, 2), 2), ((2,) * 9, 4), ((40, 30), 6), ((2,) * 14, 1)):
        yield dict(op='khatri', rows=list(rows), i=i, R=R)
        i += 1
    for ds in ([(12, 5), (3, 9)], [(1, 20), (30, 1)], [(2, 1)] * 7, [(2, 3), (1, 1), (3, 2), (2, 2), (1, 2), (2, 1)], [(11, 2), (2, 11), (1, 3)], [(2, 1), (1, 2)] * 5, [(1, 1), (2, 1), (1, 1)] * 5):
        yield dict(op='kron', dims=[list(d) for d in ds], i=i)
        i += 1
    for shape, n in (((12, 3), 5), ((1, 40), 2), ((2, 2), 7), ((3, 3), 12), ((2, 3, 4, 2), 3)):
        yield dict(op='hadamard', shape=list(shape), n=n, i=i)
        i += 1
    for ds in ([(12, 3), (2, 9)], [(5, 5)], [(2, 2)] * 6, [(1, 30), (30, 1)], [(7, 4), (4, 7), (1, 1), (3, 3)], [(2, 2), (20, 20), (2, 2)]):
        for zero in (False, True):
            yield dict(op='spectral', dims=[list(d) for d in ds], i=i, zero=zero)
            i += 1
    for s in ((12, 3, 2), (2, 11, 3), (3, 2, 15), (1, 1, 40)):
        yield dict(op='xcb', shape=list(s), i=i, R=7)
        i += 1
    for values in ('fractions', 'int64'):
        for rows in ((3, 4), (2, 3, 2), (2, 2, 2, 2)):
            yield dict(op='khatri', rows=list(rows), i=i, R=3, values=values)
            yield dict(op='kron', dims=[[r, 3 - r % 2] for r in rows], i=i, values=values)
            yield dict(op='hadamard', shape=list(rows), n=3, i=i, values=values)
            i += 1
    dims = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)]
    for n in (1, 2, 3):
        for ds in itertools.product(dims, repeat=n):
            if n == 3 and tier == 'quick' and i % 2:
                i += 1
                continue
            yield dict(op='kron', dims=[list(d) for d in ds], i=i)
            i += 1
    for ds in ([(2, 2)] * 4, [(2, 3), (3, 1), (1, 2), (2, 2)], [(4, 5), (3, 6)], [(1, 2), (2, 1), (2, 2), (1, 1), (2, 1)]):
        yield dict(op='kron', dims=[list(d) for d in ds], i=i)
        i += 1
    for shape in list(itertools.product((1, 2, 3), repeat=2)) + [(5, 4), (3,), (2, 3, 2)]:
        for n in (1, 2, 3, 4):
            yield dict(op='hadamard', shape=list(shape), n=n, i=i)
            i += 1
    for ds in itertools.product([(1, 1), (2, 2), (2, 3), (3, 2)], repeat=3):
        yield dict(op='spectral', dims=[list(d) for d in ds], i=i)
        i += 1
    for s in list(itertools.product((1, 2, 3), repeat=3)) + [(4, 5, 6), (3, 3, 3)]:
        yield dict(op='xcb', shape=list(s), i=i)
        i += 1


def skips(n):
    yield None, list(range(n))
    for k in range(0, n):
        for j, s in enumerate(itertools.combinations(range(n), k)):
            if n > 6 and 2 <= k < n - 1 and j % 37:
                continue
            keep = [m for m in range(n) if m not in s]
            yield list(s), keep
            if k == 1:
                yield s[0], keep
            if k > 1:
                yield list(s)[::-1], keep


def precise_data(kind):
    def f(k, shape):
        r = np.random.RandomState(100 * k + int(np.prod(shape, dtype=int)))
        return r.randint(1, 97, size=shape) / 97.0 if kind == 'fractions' else r.randint(-2 ** 13, 2 ** 13, size=shape)
    return f


def run(case, ctx):
    tf1.reset_default_graph()
    op, i = case['op'], case['i']
    todo, exact, rtol, atol = [], True, 1e-5, 1e-6
    data = globals()['data']
    if case.get('values'):
        data = precise_data(case['values'])
        exact, rtol, atol = False, 1e-14, 0
    if op in ('khatri', 'kron'):
        R = case.get('R') or i % 3 + 1
        dt = np.int64 if case.get('values') == 'int64' else np.float64 if len(case.get('rows') or case['dims']) > 5 or case.get('values') else DT[i % 3]
        ds = [(r, R) for r in case['rows']] if op == 'khatri' else [tuple(d) for d in case['dims']]
        M = [data(m + 1, d).astype(dt) for m, d in enumerate(ds)]
        TM = [tf1.constant(m) for m in M]
        f, rf = (ops.khatri, ref.khatri) if op == 'khatri' else (ops.kron, ref.kron)
        for skip, keep in skips(len(ds)):
            for rev in (False, True):
                want = rf([M[m] for m in (keep[::-1] if rev else keep)])
                todo.append(('%s %s skip=%r reverse=%s' % (op, ds, skip, rev),
                             f(TM, skip_matrices_index=skip, reverse=rev), want))
                if (i + len(keep)) % 2:       # positional form, as the models call it
                    todo.append(('%s %s positional %r %s' % (op, ds, skip, rev), f(TM, skip, rev), want))
        if len(ds) == 2:
            todo.append(('DTensor.%s %s' % (op, ds), getattr(DTensor(TM[0]), op)(DTensor(TM[1])).T, rf(M)))
            todo.append(('DTensor.%s tensor %s' % (op, ds), getattr(DTensor(TM[0]), op)(TM[1]).T, rf(M)))
    elif op == 'hadamard':
        dt = np.int64 if case.get('values') == 'int64' else np.float64 if case['n'] > 5 or case.get('values') else DT[i % 3]
        M = [data(m + 1, tuple(case['shape'])).astype(dt) for m in range(case['n'])]
        TM = [tf1.constant(m) for m in M]
        for skip, keep in skips(case['n']):
            todo.append(('hadamard %d x %s skip=%r' % (case['n'], case['shape'], skip),
                         ops.hadamard(TM, skip_matrices_index=skip), ref.hadamard([M[m] for m in keep])))
    elif op == 'spectral':
        exact, rtol = False, 1e-4
        M = [(data(m + 1, tuple(d)) + 0.5).astype(np.float32) for m, d in enumerate(case['dims'])]
        if case.get('zero'):
            M[len(M) // 2][:] = 0
        TM = [tf1.constant(m) for m in M]
        for skip, keep in skips(len(M)):
            todo.append(('max_single_value_mul %s skip=%r' % (case['dims'], skip),
                         ops.max_single_value_mul(TM, skip),
                         np.prod([np.linalg.norm(M[m].astype(float), 2) for m in keep])))
    else:
        I, J, K = case['shape']
        R = case.get('R') or i % 3 + 1
        X, C, B = data(1, (I, J, K)).astype('f'), data(2, (K, R)).astype('f'), data(3, (J, R)).astype('f')
        todo.append(('xcb %s rank %d' % (case['shape'], R), ops.xcb(tf1.constant(X), tf1.constant(C), tf1.constant(B)),
                     np.einsum('ijk,kr,jr->ir', X, C, B)))
    for (label, t, want), g in zip(todo, boot.evaluate([t[1] for t in todo])):
        ctx.check(t.get_shape().is_compatible_with(np.shape(want)), '%s: static shape %s, value %s' % (label, t.get_shape(), np.shape(want)))
        ctx.equal(g, want, label, exact=exact, rtol=rtol, atol=atol)
        ctx.count('evaluations')
        ctx.distinct('distinct_nontrivial', label)
    ctx.sample(todo[-1][0])
