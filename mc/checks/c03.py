"""C03: contraction and inner product."""
import itertools

from mc import boot, ref
import numpy as np
from mc.boot import tf1
from tensorD.base import ops
from tensorD.base.type import DTensor

DT = [np.float32, np.float64, np.int32]


def cases(tier):
    top = 3 if tier == 'quick' else 4
    for na in range(1, top + 1):
        for nb in range(1, top + 1):
            for k in range(1, min(na, nb) + 1):
                for eq in (0, 1, 2):
                    yield dict(kind='mul', na=na, nb=nb, k=k, eq=eq)
    for na, nb, k in ((4, 2, 1), (2, 4, 2), (4, 3, 2), (4, 4, 3), (5, 3, 2), (4, 4, 4)):
        yield dict(kind='mul', na=na, nb=nb, k=k, eq=0, thin=7)
        yield dict(kind='mul', na=na, nb=nb, k=k, eq=1, thin=7)
    for sa, sb in WIDE:
        yield dict(kind='wide', sa=list(sa), sb=list(sb))
    yield dict(kind='inner', dims=[1, 2, 3], top=3)
    yield dict(kind='inner', dims=[1, 13, 40], top=2)
    yield dict(kind='inner', dims=[2], top=12)
    yield dict(kind='inner', dims=[1, 2], top=5)
    yield dict(kind='inner_shapes')
    for values in ('fractions', 'int64', 'scales'):
        yield dict(kind='precise', values=values)


WIDE = [((12, 3, 2), (2, 12, 3)), ((20, 11), (11, 20)), ((2, 3, 2, 3, 2, 3), (3, 2, 2, 3)), ((2, 2, 2, 2, 2, 2), (2, 2, 2, 2, 2)),
        ((1, 7, 1, 9), (9, 1, 7, 1)), ((64, 3), (3, 64)), ((2, 1, 2, 1, 2, 1, 2, 1), (1, 2, 1, 2, 1)), ((2,) * 14, (2, 2)), ((5,), (4, 5, 6))]


def data(k, shape):
    size = int(np.prod(shape, dtype=int))
    return np.random.RandomState(100 * k + size).randint(-3, 4, size=shape)


def run(case, ctx):
    tf1.reset_default_graph()
    if case['kind'] == 'inner':
        todo = []
        for n in range(1, case['top'] + 1):
            for j, s in enumerate(itertools.product(case['dims'], repeat=n)):
                dt = DT[j % 3]
                a, b = data(1, s).astype(dt), data(2, s).astype(dt)
                todo.append((s, ops.inner(tf1.constant(a), tf1.constant(b)), (a * b).sum()))
        for (s, _, w), g in zip(todo, boot.evaluate([t[1] for t in todo])):
            ctx.equal(g, w, 'inner of shape %s' % (s,), exact=True)
            ctx.count('evaluations')
            ctx.distinct('distinct_nontrivial', s)
        return
    if case['kind'] == 'inner_shapes':
        ss = [s for n in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=n)]
        ts = [tf1.constant(data(1, s).astype('f')) for s in ss]
        for s, a in zip(ss, ts):
            for u, b in zip(ss, ts):
                try:
                    ops.inner(a, b)
                    ok = True
                except ValueError:
                    ok = False
                ctx.check(ok == (s == u), 'inner of shapes %s and %s: %s' % (s, u, 'accepted' if ok else 'ValueError'))
                ctx.count('evaluations')
        return
    if case['kind'] == 'precise':
        return precise(case, ctx)
    if case['kind'] == 'wide':
        return wide(case, ctx)
    na, nb, k, eq = case['na'], case['nb'], case['k'], case['eq']
    todo = []
    j = 0
    for ax in itertools.permutations(range(na), k):
        for bx in itertools.permutations(range(nb), k):
            j += 1
            if case.get('thin') and j % case['thin']:
                continue
            if eq == 1:
                sa, sb = [2] * na, [2] * nb
            else:
                base = [2, 3, 4, 2] if eq == 0 else [1, 3, 1, 2]
                sa, sb = [(5, 3, 2, 4, 2)[m] for m in range(na)], [(3, 2, 4, 5, 2)[m] for m in range(nb)]
                if eq == 2:
                    sa, sb = [1 + m % 2 for m in range(na)], [2 - m % 2 for m in range(nb)]
                for q in range(k):
                    sa[ax[q]] = sb[bx[q]] = base[q]
            dt = DT[j % 3]
            A, B = data(1, tuple(sa)).astype(dt), data(2, tuple(sb)).astype(dt)
            want = ref.contract(A, B, ax, bx)
            ta, tb = tf1.constant(A), tf1.constant(B)
            fa = [list(ax), tuple(ax)] + ([ax[0]] if k == 1 else [])
            fb = [list(bx), tuple(bx)] + ([bx[0]] if k == 1 else [])
            for x, y in itertools.product(fa, fb):
                todo.append(('mul %s x %s axes %r %r' % (sa, sb, x, y), ops.mul(ta, tb, x, y), want))
            todo.append(('DTensor.mul %s x %s axes %r %r' % (sa, sb, fa[-1], fb[-1]),
                         DTensor(ta).mul(DTensor(tb), fa[-1], fb[-1]).T, want))
            if (ax, bx) == ((0,), (0,)):
                todo.append(('DTensor.mul %s x %s default axes' % (sa, sb), DTensor(ta).mul(DTensor(tb)).T, want))
    for (label, t, want), g in zip(todo, boot.evaluate([t[1] for t in todo])):
        ctx.check(t.get_shape().is_compatible_with(want.shape), '%s: static shape %s' % (label, t.get_shape()))
        ctx.equal(g, want, label, exact=True)
        ctx.count('evaluations')
        ctx.distinct('distinct_nontrivial', label)
    ctx.sample(todo[-1][0])


def precise(case, ctx):
    """The digits of float64 and of large integers survive."""
    dt, exact, rtol = dict(fractions=(np.float64, False, 1e-13), int64=(np.int64, True, 0), scales=(np.float32, False, 1e-5))[case['values']]

    def make(k, shape):
        r = np.random.RandomState(k)
        if case['values'] == 'fractions':
            return r.randint(1, 97, size=shape) / 97.0
        if case['values'] == 'int64':
            return r.randint(-2 ** 28, 2 ** 28, size=shape)
        return (r.randint(1, 9, size=shape) * 10.0 ** r.randint(-3, 4)).astype('f')
    todo = []
    for sa, sb in (((2, 3), (3, 2)), ((3, 2, 4), (4, 3)), ((2, 3, 2), (2, 2, 3)), ((3, 3, 3), (3, 3)), ((5,), (5,)), ((4, 5, 6), (6, 5, 2))):
        A, B = make(1, sa), make(2, sb)
        ta, tb = tf1.constant(A, dt), tf1.constant(B, dt)
        for k in range(1, min(len(sa), len(sb)) + 1):
            for ax in itertools.permutations(range(len(sa)), k):
                for bx in itertools.permutations(range(len(sb)), k):
                    if all(sa[p] == sb[q] for p, q in zip(ax, bx)):
                        want = ref.contract(A, B, ax, bx)
                        todo.append(('mul %s x %s axes %s %s' % (sa, sb, ax, bx), ops.mul(ta, tb, list(ax), list(bx)), want))
                        todo.append(('DTensor.mul %s x %s axes %s %s' % (sa, sb, ax, bx), DTensor(ta).mul(DTensor(tb), list(ax), list(bx)).T, want))
        C = make(3, sa)
        todo.append(('inner of shape %s' % (sa,), ops.inner(ta, tf1.constant(C, dt)), (A.astype(dt) * C.astype(dt)).sum()))
    for (label, t, want), g in zip(todo, boot.evaluate([t[1] for t in todo])):
        ctx.check(t.dtype.base_dtype.as_numpy_dtype == dt, '%s: dtype %s' % (label, t.dtype))
        ctx.equal(g, want, '%s, %s' % (label, case['values']), exact=exact, rtol=rtol, atol=0)
        ctx.count('evaluations')
        ctx.distinct('distinct_nontrivial', (label, case['values']))


def wide(case, ctx):
    """Larger dimensions and orders: every pairing of up to three equally long axes (orders above six: every 11th)."""
    sa, sb = tuple(case['sa']), tuple(case['sb'])
    na, nb = len(sa), len(sb)
    A, B = data(1, sa).astype('f'), data(2, sb).astype('f')
    ta, tb = tf1.constant(A), tf1.constant(B)
    todo, j = [], 0
    for k in range(1, min(na, nb, 3) + 1):
        for ax in itertools.permutations(range(na), k):
            for bx in itertools.permutations(range(nb), k):
                if any(sa[p] != sb[q] for p, q in zip(ax, bx)):
                    continue
                j += 1
                if na >= 6 and j % (11 if na == 6 else 17) or na + nb - 2 * k > 12 and j > 12:
                    continue
                want = ref.contract(A, B, ax, bx)
                todo.append(('mul %s x %s axes %s %s' % (sa, sb, ax, bx), ops.mul(ta, tb, list(ax), list(bx)), want))
                todo.append(('DTensor.mul %s x %s axes %s %s' % (sa, sb, ax, bx), DTensor(ta).mul(DTensor(tb), list(ax), list(bx)).T, want))
    for (label, t, want), g in zip(todo, boot.evaluate([t[1] for t in todo])):
        ctx.check(t.get_shape().is_compatible_with(want.shape), '%s: static shape %s' % (label, t.get_shape()))
        ctx.equal(g, want, label, exact=True)
        ctx.count('evaluations')
        ctx.distinct('distinct_nontrivial', label)
    ctx.sample(todo[-1][0])
