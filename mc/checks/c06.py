"""C06: Kruskal and Tucker tensors expand to the multilinear sum."""
import itertools

from mc import boot, ref
import numpy as np
from mc.boot import tf1
from tensorD.base.type import KTensor, TTensor

SH = [s for n in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=n)] + \
     list(itertools.product((1, 2), repeat=4)) + [(2, 3, 4, 5), (4, 5, 6), (3, 3, 3, 3), (2, 1, 2, 3, 2), (6, 5), (2, 2, 2, 2, 2)]


def vals(k, shape):
    size = int(np.prod(shape, dtype=int))
    return np.random.RandomState(100 * k + size).randint(-4, 5, size=shape) / 2.0


def cases(tier):
    for i, s in enumerate(SH):
        for R in (1, 2, 3, 4):
            yield dict(kind='k', shape=list(s), R=R, i=i)
    for i, (s, R) in enumerate((((12, 3, 2), 7), ((2, 13, 3), 13), ((3, 2, 25), 6), ((40,), 5), ((30, 31), 2), ((2,) * 6, 3), ((2,) * 9, 2), ((1, 2) * 4, 2), ((2,) * 14, 1))):
        yield dict(kind='k', shape=list(s), R=R, i=i)
    for i, (s, r) in enumerate((((12, 3, 2), (5, 3, 2)), ((2, 13, 3), (2, 6, 4)), ((3, 2, 25), (2, 2, 11)), ((30,), (7,)), ((9, 31), (3, 12)), ((2,) * 6, (2, 1, 2, 1, 2, 2)),
                              ((2,) * 9, (1, 2, 2) * 3), ((1, 2) * 4, (2, 1) * 4), ((2,) * 13, (2, 1) * 6 + (2,)), ((2, 1) * 7, (2,) * 14), ((1, 1, 2, 1, 1) * 3, (1, 2, 1) * 5))):
        yield dict(kind='t', shape=list(s), ranks=list(r), i=i)
    for i, (s, r) in enumerate((((3, 4), (2, 2)), ((2, 3, 2), (2, 2, 1)), ((3, 3, 3), (2, 3, 2)), ((2, 3, 1, 2), (2, 2, 1, 2)))):
        yield dict(kind='k', shape=list(s), R=r[0], i=i, values='fractions')
        yield dict(kind='t', shape=list(s), ranks=list(r), i=i, values='fractions')
    rs = (1, 2, 3)
    i = 0
    for n in (1, 2, 3):
        for s in itertools.product((1, 2, 3), repeat=n):
            for ranks in itertools.product(rs, repeat=n):
                if n == 3 and tier == 'quick' and (i % 3):
                    i += 1
                    continue
                yield dict(kind='t', shape=list(s), ranks=list(ranks), i=i)
                i += 1
    for s, r in (((2, 3, 4, 5), (2, 1, 3, 2)), ((2, 2, 2, 2), (2, 2, 2, 2)), ((4, 5, 6), (2, 3, 4)), ((2, 3, 2, 1, 2), (1, 2, 2, 2, 3)),
                 ((3, 4, 2, 5), (4, 5, 3, 2)), ((1, 1, 2, 3), (3, 2, 2, 1))):
        for k in range(2):
            yield dict(kind='t', shape=list(s), ranks=list(r), i=i)
            i += 1


def run(case, ctx):
    tf1.reset_default_graph()
    s, i = tuple(case['shape']), case['i']
    todo = []
    vals = globals()['vals']
    if case.get('values'):
        vals = lambda k, shape: np.random.RandomState(100 * k + 7).randint(1, 97, size=shape) / 97.0
    if case['kind'] == 'k':
        R = case['R']
        F = [vals(m + 1, (d, R)) for m, d in enumerate(s)]
        lam = vals(9, (R,)) + 0.25
        for fk in ('np32', 'np64', 'tf32', 'tf64', 'var'):
            if len(s) > 3 and fk in ('np64', 'var'):
                continue
            dt = np.float64 if fk.endswith('64') else np.float32
            tdt = tf1.float64 if fk == 'tf64' else tf1.float32      # array factors become float32
            A = [f.astype(dt) for f in F]
            if fk.startswith('tf'):
                fac = [tf1.constant(a) for a in A]
            elif fk == 'var':
                fac = [tf1.placeholder_with_default(a, a.shape) for a in A]
            else:
                fac = A
            lams = [('none', None, None), ('np', lam.astype(tdt.as_numpy_dtype), lam),
                    ('np column', lam.astype(tdt.as_numpy_dtype).reshape(-1, 1), lam),
                    ('np other float', lam.astype(np.float32 if tdt == tf1.float64 else np.float64), lam),
                    ('np int', (np.arange(R) - 1), np.arange(R) - 1.0),
                    ('tf', tf1.constant(lam, tdt), lam), ('tf column', tf1.constant(lam.reshape(-1, 1), tdt), lam)]
            for ln, lv, lr in lams:
                k = KTensor(list(fac), lv)
                ctx.check(getattr(k, 'order', None) == len(s), 'KTensor.order %r, expected %d' % (getattr(k, 'order', None), len(s)))
                todo.append(('KTensor %s rank %d factors %s weights %s' % (s, R, fk, ln), k.extract(), ref.kruskal(F, lr), tdt))
                todo.append(('weights of the same', k.lambdas, (np.ones(R) if lr is None else lr).reshape(-1, 1), None))
                if ln == 'np':
                    todo.append(('second extract of the same', k.extract(), ref.kruskal(F, lr), tdt))
    else:
        ranks = tuple(case['ranks'])
        G = vals(0, ranks)
        F = [vals(m + 1, (d, r)) for m, (d, r) in enumerate(zip(s, ranks))]
        for fk in ('np32', 'np64', 'tf32', 'tf64', 'mixed'):
            dt = np.float64 if fk.endswith('64') else np.float32
            g, A = G.astype(dt), [f.astype(dt) for f in F]
            core = tf1.constant(g) if fk.startswith('tf') else g
            fac = [tf1.constant(a) for a in A] if fk.startswith('tf') or fk == 'mixed' else A
            t = TTensor(core, list(fac))
            ctx.check(getattr(t, 'order', None) == len(s), 'TTensor.order %r, expected %d' % (getattr(t, 'order', None), len(s)))
            todo.append(('TTensor core %s factors to %s as %s' % (ranks, s, fk), t.extract(), ref.tucker(G, F), None))
            if fk == 'np32':
                todo.append(('second extract of the same', t.extract(), ref.tucker(G, F), None))
    for (label, t, want, dt), g in zip(todo, boot.evaluate([t[1] for t in todo])):
        ctx.check(t.get_shape().is_compatible_with(want.shape), '%s: static shape %s' % (label, t.get_shape()))
        if dt is not None:
            ctx.check(t.dtype.base_dtype == dt, '%s: dtype %s, expected %s' % (label, t.dtype, dt))
        if case.get('values') and t.dtype.base_dtype == tf1.float64:
            if 'weights' not in label:
                ctx.equal(g, want, label, rtol=1e-13, atol=0)
        else:
            ctx.equal(g, want, label, rtol=1e-6)
        ctx.count('evaluations')
        ctx.distinct('distinct_nontrivial', (label, s))
    ctx.sample(todo[0][0])
