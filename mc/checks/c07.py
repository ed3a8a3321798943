"""C07: losses against their definitions, over a small value alphabet."""
import itertools

from mc import boot, ref
import numpy as np
from mc.boot import tf1
from tensorD import loss
from tensorD.base import TensorErr

ALPHA = (-1.0, 0.0, 1.0, 2.0)


def cases(tier):
    for shape in [(1,), (2,), (1, 2), (2, 1), (3,), (1, 3), (3, 1), (1, 1, 3), (1, 1)]:
        for dt in ('float32', 'float64'):
            if len(shape) == 3 and dt == 'float64':
                continue
            yield dict(kind='values', shape=list(shape), dt=dt)
    for shape in [(4,), (2, 2), (2, 1, 2)]:
        # three letters on four positions: every zero pattern of both tensors
        yield dict(kind='values', shape=list(shape), dt='float32', alpha=[-1.0, 0.0, 2.0] if tier != 'quick' else [0.0, 2.0])
    for shape in [(2, 3, 2), (3, 4, 5), (2, 2, 2, 3), (17,), (64, 3), (3, 1, 50), (2,) * 9, (11, 12, 13)]:
        yield dict(kind='patterns', shape=list(shape), dt='float32')
        if shape[0] < 17 and len(shape) < 9:
            yield dict(kind='patterns', shape=list(shape), dt='float64')
    for shape in [(3,), (2, 3), (2, 3, 2)]:
        yield dict(kind='patterns', shape=list(shape), dt='float64', scale=1 / 97.)
    yield dict(kind='shapes')


def run(case, ctx):
    tf1.reset_default_graph()
    if case['kind'] == 'shapes':
        ss = [s for n in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=n)] + [()]
        ts = [tf1.zeros(s) for s in ss]
        for s, a in zip(ss, ts):
            for u, b in zip(ss, ts):
                for f in (loss.rmse, loss.rmse_ignore_zero):
                    try:
                        f(a, b)
                        ok = True
                    except TensorErr:
                        ok = False
                    ctx.check(ok == (s == u), '%s of shapes %s and %s: %s' % (f.__name__, s, u, 'accepted' if ok else 'TensorErr'))
                    ctx.count('evaluations')
        return
    shape = tuple(case['shape'])
    n = int(np.prod(shape))
    dt = np.dtype(case['dt']).type
    rtol, atol = (1e-12, 1e-15) if dt is np.float64 else (1e-5, 1e-6)
    pa, pb = tf1.placeholder(dt, shape), tf1.placeholder(dt, shape)
    f = [loss.l2(pa, pb), loss.rmse(pa, pb), loss.rmse_ignore_zero(pa, pb)]
    if case['kind'] == 'values':
        alpha = case.get('alpha', ALPHA)
        pairs = itertools.product(itertools.product(alpha, repeat=n), repeat=2)
    else:
        base = (np.arange(n) * 5 % 7 - 3.0) * case.get('scale', 1)
        other = (np.arange(n) * 3 % 5 - 1.5) * case.get('scale', 1)
        pairs = []
        for k in range(1, 8):
            for a, b in ((base, other), (other, base), (base * 1e3, other), (base, base)):
                a2 = np.where(np.arange(n) % k == 0, 0, a)
                pairs += [(a2, b), (b, a2), (a, np.where(np.arange(n) % k, b, 0))]
                # entries of very different size are all non-zero; a negative zero is a zero
                for tiny in (1e-3, 1e-6, 1e-9, 1e-12, -1e-7):
                    a3 = np.where(np.arange(n) % k == 0, tiny, a)
                    pairs += [(a3, b), (b, a3), (a3 * 1e-3, b * 1e-3), (np.where(np.arange(n) % k == 0, -0.0, a3), b)]
    with boot.RealSession(config=boot.config()) as sess:
        run_ = sess.make_callable(f, feed_list=[pa, pb])
        for a, b in pairs:
            A, B = np.array(a, dt).reshape(shape), np.array(b, dt).reshape(shape)
            g = run_(A, B)
            w = [0.5 * np.sum((A.astype(float) - B) ** 2), ref.rmse(A, B)]
            for name, x, y in zip(('l2', 'rmse'), g, w):
                ctx.equal(x, y, '%s(%s, %s)' % (name, A.tolist(), B.tolist()), rtol=rtol, atol=atol)
            if A.any():
                ctx.equal(g[2], ref.rmse_nz(A, B), 'rmse_ignore_zero(%s, %s)' % (A.tolist(), B.tolist()), rtol=rtol, atol=atol)
            ctx.count('evaluations')
            if (A != B).any():
                ctx.distinct('distinct_nontrivial', (shape, case['dt'], A.tobytes(), B.tobytes()))
    ctx.sample(dict(shape=shape, last=[A.tolist(), B.tolist()]))
