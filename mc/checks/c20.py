"""C20: centralization, singular value thresholding, shrinkage and cone projection."""
import itertools

from mc import ref, train
import numpy as np
from mc.boot import tf1

TAOS = (0.0, 0.25, 1.0, 3.0)


def grid(shape, alphabet):
    for v in itertools.product(alphabet, repeat=shape[0] * shape[1]):
        yield np.array(v, float).reshape(shape)


def special(shape):
    g = np.random.RandomState(shape[0] * 10 + shape[1])
    yield np.zeros(shape)
    yield np.ones(shape)
    yield -3 * np.ones(shape)
    for s in (1e-3, 1.0, 50.0):
        yield s * g.randn(*shape)
        yield s * g.rand(*shape)
        yield -s * g.rand(*shape)
    yield np.outer(g.randn(shape[0]), g.randn(shape[1]))
    yield np.arange(shape[0] * shape[1]).reshape(shape) * 1.0
    M = np.zeros(shape)
    M[-1, 0] = 4.0
    yield M
    yield np.eye(*shape) * 2.0                                          # repeated singular values
    yield np.where((np.arange(shape[0])[:, None] + np.arange(shape[1])) % 2, 1.0, -1.0)
    yield 1e-6 * g.randn(*shape)
    yield 1e4 * g.randn(*shape) + 1e4
    yield g.randn(*shape) * 10.0 ** -np.arange(shape[1])[None, :].clip(0, 8)


def cases(tier):
    q = tier == 'quick'
    full = [((1, 1), (-4, -2, -1, -.5, 0, .5, 1, 2, 4)), ((1, 2), (-2, -1, 0, 1, 3)), ((2, 1), (-2, -1, 0, 1, 3)), ((2, 2), (-1, 0, 1, 2)),
            ((1, 3), (-2, 0, 1)), ((3, 1), (-2, 0, 1)), ((2, 3), (-1, 0, 2)[:3 if not q else 3]), ((3, 2), (-1, 0, 2))]
    for shape, al in full:
        for mode in ('normal', 'complicated'):
            yield dict(group='matrix', shape=shape, alphabet=al, mode=mode)
    if not q:
        for mode in ('normal', 'complicated'):
            yield dict(group='matrix', shape=(3, 3), alphabet=(-1, 0, 2), mode=mode)
            yield dict(group='matrix', shape=(2, 4), alphabet=(-1, 0, 2), mode=mode)
            yield dict(group='matrix', shape=(2, 2), alphabet=(-3, -1, -.5, 0, .5, 1, 2), mode=mode)
    for shape in list(itertools.product(range(1, 6), repeat=2)) + [(8, 8), (12, 9), (9, 12), (2, 30), (30, 2), (1, 40), (40, 1), (17, 16)]:
        for mode in ('normal', 'complicated'):
            yield dict(group='special', shape=shape, mode=mode)
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for version in ('array', 'graph'):
            yield dict(group='cone', n=n, version=version)


def run(case, ctx):
    if case['group'] == 'cone':
        return cone(case['n'], case['version'], ctx)
    from tensorD.base import pitf_ops as pt, pitf_ops_numpy as pn
    shape, mode = tuple(case['shape']), case['mode']
    todo = grid(shape, case['alphabet']) if case['group'] == 'matrix' else special(shape)
    with train.world(1):
        mp, tp = tf1.placeholder(tf1.float32, shape), tf1.placeholder(tf1.float32, [])
        s, u, v = pt.SVT(mp, tp)
        fetch = [pt.centralization(mp), s, u, v, pt.shrink(mp, tp, mode)]
        if mode == 'normal':
            fetch.append(pt.shrink(mp, tp))                   # the default mode
        consts = [pt.shrink(mp, t, mode) for t in TAOS]       # threshold given as a Python number
        sess = tf1.Session()
        call = sess.make_callable(fetch, feed_list=[mp, tp])
        call2 = sess.make_callable(consts, feed_list=[mp])
        for M in todo:
            C = ref.center(M)
            sv = np.linalg.svd(C, compute_uv=False)
            scale = max(1.0, np.abs(M).max()) * np.sqrt(M.size)
            label = lambda what: '%s of %s' % (what, M.tolist())
            eq = lambda got, want, what, tol: close(ctx, got, want, label(what), tol * scale)
            byconst = call2(M.astype(np.float32))
            taos = TAOS + tuple(float(x) for x in sv[:1]) + (abs(M.sum()) / np.sqrt(M.size),)
            for i, tao in enumerate(taos):
                want = ref.shrink(M, tao, mode)
                g = call(M.astype(np.float32), np.float32(tao))
                eq(g[0], C, 'graph centralization', 2e-6)
                shrunk = np.maximum(sv - tao, 0)
                eq(np.sort(g[1])[::-1], shrunk, 'graph singular values at threshold %s' % tao, 4e-6)
                k = len(sv)
                eq((g[2][:, :k] * g[1]) @ g[3][:, :k].T, ref.svt(C, tao), 'graph SVT at threshold %s' % tao, 8e-6)
                for x in g[4:]:
                    eq(x, want, 'graph shrink %s at threshold %s' % (mode, tao), 8e-6)
                if i < len(TAOS):
                    eq(byconst[i], want, 'graph shrink %s at constant threshold %s' % (mode, tao), 8e-6)
                eq(pn.centralization(M), C, 'array centralization', 1e-12)
                U, S, V = pn.SVT(M, tao)
                eq(np.sort(S)[::-1], shrunk, 'array singular values at threshold %s' % tao, 1e-11)
                eq((U[:, :k] * S) @ V[:k], ref.svt(C, tao), 'array SVT at threshold %s' % tao, 1e-11)
                eq(pn.shrink(M, tao, mode), want, 'array shrink %s at threshold %s' % (mode, tao), 1e-11)
                if mode == 'normal':
                    eq(pn.shrink(M, tao), want, 'array shrink (default mode) at threshold %s' % tao, 1e-11)
                ctx.count('evaluations')
                if np.any(want != 0):
                    ctx.distinct('distinct_nontrivial', (shape, M.tobytes(), tao, mode))
    ctx.sample(dict(shape=shape, mode=mode))


def close(ctx, got, want, what, atol):
    got = np.asarray(got, float)
    ctx.check(got.shape == np.shape(want) and np.all(np.abs(got - want) <= atol),
              lambda: '%s: got %s, expected %s' % (what, got.tolist(), np.asarray(want).tolist()))


def cone(n, version, ctx):
    """Projection on {(x, t): |x| <= t}: the point p of the cone with z-p in the polar cone and <p, z-p> = 0."""
    from tensorD.base import pitf_ops as pt, pitf_ops_numpy as pn
    with train.world(1):
        if version == 'graph':
            calls = []
            sess = tf1.Session()
            for dt in ('float32', 'float64'):
                xp, tp = tf1.placeholder(dt, [n]), tf1.placeholder(dt, [])
                calls.append((sess.make_callable(list(pt.cone_projection_operator(xp, tp)), feed_list=[xp, tp]), 1e-5 if dt == 'float32' else 1e-11))
        else:
            calls = [(pn.cone_projection_operator, 1e-11)]
        for v in itertools.product((-2.0, -1.0, -.5, 0.0, .25, 1.0, 3.0) if n < 3 else (-2.0, -.5, 0.0, 1.0), repeat=n):
            x = np.array(v)
            nx = float(np.linalg.norm(x))
            for t in (-5.0, -2.0, -1.0, -.5, 0.0, .5, 1.0, 2.0, 5.0, nx, -nx, nx * .999, -nx * .999, nx * 1.001, -nx * 1.001):
                for call, tol in calls:
                    px, pt_ = call(x.copy(), t)
                    what = 'projection (%s) of x=%s t=%s' % (version, v, t)
                    ctx.check(np.shape(px) in ((), (n,)), '%s: shape %s' % (what, np.shape(px)))
                    px, p = np.broadcast_to(np.asarray(px, float), (n,)), float(pt_)
                    wx, wt = ref.cone(x, t)
                    s = tol * max(1.0, nx, abs(t))
                    ctx.check(np.all(np.abs(px - wx) <= s) and abs(p - wt) <= s, '%s: got %s, %s, expected %s, %s' % (what, px.tolist(), p, wx.tolist(), wt))
                    rx, rt = x - px, t - p
                    ctx.check(np.linalg.norm(px) <= p + 2 * s, '%s: (%s, %s) is outside the cone' % (what, px.tolist(), p))
                    ctx.check(np.linalg.norm(rx) <= -rt + 4 * s and abs(px @ rx + p * rt) <= 10 * s * max(1.0, nx, abs(t)), '%s: (%s, %s) is not the nearest point' % (what, px.tolist(), p))
                    ctx.count('evaluations')
                    ctx.distinct('distinct_nontrivial', (version, v, t))
