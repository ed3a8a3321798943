"""C19: the sampling operators of pairwise interaction tensors and their adjoints.

Every sample list up to a length over every position of small tensors is fed to
one graph per (shape, length) and to the array version."""
import itertools

from mc import ref, train
import numpy as np
from mc.boot import tf1

SHAPES = [(2, 3, 2), (3, 2, 2), (2, 2, 3), (1, 2, 3), (2, 1, 2), (3, 3, 1), (2, 2, 2), (1, 1, 1), (2, 3, 4), (4, 2, 3)]


def lists(shape, n, limit=None):
    """All sample lists of length n (as position tuples)."""
    return itertools.product(itertools.product(*[range(s) for s in shape]), repeat=n)


def long_lists(shape):
    """Lists covering every position: in order, reversed, doubled, Latin (no repeated pair)."""
    pos = list(itertools.product(*[range(s) for s in shape]))
    latin, used = [], [set(), set(), set()]
    for p in pos:
        k = [(p[r], p[c]) for r, c, _ in ref.PAIRS]
        if not any(x in u for x, u in zip(k, used)):
            latin.append(p)
            for x, u in zip(k, used):
                u.add(x)
    return [pos, pos[::-1], pos + pos[:3], latin, latin[::-1], pos[::2] + pos[1::3]]


def cases(tier):
    q = tier == 'quick'
    for shape in SHAPES:
        size = int(np.prod(shape))
        for n in (1, 2, 3, 4):
            if size ** n <= (2000 if q else 25000):
                yield dict(group='lists', shape=shape, n=n)
        for i in range(6):
            yield dict(group='long', shape=shape, i=i)
    for shape in ((12, 3, 2), (2, 13, 3), (3, 2, 11), (4, 5, 6), (1, 40, 2), (17, 1, 3)):
        for i in ((3,) if q else range(6)):
            yield dict(group='long', shape=shape, i=i)
    for shape in itertools.product((1, 2, 3) if q else (1, 2, 3, 4), repeat=3):
        yield dict(group='sampler', shape=shape)
        yield dict(group='generator', shape=shape)
    yield dict(group='errors')


def same_any(got, want, alt, tol):
    if got.shape == want.shape and np.allclose(got, want, rtol=tol, atol=tol):
        return 'adjoint'
    if got.shape == want.shape and alt(got):
        return 'overwrite'
    return None


def pick(spl, v, d, got, tol, last):
    """Every entry is one of the values sampled there (the last one if asked), zero elsewhere."""
    r, c, _ = ref.PAIRS[d]
    vals = {}
    for i in range(len(v)):
        vals.setdefault((int(spl[r][i]), int(spl[c][i])), []).append(float(v[i]))
    for k in np.ndindex(*got.shape):
        w = vals.get(k, [0.0])
        if last:
            w = w[-1:]
        if not any(abs(got[k] - x) <= tol * max(1, abs(x)) for x in w):
            return False
    return True


def judge(ctx, spl, v, shape, d, got, what, tol, last):
    got = np.asarray(got)
    want = ref.adjoint(spl, v, shape, d)
    kind = same_any(got, want, lambda g: pick(spl, v, d, g, tol, last), tol)
    ctx.check(kind is not None, lambda: '%s: samples %s values %s shape %s dim %d: got %s, expected %s'
              % (what, [list(map(int, s)) for s in spl], list(map(float, v)), shape, d, got.tolist(), want.tolist()))
    if kind == 'overwrite':
        ctx.finding('adjoint-overwrites-repeated-pair', '%s keeps one value where an index pair is sampled twice instead of their sum' % what.split()[0])


def run(case, ctx):
    if case['group'] in ('lists', 'long'):
        return check_lists(case, ctx)
    if case['group'] == 'sampler':
        return sampler(tuple(case['shape']), ctx)
    if case['group'] == 'generator':
        return generator(tuple(case['shape']), ctx)
    return errors(ctx)


def check_lists(case, ctx):
    from tensorD.base import pitf_ops as pt, pitf_ops_numpy as pn
    shape = tuple(case['shape'])
    if case['group'] == 'lists':
        todo, n = lists(shape, case['n']), case['n']
    else:
        one = long_lists(shape)[case['i']]
        todo, n = [tuple(one)], len(one)
    g = np.random.RandomState(5)
    Ts = [np.arange(1, np.prod(shape) + 1).reshape(shape) * 1.0, g.randn(*shape)]
    Ms = [[np.arange(1, shape[r] * shape[c] + 1).reshape(shape[r], shape[c]) * (1.0 + d) - 2 * d for d, (r, c, _) in enumerate(ref.PAIRS)],
          [g.randn(shape[r], shape[c]) for r, c, _ in ref.PAIRS]]
    vs = [np.arange(1, n + 1) * 1.0, np.round(g.randn(n), 3)]
    for fl, tol in (('float32', 2e-6), ('float64', 1e-12)):
        with train.world(1):
            ps = [tf1.placeholder(tf1.int32, [n]) for _ in range(3)]
            mp = [tf1.placeholder(fl, [shape[r], shape[c]]) for r, c, _ in ref.PAIRS]
            tp, vp = tf1.placeholder(fl, shape), tf1.placeholder(fl, [n])
            fetch = [pt.Pomega_mat(ps, mp[d], list(shape), n, d) for d in range(3)]
            fetch += [pt.adjoint_operator(ps, vp, list(shape), n, d) for d in range(3)]
            fetch += [pt.Pomega_tensor(ps, tp, n), pt.Pomega_Pair(ps, mp[0], mp[1], mp[2], shape, n)]
            sess = tf1.Session()
            call = sess.make_callable(fetch, feed_list=ps + mp + [tp, vp])
            for k, lst in enumerate(todo if case['group'] == 'long' else lists(shape, n)):
                if fl == 'float64' and case['group'] == 'lists' and k % 7:
                    continue
                spl = [np.array([p[i] for p in lst], np.int32) for i in range(3)]
                which = (0, 1) if case['group'] == 'long' or k % 5 == 0 else (k % 2,)
                for w in which:
                    T, M, v = Ts[w], Ms[w], vs[w]
                    got = call(*(spl + M + [T, v]))
                    ctx.count('evaluations')
                    label = lambda s: '%s: samples %s of shape %s' % (s, [list(x) for x in lst], shape)
                    pair = 0
                    for d in range(3):
                        want = ref.pomega_mat(spl, M[d], shape, d)
                        pair = pair + want
                        ctx.equal(got[d], want, label('graph Pomega_mat dim %d' % d), tol, tol)
                        judge(ctx, spl, v, shape, d, got[3 + d], 'graph adjoint_operator', tol, False)
                        if fl == 'float64':
                            continue
                        form = [spl, tuple(list(map(int, s)) for s in spl)][k % 2]
                        sh = [list(shape), shape][k % 2]
                        ctx.equal(pn.Pomega_mat(form, M[d], sh, n, d), want, label('array Pomega_mat dim %d' % d), 1e-12, 1e-12)
                        judge(ctx, spl, v, shape, d, pn.adjoint_operator(form, v, sh, n, d), 'array adjoint_operator', 1e-12, True)
                    ctx.equal(got[6], ref.pomega_tensor(spl, T), label('graph Pomega_tensor'), tol, tol)
                    ctx.equal(got[7], pair, label('graph Pomega_Pair'), tol, 3 * tol)
                    if fl == 'float32':
                        ctx.equal(pn.Pomega_tensor(spl, T, shape, n), ref.pomega_tensor(spl, T), label('array Pomega_tensor'), 1e-12, 1e-12)
                        ctx.equal(pn.Pomega_Pair(spl, M[0], M[1], M[2], shape, n), pair, label('array Pomega_Pair'), 1e-12, 1e-12)
                if len(set(lst)) > 1 or n == 1:
                    ctx.distinct('distinct_nontrivial', (shape, lst))
            if n <= 2 or case['group'] == 'long':
                # sample lists given as Python/NumPy integers at graph construction
                lst = list(todo)[0] if case['group'] == 'long' else [tuple(s - 1 for s in shape)] * n
                spl = [[p[i] for p in lst] for i in range(3)]
                M, T = Ms[1], Ts[1]
                c = [tf1.constant(m.astype(fl)) for m in M]
                r = sess.run([pt.Pomega_mat(spl, c[d], shape, n, d) for d in range(3)] + [pt.Pomega_tensor([np.array(s) for s in spl], tf1.constant(T.astype(fl)), n)])
                for d in range(3):
                    ctx.equal(r[d], ref.pomega_mat(spl, M[d], shape, d), 'graph Pomega_mat on Python indices %s' % (lst,), tol, tol)
                ctx.equal(r[3], ref.pomega_tensor(spl, T), 'graph Pomega_tensor on array indices %s' % (lst,), tol, tol)
    ctx.sample(dict(shape=shape, n=n))


def sampler(shape, ctx):
    from tensorD.base import pitf_ops as pt, pitf_ops_numpy as pn
    pos = set(itertools.product(*[range(s) for s in shape]))
    for form in (tuple, list):
        np.random.seed(11)
        seen = set()
        for n in (1, 2, 3, 5, 8, 40):
            for rep in range(8 if n < 40 else 40):
                spl = pn.sample3D_rule(form(shape), n)
                judge_sample(ctx, 'array', shape, n, spl, pos, seen)
        ctx.check(seen == pos, lambda: 'array sampler never draws %s of shape %s in %d draws' % (sorted(pos - seen), shape, 1752))
        with train.world(7):
            seen = set()
            graph = {n: pt.sample3D_rule(form(shape), n) for n in (1, 3, 8, 40)}
            with tf1.Session() as s:
                for rep in range(40):
                    for n, ops in graph.items():
                        judge_sample(ctx, 'graph', shape, n, s.run(list(ops)), pos, seen)
        ctx.check(seen == pos, lambda: 'graph sampler never draws %s of shape %s' % (sorted(pos - seen), shape))


def judge_sample(ctx, what, shape, n, spl, pos, seen):
    ctx.count('evaluations')
    ctx.check(len(spl) == 3 and all(np.asarray(x).shape == (n,) for x in spl), lambda: '%s sampler: %s for %d samples of %s' % (what, spl, n, shape))
    for p in zip(*[np.asarray(x).tolist() for x in spl]):
        ctx.check(p in pos, lambda: '%s sampler draws %s outside of shape %s' % (what, p, shape))
        seen.add(p)


def generator(shape, ctx):
    from tensorD.base import pitf_ops as pt, pitf_ops_numpy as pn
    pairs = ((shape[0], shape[1]), (shape[1], shape[2]), (shape[2], shape[0]))
    np.random.seed(3)

    def judge(M, sh, rank, mode, what):
        M = np.asarray(M, float)
        ctx.count('evaluations')
        ctx.check(M.shape == tuple(sh), lambda: '%s: shape %s, requested %s' % (what, M.shape, sh))
        scale = max(1.0, np.abs(M).max())
        cs = M.sum(axis=0)
        if mode in ('B', 'C'):
            ctx.check(np.abs(cs).max() <= 2e-5 * scale, lambda: '%s %s of %s: column sums %s' % (what, mode, sh, cs))
            sv = np.linalg.svd(M, compute_uv=False)
            ctx.check(len(sv) <= rank or sv[rank] <= 1e-5 * scale, lambda: '%s %s of %s: rank above %d' % (what, mode, sh, rank))
        else:
            ctx.check(np.ptp(cs) <= 2e-5 * scale, lambda: '%s A of %s: column sums %s differ' % (what, sh, cs))
        ctx.check(M.size < 2 or sh[0] == 1 or np.abs(M).max() > 0, '%s %s of %s is zero' % (what, mode, sh))
        ctx.distinct('distinct_nontrivial', (what, sh, rank, mode))
    with train.world(7):
        fetch, meta = [], []
        for rank in (1, 2, 3):
            for sh in pairs:
                U, V = pn.generate(sh, rank)
                ctx.check(U.shape == (sh[0], rank) and V.shape == (sh[1], rank), 'array generate %s rank %d: %s %s' % (sh, rank, U.shape, V.shape))
                tu, tv = pt.generate(sh, rank)
                ctx.check(tu.get_shape().as_list() == [sh[0], rank] and tv.get_shape().as_list() == [sh[1], rank], 'graph generate %s rank %d' % (sh, rank))
                for mode in 'ABC':
                    for form in (tuple, list):
                        judge(pn.subspace(form(sh), rank, mode), sh, rank, mode, 'array subspace')
                        fetch.append(pt.subspace(form(sh), rank, mode))
                        meta.append((sh, rank, mode, 'graph subspace'))
            for ranks in itertools.permutations((1, 2, 3)) if rank == 1 else [(rank,) * 3]:
                for M, sh, r, mode in zip(pn.sample_rule4mat(shape, ranks[0], ranks[1], ranks[2], 4), pairs, ranks, 'ABC'):
                    judge(M, sh, r, mode, 'array sample_rule4mat')
                for M, sh, r, mode in zip(pt.sample_rule4mat(shape, *ranks), pairs, ranks, 'ABC'):
                    fetch.append(M)
                    meta.append((sh, r, mode, 'graph sample_rule4mat'))
        with tf1.Session() as s:
            for rep in range(2):
                for M, a in zip(s.run(fetch), meta):
                    judge(M, *a)


def errors(ctx):
    from tensorD.base import pitf_ops as pt
    spl = [[0], [0], [0]]
    with train.world(1):
        for f, a in ((pt.Pomega_mat, tf1.ones((2, 2))), (pt.adjoint_operator, tf1.ones((1,)))):
            for dim in (None, 3, -1):
                try:
                    f(spl, a, (2, 2, 2), 1, dim)
                except ValueError:
                    ctx.count('evaluations')
                else:
                    ctx.fail('%s accepts dim=%s' % (f.__name__, dim))
