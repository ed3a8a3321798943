"""C22: synthetic data.

Histories of generator calls under a controlled random source: the uniform
draws are enumerated (answers from a small alphabet), the normal draws too, and
free-running calls are compared under equal seeds and different noise levels."""
import itertools

from mc import ref, train
import numpy as np

SHAPES = [(1,), (3,), (2, 2), (1, 3), (3, 2), (2, 3, 2), (3, 1, 2), (3, 4, 2), (2, 2, 2, 2), (2, 3, 1, 2), (4, 3, 5)]


def rank_sets(kind, shape, tier):
    if kind == 'cp':
        return [1, 2, 3, 4]
    top = [sorted(set((1, min(2, s), s, s + 1))) for s in shape]
    out = list(itertools.product(*top))
    return out if tier != 'quick' else out[:24] + out[-1:]


def cases(tier):
    for kind in ('cp', 'tucker'):
        for shape in SHAPES:
            for r in rank_sets(kind, shape, tier):
                yield dict(kind=kind, shape=shape, rank=r, group='free')
        for shape in ((2, 2), (2, 1), (1, 2), (2, 1, 2), (1, 1, 1), (2, 2, 2)):
            for r in ([1, 2] if kind == 'cp' else list(itertools.product((1, 2), repeat=len(shape)))):
                yield dict(kind=kind, shape=shape, rank=r, group='scripted')
        yield dict(kind=kind, group='default')


def gen(kind, shape, rank, *a):
    from tensorD.demo import DataGenerator as g
    if kind == 'cp':
        return np.asarray(g.synthetic_data_cp(shape, rank, *a))
    return np.asarray(g.synthetic_data_tucker(shape, list(rank) if isinstance(shape, list) else tuple(rank), *a))


class Script(object):
    """Answers np.random.rand / randn from a script, recording what was delivered."""

    def __init__(self, answer, normal):
        self.answer, self.normal, self.u, self.n = answer, normal, [], []

    def rand(self, *shape):
        v = self.answer(len(self.u), shape)
        self.u.append(v.copy())
        return v

    def randn(self, *shape):
        v = self.normal(shape)
        self.n.append(v.copy())
        return v

    def __enter__(self):
        self.old = np.random.rand, np.random.randn
        np.random.rand, np.random.randn = self.rand, self.randn
        return self

    def __exit__(self, *a):
        np.random.rand, np.random.randn = self.old


def expansion(kind, u, shape, rank):
    """The noiseless tensor for the delivered uniform draws, or None if they are not recognisable."""
    shapes = [x.shape for x in u]
    if kind == 'cp':
        if shapes != [(s, rank) for s in shape]:
            return None
        return ref.kruskal(u)
    f = [(s, r) for s, r in zip(shape, rank)]
    if shapes == [tuple(rank)] + f:
        return ref.tucker(u[0], u[1:])
    if shapes == f + [tuple(rank)]:
        return ref.tucker(u[-1], u[:-1])
    return None


def run(case, ctx):
    kind = case['kind']
    if case['group'] == 'default':
        return default(kind, ctx)
    shape = tuple(case['shape'])
    rank = case['rank'] if kind == 'cp' else tuple(case['rank'])
    label = '%s data of shape %s rank %s' % (kind, shape, rank)
    if case['group'] == 'scripted':
        return scripted(kind, shape, rank, label, ctx)
    with train.world():
        for form in (list, tuple):
            for seed in (1, 2, 3):
                def draw(noise):
                    np.random.seed(seed)
                    D = gen(kind, form(shape), rank, noise)
                    ctx.check(D.shape == shape and np.all(np.isfinite(D)), lambda: '%s: shape %s' % (label, D.shape))
                    ctx.count('evaluations')
                    return D
                D0, D1, D2, D4 = draw(0), draw(0.25), draw(0.5), draw(4.0)
                ctx.check(np.all(D0 >= 0), lambda: '%s without noise: negative entries %s' % (label, D0.tolist()))
                scale = max(1.0, np.abs(D4).max())
                for n, s in enumerate(shape):
                    r = rank if kind == 'cp' else rank[n]
                    sv = np.linalg.svd(ref.unfold_fast(D0, n), compute_uv=False)
                    ctx.check(len(sv) <= r or sv[r] <= 1e-5 * max(sv[0], 1e-30), lambda: '%s without noise: rank of mode %d above %d (%s)' % (label, n, r, sv))
                ctx.check(np.any(D0 != 0), '%s without noise is zero' % label)
                N = D1 - D0
                tol = 1e-5 * scale
                ctx.check(N.min() >= -tol, lambda: '%s: noise lowers entries by %s' % (label, N.min()))
                ctx.check(np.all(np.abs((D2 - D0) - 2 * N) <= tol) and np.all(np.abs((D4 - D0) - 16 * N) <= 20 * tol),
                          lambda: '%s: noise is not proportional to the level: %s at 0.25, %s at 0.5, %s at 4' % (label, N.tolist(), (D2 - D0).tolist(), (D4 - D0).tolist()))
                ctx.check(N.size < 20 or N.max() > 0, '%s: noise level has no effect' % label)
                if N.size >= 8:
                    ctx.check(N.max() <= 0.25 * 8, lambda: '%s: noise up to %s at level 0.25' % (label, N.max()))
                if N.size >= 8:
                    # the noise of the next call: the state left behind does not depend on the level (see below)
                    state = np.random.get_state()
                    E0 = gen(kind, form(shape), rank, 0)
                    np.random.set_state(state)
                    E4 = gen(kind, form(shape), rank, 4.0)
                    ctx.check(np.abs((E4 - E0) - (D4 - D0)).max() > 1e-3, '%s: two successive calls add the same noise' % label)
                # later calls draw new data; re-seeding replays the same, whatever was generated before
                E = gen(kind, form(shape), rank, 0)
                ctx.check(not np.array_equal(E, D0), '%s: two successive calls return the same data' % label)
                ctx.check(np.array_equal(draw(0), D0) and np.array_equal(draw(0.5), D2), '%s: the same seed gives other data after other calls' % label)
                np.random.seed(seed)
                gen(kind, form(shape), rank, 0.1)
                a = np.random.rand(3)
                np.random.seed(seed)
                gen(kind, form(shape), rank, 0.7)
                ctx.check(np.array_equal(a, np.random.rand(3)), '%s: the generator state left behind depends on the noise level' % label)
                ctx.distinct('distinct_nontrivial', (kind, shape, rank, seed))
    ctx.sample(case)


def scripted(kind, shape, rank, label, ctx):
    alphabet = (0.0, 0.5, 0.75)

    def fill(word):
        it = itertools.cycle(word)
        return lambda k, s: np.array([next(it) for _ in range(int(np.prod(s)))]).reshape(s)
    normals = (lambda s: np.zeros(s), lambda s: -np.ones(s), lambda s: np.ones(s), lambda s: (np.arange(np.prod(s)) % 3 - 1.0).reshape(s) * 2)
    with train.world():
        for word in itertools.product(alphabet, repeat=3):
            for ni, nf in enumerate(normals):
                for level in (0, 0.5, 2.0):
                    if (sum(word) + ni + level) % 1 and level == 2.0 or (level == 0 and ni not in (1, 2)):
                        continue
                    with Script(fill(word), nf) as s:
                        D = gen(kind, list(shape), rank, level)
                    base = expansion(kind, s.u, shape, rank)
                    if base is None or [x.shape for x in s.n] != [shape]:
                        ctx.note('draws not recognised')
                        continue
                    ctx.count('evaluations')
                    N = D - base
                    want = np.maximum(0, level * s.n[0])
                    ctx.check(D.shape == shape and np.all(np.abs(N - want) <= 1e-5 * max(1.0, np.abs(D).max())),
                              lambda: '%s from draws %s, normal draws %s, level %s: got %s, expected %s'
                              % (label, [x.tolist() for x in s.u], s.n[0].tolist(), level, D.tolist(), (base + want).tolist()))
                    if np.any(base != 0):
                        ctx.distinct('distinct_nontrivial', (kind, shape, rank, word, ni, level))


def default(kind, ctx):
    """The default noise level is a small positive one."""
    with train.world():
        shape, rank = [4, 3, 5], 2 if kind == 'cp' else [2, 2, 2]
        np.random.seed(5)
        A = gen(kind, shape, rank)
        np.random.seed(5)
        B = gen(kind, shape, rank, 0.1 if kind == 'cp' else 0.04)
        ctx.check(np.array_equal(A, B), '%s: the default noise level is not %s' % (kind, 0.1 if kind == 'cp' else 0.04))
        ctx.count('evaluations')
        ctx.distinct('distinct_nontrivial', (kind, 'default'))
