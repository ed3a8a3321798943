"""C27: random starting points come from the seeded generators and nowhere else.

The seeds are an enumerated environment.  Every program of the table is executed
under every seed of the table, twice; results are compared bit for bit."""
import itertools
import random

from mc import train
import numpy as np
from mc.boot import tf1

RANDOM = ('CP', 'NCP', 'NTUCKER')
SHAPES = ([3, 4, 2], [4, 3], [2, 3, 2, 2], [5, 2, 3])
# words over b(uild) / t(rain 2 steps) / T(rain 4) / n(ew model of another kind, trained) / o(perations)
PROGRAMS = ('bt', 'bT', 'btt', 'btT', 'nbt', 'bnt', 'obt', 'bot', 'btbt', 'nnbT', 'bbT')


def cases(tier):
    q = tier == 'quick'
    seeds = [1, 2, 3] if q else list(range(8))
    for kind in train.KINDS:
        for s in SHAPES:
            for r in (1, 2, 3):
                yield dict(group='seeds', kind=kind, shape=s, r=r, seeds=seeds)
                if kind in RANDOM:
                    yield dict(group='columns', kind=kind, shape=s, r=r, seeds=list(range(1, 5 if q else 13)))
                    yield dict(group='fresh', kind=kind, shape=s, r=r, times=3 if q else 6)
        for p in PROGRAMS:
            for s in SHAPES[:2] if q else SHAPES:
                yield dict(group='programs', kind=kind, shape=s, r=2, word=p, seeds=seeds)
    for shape in ((2, 3, 2), (3, 3, 3), (4, 5, 3)):
        for n in (3, 6, 12):
            for v in ('graph', 'array'):
                yield dict(group='pitf', version=v, shape=list(shape), n=n, seeds=list(range(1, 5 if q else 9)))
    for shape in ([3, 4, 2], [4, 3]):
        for which in ('cp', 'tucker'):
            yield dict(group='generator', which=which, shape=shape, seeds=seeds)


def rank_of(kind, shape, r):
    if kind in ('CP', 'NCP'):
        return r
    if kind == 'NTUCKER':
        return [min(r + i % 2, 3) for i in range(len(shape))]
    return [min(r, s) for s in shape]


def reseed(seed):
    if seed is None:
        return
    tf1.set_random_seed(seed)
    np.random.seed(seed)
    random.seed(seed)


def equal(a, b):
    return train.same(a, b) is None


def step(m, kind, steps):
    if kind == 'HOSVD':
        m.train()
        return train.result(m)
    return train.train(m, steps)


def once(case, seed):
    """Results of the trainings of one execution of the program under one seed."""
    from tensorD.base import ops
    kind, X = case['kind'], train.tensor(case['shape'], 'generic', 3)
    rank = rank_of(kind, case['shape'], case['r'])
    out = []
    with train.world():
        reseed(seed)
        m = None
        for c in case.get('word', 'bt'):
            if c == 'b':
                m = train.build(kind, X, rank, tol=0.0)
            elif c in 'tT':
                out.append(step(m, kind, 2 if c == 't' else 4))
            elif c == 'n':
                other = train.KINDS[(train.KINDS.index(kind) + 1 + len(out)) % 5]
                o = train.build(other, X + 1, rank_of(other, case['shape'], 2), tol=0.0)
                step(o, other, 2)
            else:
                with train.RealSession(config=train.config()) as s:
                    s.run(ops.unfold(tf1.constant(X), 0))
        # what the caller draws next still comes from the caller's seeds
        after = [float(np.random.uniform()), random.random(), tf1.get_default_graph().seed]
    return out, after


def run(case, ctx):
    grp = case['group']
    if grp in ('seeds', 'programs'):
        got, rest = {}, {}
        for seed in case['seeds']:
            got[seed], rest[seed] = once(case, seed)
            again, more = once(case, seed)
            ctx.check(rest[seed] == more and more[2] == seed, lambda: '%s: draws after the program differ under the same seed %d: %s and %s' % (case, seed, rest[seed], more))
            ctx.count('transitions', 2 * len(case.get('word', 'bt')))
            ctx.count('traces_validated_against_impl', len(again))
            ctx.check(len(got[seed]) == len(again) and all(map(equal, got[seed], again)), lambda: '%s: the same program under the same seed %d gave other results: %s'
                      % (case, seed, [train.same(a, b) for a, b in zip(got[seed], again)]))
        for a, b in itertools.combinations(case['seeds'], 2):
            ctx.count('evaluations')
            ctx.check(all(x != y for x, y in zip(rest[a], rest[b])), lambda: '%s: the program reset a random generator of its caller: next draws %s under seed %d, %s under seed %d'
                      % (case, rest[a], a, rest[b], b))
            for i, (x, y) in enumerate(zip(got[a], got[b])):
                if case['kind'] in RANDOM:
                    ctx.check(not equal(x, y), lambda: '%s: training %d is the same under seeds %d and %d' % (case, i, a, b))
                else:
                    ctx.check(equal(x, y), lambda: '%s: training %d, which draws nothing, depends on the seed: %s' % (case, i, train.same(x, y)))
            ctx.distinct('states', (case['kind'], case['shape'], case['r'], case.get('word'), a, b))
    elif grp == 'fresh':
        X, rank = train.tensor(case['shape'], 'generic', 3), rank_of(case['kind'], case['shape'], case['r'])
        runs = []
        with train.world():
            ms = [train.build(case['kind'], X, rank, tol=0.0) for _ in range(2)]
            for _ in range(case['times']):
                for i, m in enumerate(ms):
                    runs.append((i, step(m, case['kind'], 2)))
        for (i, a), (j, b) in itertools.combinations(runs, 2):
            ctx.count('evaluations')
            ctx.check(not equal(a, b), lambda: '%s: without a seed, trainings of models %d and %d gave the same result' % (case, i, j))
        # two models under one seed draw values of their own
        with train.world():
            reseed(5)
            ms = [train.build(case['kind'], X, rank, tol=0.0) for _ in range(2)]
            a, b = [step(m, case['kind'], 2) for m in ms]
        ctx.check(not equal(a, b), lambda: '%s: two models of one program started from the same values' % case)
        ctx.distinct('states', (case['kind'], case['shape'], case['r']))
    elif grp == 'columns':
        columns(case, ctx)
    elif grp == 'pitf':
        pitf(case, ctx)
    else:
        generator(case, ctx)
    ctx.sample(case)


def columns(case, ctx):
    """Starting factors as seen in the variables: independent draws, not copies of one another."""
    kind, shape = case['kind'], case['shape']
    X, rank = train.tensor(shape, 'generic', 3), rank_of(kind, shape, case['r'])
    rs = [rank] * len(shape) if kind in ('CP', 'NCP') else rank
    for seed in case['seeds']:
        with train.world():
            reseed(seed)
            m = train.build(kind, X, rank, tol=0.0)
            h = train.Snapshots(2)
            with train.hooked(h):
                m.train(1)
        kept = []
        sizes = [(s, r) for s, r in zip(shape, rs)]
        for size in dict.fromkeys(sizes):
            arrays = {(v / np.linalg.norm(v)).round(6).tobytes(): v for st in h.states[-1:] for v in st.values()
                      if v.shape == size and np.all(np.isfinite(v)) and np.min(np.abs(v)) > 0 and len(np.unique(v)) > 1}
            if not arrays:
                ctx.note('starting values are not held in variables')
                continue
            kept.append(list(arrays.values()))
            ctx.check(size == (1, 1) or len(arrays) >= sizes.count(size), lambda: '%s seed %d: factors of size %s hold the same draws' % (case, seed, size))
            for v in arrays.values():
                ctx.count('evaluations')
                ctx.check(len(np.unique(v)) == v.size, lambda: '%s seed %d: a starting factor repeats values: %s' % (case, seed, v.tolist()))
                for i, j in itertools.combinations(range(v.shape[1]), 2):
                    a, b = v[:, i] / np.linalg.norm(v[:, i]), v[:, j] / np.linalg.norm(v[:, j])
                    ctx.check(np.max(np.abs(a - b)) > 1e-6, lambda: '%s seed %d: columns %d and %d of a starting factor are the same up to scale' % (case, seed, i, j))
        for us, vs in itertools.combinations(kept, 2):
            for a, b in itertools.product(us, vs):
                x, y = a.ravel(), b.ravel()
                n = min(x.size, y.size)
                ctx.check(n < 2 or np.max(np.abs(x[:n] / x[0] - y[:n] / y[0])) > 1e-6, lambda: '%s seed %d: two starting factors hold the same draws' % (case, seed))
        ctx.distinct('states', (kind, shape, case['r'], seed))


def pitf(case, ctx):
    from mc.checks import c21
    shape, n = tuple(case['shape']), case['n']
    T = c21.data(shape)

    def go(seed, times=1):
        if case['version'] == 'array':
            reseed(seed)
            return [np.array(c21.array_run(T, 0.9, 0.1, n, 2)[0]) for _ in range(times)]
        with train.world():
            reseed(seed)
            m = c21.pitf_model(T, 0.9, 0.1, n, 1, c21.Where(tf1.constant(T.astype(np.float32)), ctx.work))
            out = []
            for _ in range(times):
                h = c21.Duals(n)
                with train.hooked(h):
                    m.train(2)
                out.append(np.array([np.concatenate([np.ravel(v) for v in y]) for y in h.y[-1:]]))
            return out
    got = {}
    for seed in case['seeds']:
        got[seed] = go(seed)[0]
        ctx.count('evaluations')
        ctx.check(np.array_equal(got[seed], go(seed)[0]), lambda: '%s: the same program under the same seed %d gave other results' % (case, seed))
    if n >= 6:
        for a, b in itertools.combinations(case['seeds'], 2):
            ctx.count('evaluations')
            ctx.check(not np.array_equal(got[a], got[b]), lambda: '%s: the same samples under seeds %d and %d' % (case, a, b))
        for i, (a, b) in enumerate(itertools.combinations(go(None, 3), 2)):
            ctx.check(not np.array_equal(a, b), lambda: '%s: without a seed two recoveries drew the same samples' % case)
    ctx.distinct('states', (case['version'], shape, n))


def generator(case, ctx):
    from tensorD.demo import DataGenerator as g

    def make(level=0.1):
        with train.world():
            if case['which'] == 'cp':
                return np.array(g.synthetic_data_cp(list(case['shape']), 2, level))
            return np.array(g.synthetic_data_tucker(list(case['shape']), [2] * len(case['shape']), level))

    def seeded(seed):
        reseed(seed)
        return make(), make()
    got = {s: seeded(s) for s in case['seeds']}
    for s in case['seeds']:
        ctx.count('evaluations')
        ctx.check(all(map(np.array_equal, got[s], seeded(s))), lambda: '%s: other data under the same seed %d' % (case, s))
        ctx.check(not np.array_equal(*got[s]), lambda: '%s: two calls gave the same data' % case)
    for a, b in itertools.combinations(case['seeds'], 2):
        ctx.check(not np.array_equal(got[a][0], got[b][0]), lambda: '%s: the same data under seeds %d and %d' % (case, a, b))
    # the noise alone is a draw of its own as well
    noise = {}
    for s in case['seeds']:
        reseed(s)
        for call in (0, 1):
            st = np.random.get_state()
            base = make(0)
            np.random.set_state(st)
            noise[s, call] = make(5.0) - base
    for a, b in itertools.combinations(sorted(noise), 2):
        ctx.check(np.abs(noise[a] - noise[b]).max() > 1e-3, lambda: '%s: the same noise in (seed, call) %s and %s' % (case, a, b))
    ctx.distinct('states', (case['which'], case['shape']))
