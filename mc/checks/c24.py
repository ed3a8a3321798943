"""C24: the event files of every training, read back from disk."""
import glob
import itertools
import os

from mc import ref, train
import numpy as np
from mc.boot import tf1

SHAPE = (3, 4, 2)
RANK = {'CP': 2, 'NCP': 2, 'NTUCKER': [2, 2, 2], 'HOSVD': [2, 2, 2], 'HOOI': [2, 2, 2]}
_n = itertools.count()


def cases(tier):
    q = tier == 'quick'
    for kind in train.ITER:
        for vi in (-1, 1, 2, 3, 4, 5, 7, 10, 100):
            for verbose in (False, True):
                yield dict(group='cadence', kind=kind, vi=vi, verbose=verbose, steps=list(range(1, 9 if q else 13)) + ([23] if q else [20, 21, 23, 30, 41]))
        for tol in (0.9, 0.3, 0.1, 0.03, 0.01, 1e-3, 1e-4):
            for vi in (-1, 2, 3):
                yield dict(group='stop', kind=kind, vi=vi, tol=tol)
    yield dict(group='hosvd')
    for kinds in itertools.product(train.KINDS, repeat=2):
        yield dict(group='two', kinds=list(kinds))
    for kinds in (('CP', 'NCP', 'HOOI'), ('NTUCKER', 'CP', 'HOSVD'), ('HOOI', 'HOOI', 'NCP')):
        yield dict(group='two', kinds=list(kinds))
    for vi in (-1, 1, 2, 3):
        for verbose in (False, True):
            yield dict(group='pitf', vi=vi, verbose=verbose)


class Env(object):
    def __new__(cls, X):
        from tensorD.factorization.env import Environment

        class E(Environment):
            summary_path = property(lambda self: self.path)
        e = E(train.Prov(X), None)
        e.path = None
        return e


def flush():
    for w in train._writers:
        w.close()
    del train._writers[:]


def read(path):
    """[(step, {tag: value})] of the scalar events below path."""
    out = []
    for f in sorted(glob.glob(os.path.join(path, '**', '*tfevents*'), recursive=True)):
        for e in tf1.train.summary_iterator(f):
            vals = [(v.tag, v.simple_value if v.HasField('simple_value') else tf1.make_ndarray(v.tensor)) for v in e.summary.value]
            if vals:
                out.append((e.step, vals))
    return out


def values(ctx, label, vals, two=True):
    loss = [v for t, v in vals if 'loss' in t.lower()]
    rel = [v for t, v in vals if 'res' in t.lower() and 'loss' not in t.lower()]
    ctx.check(len(vals) == 1 + two and len(loss) == 1 and len(rel) == int(two), lambda: '%s: logged values %s' % (label, vals))
    return loss + rel


def judge(ctx, label, path, hist, steps, vi, verbose):
    ev = read(path)
    n = len(hist)
    want = [k for k in range(1, n + 1) if k == 1 or k == steps or verbose or (vi > 0 and k % vi == 0)]
    got = [e[0] for e in ev]
    ctx.check(got == want, lambda: '%s: logged steps %s, expected %s (%d of %d steps executed)' % (label, got, want, n, steps))
    for step, vals in ev:
        v = values(ctx, '%s step %d' % (label, step), vals)
        h = [float(x) for x in hist[step - 1]]
        ctx.check(all(same(x, y) for x, y in zip(v, h)), lambda: '%s: logged %s at step %d, history holds %s' % (label, v, step, h))
        ctx.count('evaluations')
    ctx.distinct('distinct_nontrivial', label)


def same(x, y):
    return abs(x - y) <= 1e-6 * max(1e-3, abs(x), abs(y)) or (np.isnan(x) and np.isnan(y))


def fresh(ctx):
    return os.path.join(ctx.work, 'log%d' % next(_n))


def run(case, ctx):
    grp = case['group']
    if grp in ('cadence', 'stop'):
        kind = case['kind']
        X = train.tensor(SHAPE, 'generic' if grp == 'cadence' else 'lowrank', 4)
        tol, vi, verbose = case.get('tol', 0.0), case['vi'], case.get('verbose', False)
        with train.world(2):
            env = Env(X)
            m = train.classes(kind)[0](env)
            m.build_model(train.args_of(kind, RANK[kind], tol, vi, verbose))
            for steps in case.get('steps', (4, 12, 30)):
                env.path = p = fresh(ctx)
                hist = m.train(steps)
                flush()
                judge(ctx, '%s tol=%s validation_internal=%s verbose=%s steps=%d' % (kind, tol, vi, verbose, steps), p, hist, steps, vi, verbose)
                if len(hist) < steps:
                    ctx.count('early_stops')
    elif grp == 'hosvd':
        for seed in range(4):
            X = train.tensor(SHAPE, 'zeros', seed)
            with train.world(2):
                env = Env(X)
                m = train.classes('HOSVD')[0](env)
                m.build_model(train.args_of('HOSVD', [2, 2, 1]))
                for rep in range(2):
                    env.path = p = fresh(ctx)
                    m.train()
                    flush()
                    hosvd(ctx, 'HOSVD seed %d' % seed, p, X, m.full)
    elif grp == 'two':
        two(case['kinds'], ctx)
    else:
        pitf(case['vi'], case['verbose'], ctx)
    ctx.sample(case)


def hosvd(ctx, label, path, X, full):
    ev = read(path)
    ctx.check([e[0] for e in ev] == [1], lambda: '%s: logged steps %s' % (label, [e[0] for e in ev]))
    v = values(ctx, label, ev[0][1], False)
    want = ref.rmse_nz(np.asarray(X, np.float32), full)
    ctx.check(abs(v[0] - want) <= 1e-5 * max(1, abs(want)), lambda: '%s: logged loss %s, expected %s' % (label, v, want))
    ctx.count('evaluations')
    ctx.distinct('distinct_nontrivial', label)


def two(kinds, ctx):
    """Several models in one graph (and in graphs of their own), trained in both orders, twice."""
    for shared in (True, False):
        with train.world(2) as g0:
            ms = []
            for i, k in enumerate(kinds):
                g = g0 if shared else tf1.Graph()
                with g.as_default():
                    X = train.tensor(SHAPE, 'generic', 10 + i)
                    env = Env(X)
                    m = train.classes(k)[0](env)
                    m.build_model(train.args_of(k, RANK[k], 0.0, 2))
                    ms.append((k, g, X, env, m))
            for order in (range(len(ms)), reversed(range(len(ms)))):
                done = []
                for i in order:
                    k, g, X, env, m = ms[i]
                    with g.as_default():
                        env.path = p = fresh(ctx)
                        h = m.train() if k == 'HOSVD' else m.train(5)
                    done.append((i, p, h))
                flush()
                for i, p, h in done:
                    k, g, X, env, m = ms[i]
                    label = 'model %d (%s) of %s in %s graph' % (i, k, kinds, 'one' if shared else 'its own')
                    if k == 'HOSVD':
                        hosvd(ctx, label, p, X, m.full)
                    else:
                        judge(ctx, label, p, h, 5, 2, False)


def pitf(vi, verbose, ctx):
    from mc.checks import c21
    T = c21.data((2, 3, 2))
    with train.world(5):
        env = c21.Where(tf1.constant(T.astype(np.float32)), None)
        m = c21.pitf_model(T, 0.9, 0.1, 4, vi, env, verbose)
        for steps in list(range(1, 8)) + [13]:
            env.path = p = fresh(ctx)
            m.train(steps)
            flush()
            ev = read(p)
            want = [k for k in range(1, steps + 1) if k in (1, steps) or verbose or (vi > 0 and k % vi == 0)]
            label = 'PITF validation_internal=%d verbose=%s, %d steps' % (vi, verbose, steps)
            ctx.check([e[0] for e in ev] == want, lambda: '%s: logged steps %s, expected %s' % (label, [e[0] for e in ev], want))
            ctx.count('evaluations')
            ctx.distinct('distinct_nontrivial', label)
