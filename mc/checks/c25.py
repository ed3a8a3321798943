"""C25: quality of the decompositions, judged from the reported history and
reconstruction only -- no reference trajectory involved."""
from mc import ref, train, traj
from mc.checks import c12
import numpy as np

EPS = 3e-5


def cases(tier):
    q = tier == 'quick'
    steps = 15 if q else 60
    seeds = (1, 2) if q else range(1, 9)
    for s in c12.shapes(tier):
        for d in ('generic', 'signed', 'zeros', 'lowrank'):
            for seed in seeds:
                yield dict(kind='ALL', shape=s, data=d, seed=seed, steps=steps)


def mode_tails(X, ranks):
    out = []
    for n in range(X.ndim):
        sv = np.linalg.svd(ref.unfold_fast(X, n), compute_uv=False)
        out.append(float(np.sum(sv[ranks[n]:] ** 2)))
    return out


def monotone(hist, label, ctx, eps=EPS):
    rel = [h[1] for h in hist]
    for a, b in zip(rel, rel[1:]):
        if not np.isfinite(a) or not np.isfinite(b):
            return ctx.note('not finite')
        ctx.check(b <= a + eps, lambda: '%s: the residual grew from %r to %r: %s' % (label, a, b, rel))


def run(case, ctx):
    shape = tuple(case['shape'])
    X = train.tensor(shape, case['data'], case['seed']).astype(np.float32)
    Xd = X.astype(float)
    n = np.linalg.norm(Xd.ravel())
    # CP-ALS: monotone while the normal equations are solvable in float32
    for r in (1, 2, 3):
        with train.world(case['seed']):
            m = train.build('CP', X, r, tol=0.0)
            got = train.train(m, case['steps'])
            ctx.count('evaluations')
            A = [np.asarray(f, float) for f in got['factors']]
            cond = max(np.linalg.cond(ref.hadamard([A[k].T @ A[k] for k in range(X.ndim) if k != i])) for i in range(X.ndim)) \
                if all(np.all(np.isfinite(a)) for a in A) else np.inf
            if cond > 1e4:
                ctx.note('normal equations ill-conditioned')
            else:
                monotone(got['hist'], 'CP %s rank %d %s' % (shape, r, case['data']), ctx, EPS + 6e-7 * cond)
                ctx.distinct('distinct_nontrivial', ('CP', shape, r, case['data'], case['seed']))
    # the first step of the non-negative models cannot raise the objective
    for kind in ('NCP', 'NTUCKER'):
        rank = traj.rank_of(kind, shape, 2)
        with train.world(case['seed']):
            m = train.build(kind, X, rank, tol=0.0)
            s = train.Snapshots()
            with train.hooked(s):
                got = train.train(m, 1)
            start = []
            for st in s.states:
                for init in train.candidates(st, traj.shapes_of(kind, X, rank)):
                    if traj.init_ok(kind, X, rank, init):
                        F = ref.kruskal(init) if kind == 'NCP' else ref.tucker(init[-1], init[:-1])
                        start.append(ref.relres(Xd, F))
            ctx.count('evaluations')
            if start and np.isfinite(got['hist'][0][1]):
                ctx.check(got['hist'][0][1] <= max(start) + EPS, lambda: '%s %s: residual %r after the first step, %r before'
                          % (kind, shape, got['hist'][0][1], start))
                ctx.distinct('distinct_nontrivial', (kind, shape, case['data'], case['seed']))
    for i, ranks in enumerate(c12.rank_vectors(shape)):
        if len(shape) > 2 and np.prod(shape) > 12 and (i + case['seed']) % 4 and list(ranks) != list(shape):
            continue
        with train.world(1):
            if not all(r <= min(s, int(np.prod(shape)) // s) for r, s in zip(ranks, shape)):
                continue
            m = train.build('HOSVD', X, ranks)
            m.train()
            ctx.count('evaluations')
            err = float(np.sum((m.full.astype(float) - Xd) ** 2))
            tails = mode_tails(Xd, ranks)
            slack = EPS * n * n
            label = 'HOSVD %s ranks %s %s' % (shape, ranks, case['data'])
            ctx.check(err <= sum(tails) + slack, lambda: '%s: squared error %r above the sum of discarded values %r' % (label, err, tails))
            ctx.check(err >= max(tails) - slack, lambda: '%s: squared error %r below the largest discarded sum %r' % (label, err, tails))
            if list(ranks) == list(shape):
                ctx.check(np.sqrt(err) <= EPS * n, lambda: '%s: full ranks leave an error of %r' % (label, np.sqrt(err)))
            ctx.distinct('distinct_nontrivial', ('HOSVD', shape, tuple(ranks), case['data'], case['seed']))
            if not c12.admissible(shape, ranks):
                continue
            h = train.build('HOOI', X, ranks, tol=0.0)
            got = train.train(h, case['steps'] // 3)
            label = 'HOOI %s ranks %s %s' % (shape, ranks, case['data'])
            ctx.count('evaluations')
            monotone(got['hist'], label, ctx)
            ctx.check(got['hist'][-1][1] <= np.sqrt(err) / n + EPS, lambda: '%s: residual %r, HOSVD has %r' % (label, got['hist'][-1][1], np.sqrt(err) / n))
            if list(ranks) == list(shape):
                ctx.check(got['hist'][-1][1] <= EPS * 4, lambda: '%s: full ranks leave a residual of %r' % (label, got['hist'][-1][1]))
            # no reconstruction of these ranks can be better than the worst mode allows
            ctx.check(got['hist'][-1][1] ** 2 * n * n >= max(tails) - slack, lambda: '%s: residual %r below the optimum' % (label, got['hist'][-1][1]))
            ctx.sample(dict(shape=shape, ranks=list(ranks), hosvd=np.sqrt(err) / n, hooi=got['hist'][-1][1]))
