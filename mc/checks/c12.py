"""C12: HOSVD and HOOI against subspace references (float64 SVD), for every
admissible rank vector of every small shape."""
import itertools

from mc import ref, train
import numpy as np

GAP = 1e-3


def admissible(shape, ranks):
    n = len(shape)
    for i in range(n):
        others = int(np.prod([ranks[j] for j in range(n) if j != i]))
        if ranks[i] > shape[i] or ranks[i] > others:
            return False
    return True


def rank_vectors(shape):
    for r in itertools.product(*[range(1, s + 1) for s in shape]):
        yield list(r)


def shapes(tier):
    out = [s for n in (2, 3) for s in itertools.product((1, 2, 3), repeat=n) if np.prod(s) > 1]
    out += [(2, 2, 2, 2), (2, 3, 2, 2), (3, 4, 5), (4, 3), (2, 1, 3, 2)]
    if tier != 'quick':
        out += list(itertools.product((2, 3), repeat=4)) + [(4, 4, 4), (5, 3, 4), (2, 2, 2, 2, 2), (3, 2, 1, 2, 2)]
    return [list(s) for s in dict.fromkeys(out)]


WIDE = [((12, 3, 2), [[1, 1, 1], [4, 2, 2], [6, 3, 2], [3, 3, 1], [2, 1, 2]]), ((2, 11, 3), [[2, 5, 3], [1, 2, 2], [2, 6, 3], [2, 3, 2]]),
        ((3, 2, 13), [[2, 2, 4], [3, 2, 6], [1, 1, 1], [3, 1, 3]]), ((6, 5, 7), [[2, 3, 4], [5, 5, 5], [1, 4, 3], [6, 5, 7]]),
        ((30, 4), [[2, 2], [4, 4], [1, 1]]), ((2,) * 6, [[1] * 6, [2] * 6, [1, 2, 2, 1, 2, 2], [2, 1, 2, 2, 2, 1]]),
        ((3, 2, 2, 3, 2), [[2, 2, 1, 3, 2], [3, 2, 2, 3, 2], [1, 2, 2, 2, 1]]), ((2, 1, 2, 1, 3, 1, 2), [[2, 1, 2, 1, 2, 1, 2], [1, 1, 2, 1, 2, 1, 1]])]


def cases(tier):
    for s, rs in (((3, 4, 5), [[2, 2, 2], [1, 1, 1], [3, 2, 4]]), ((4, 3), [[2, 2]]), ((2, 3, 2, 2), [[2, 2, 2, 2], [1, 2, 2, 1]])):
        for d in ('generic', 'zeros'):
            yield dict(shape=list(s), ranks=rs, data=d, long=True)
    for s, rs in WIDE:
        for d in ('generic', 'zeros') if tier == 'quick' else ('generic', 'signed', 'zeros', 'ints', 'lowrank'):
            yield dict(shape=list(s), ranks=rs, data=d)
    for s in shapes(tier):
        rs = list(rank_vectors(s))
        if tier == 'quick' and len(rs) > 30:
            rs = [r for i, r in enumerate(rs) if i % 3 == 0]
        for i in range(0, len(rs), 8):
            for d in ('generic', 'signed') if tier == 'quick' else ('generic', 'signed', 'zeros', 'ints', 'lowrank'):
                yield dict(shape=s, ranks=rs[i:i + 8], data=d)


def projector(a):
    q, _ = np.linalg.qr(np.asarray(a, float))
    return q @ q.T


def structure(kind, X, ranks, got, ctx, label):
    X = np.asarray(X, float)
    n = np.max(np.abs(X)) * np.sqrt(X.size)
    N = X.ndim
    ctx.check([f.shape for f in got['factors']] == [(s, r) for s, r in zip(X.shape, ranks)] and got['core'].shape == tuple(ranks),
              lambda: '%s: shapes %s core %s' % (label, [f.shape for f in got['factors']], got['core'].shape))
    for k, f in enumerate(got['factors']):
        ctx.check(np.allclose(f.T @ f, np.eye(ranks[k]), atol=2e-5), lambda: '%s: factor %d not orthonormal: %s' % (label, k, f.tolist()))
    core = ref.ttm(X, [np.asarray(f, float) for f in got['factors']], range(N), transpose=True)
    ctx.check(np.all(np.abs(core - got['core']) <= 2e-5 * n), lambda: '%s: core %s instead of %s' % (label, got['core'].tolist(), core.tolist()))
    full = ref.tucker(got['core'], got['factors'])
    ctx.check(np.all(np.abs(full - got['full']) <= 2e-5 * n), lambda: '%s: reconstruction %s instead of %s' % (label, got['full'].tolist(), full.tolist()))


def subspaces(want, gap, got, ctx, label):
    if gap < GAP:
        return ctx.note('leading subspace not unique (gap below 1e-3)')
    for k, (f, w) in enumerate(zip(got['factors'], want)):
        d = float(np.max(np.abs(projector(f) - projector(w))))
        ctx.check(d <= 1e-5 + 1e-5 / gap, lambda: '%s: factor %d spans %s, the leading subspace is %s (off by %.2g)'
                  % (label, k, np.round(projector(f), 5).tolist(), np.round(projector(w), 5).tolist(), d))
    ctx.count('traces_validated_against_impl')


def run(case, ctx):
    shape = tuple(case['shape'])
    X = train.tensor(shape, case['data'], 9).astype(np.float32)
    Xd = X.astype(float)
    for ranks in case['ranks']:
        with train.world(1):
            # HOSVD needs r_n <= min(I_n, product of the other I)
            ok = all(r <= min(s, int(np.prod(shape)) // s) for r, s in zip(ranks, shape))
            if ok:
                m = train.build('HOSVD', X, ranks)
                m.train()
                got = train.result(m)
                label = 'HOSVD %s ranks %s' % (shape, ranks)
                ctx.count('evaluations')
                structure('HOSVD', X, ranks, got, ctx, label)
                h = ref.HOSVDModel(Xd, ranks)
                h.step()
                subspaces(h.A, h.gap, got, ctx, label)
                ctx.distinct('distinct_nontrivial', ('HOSVD', shape, tuple(ranks), case['data']))
        if admissible(shape, ranks):
            with train.world(1):
                m = train.build('HOOI', X, ranks, tol=0.0)
                for steps in (1, 2, 4, 130) if case.get('long') else (1, 2, 4):
                    got = train.train(m, steps)
                    label = 'HOOI %s ranks %s steps %d' % (shape, ranks, steps)
                    ctx.count('evaluations')
                    structure('HOOI', X, ranks, got, ctx, label)
                    h = ref.HOOIModel(Xd, ranks)
                    r = ref.simulate(h, Xd, steps, 0.0)
                    ctx.check(len(got['hist']) == steps, '%s: %d steps' % (label, len(got['hist'])))
                    subspaces(h.A, h.gap, got, ctx, label)
                    if h.gap >= GAP:
                        n = np.sqrt(np.mean(Xd[Xd != 0] ** 2))
                        for k, (a, b) in enumerate(zip(got['hist'], r['hist'])):
                            t = 1e-5 + 1e-5 / h.gap
                            ctx.check(abs(a[0] - b[0]) <= t * n and abs(a[1] - b[1]) <= t, lambda: '%s: history of step %d is %s instead of %s'
                                      % (label, k + 1, a, list(b)))
                    ctx.distinct('distinct_nontrivial', ('HOOI', shape, tuple(ranks), case['data'], steps))
                    ctx.sample(dict(shape=shape, ranks=ranks, data=case['data'], steps=steps, history=got['hist']))
