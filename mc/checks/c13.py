"""C13: whatever made training stop, and whatever was logged, the things a
trained model reports belong together."""
import itertools

from mc import ref, train
from mc.checks import c14
import numpy as np


def expand(kind, r):
    if kind in ('CP', 'NCP'):
        return ref.kruskal(r['factors'], r['lambdas'])
    return ref.tucker(r['core'], r['factors'])


def consistent(kind, m, X, got, ctx, label, scripted=False):
    X = np.asarray(X, float)
    ctx.check(got['finish'] is True or got['finish'] == 1, '%s: not reported as finished' % label)
    ctx.check(got['full'] is not None and got['full'].shape == X.shape, '%s: shape of the reconstruction' % label)
    if not np.all(np.isfinite(got['full'])):
        return ctx.note('not finite')
    s = max(np.max(np.abs(X)), np.max(np.abs(got['full'])))
    want = expand(kind, got)
    ctx.check(np.all(np.abs(got['full'] - want) <= 2e-5 * s), lambda: '%s: reconstruction %s, the factors expand to %s'
              % (label, got['full'].tolist(), want.tolist()))
    for idx in itertools.product(*[range(d) for d in X.shape]):
        p = m.predict(*idx)
        ctx.check(np.ndim(p) == 0 and float(p) == float(got['full'][idx]), lambda: '%s: predict%s = %r, the entry is %r'
                  % (label, idx, p, got['full'][idx]))
    ctx.count('predictions', X.size)
    if 'hist' in got:
        n = np.sqrt(np.mean(X[X != 0] ** 2))
        last = got['hist'][-1]
        ctx.check(abs(last[0] - ref.rmse_nz(X, got['full'])) <= 2e-5 * n, lambda: '%s: last loss %r, of the reconstruction %r'
                  % (label, last[0], ref.rmse_nz(X, got['full'])))
        if not scripted:
            ctx.check(abs(last[1] - ref.relres(X, got['full'])) <= 2e-5, lambda: '%s: last residual %r, of the reconstruction %r'
                      % (label, last[1], ref.relres(X, got['full'])))


SHAPES = ([3, 4, 5], [2, 3], [1, 3, 2], [2, 3, 2, 2], [3, 3, 3])


def cases(tier):
    q = tier == 'quick'
    for kind in train.KINDS:
        for s in SHAPES + (() if q else ([2, 2, 2, 2, 2], [6, 5, 4], [1, 1, 4])):
            for r in (1, 2) if q else (1, 2, 3):
                for d in ('generic', 'zeros', 'signed', 'lowrank'):
                    for vi, verbose in ((-1, False), (2, False), (-1, True)) if q else ((-1, False), (1, False), (2, False), (3, False), (3, True)):
                        yield dict(run='natural', kind=kind, shape=s, r=r, data=d, vi=vi, verbose=verbose)
        for s, r in (([12, 3, 2], 2), ([2, 13, 3], 3), ([3, 2, 2, 2, 2], 2), ([2] * 6, 1), ([3, 4, 25], 5), ([30, 7], 3)):
            yield dict(run='natural', kind=kind, shape=s, r=r, data='generic', vi=2, verbose=False)
        if kind == 'HOSVD':
            continue
        for vi, verbose in ((-1, False), (1, False), (2, False), (3, False), (4, False), (-1, True)):
            for n in range(1, 7 if q else 9):
                yield dict(run='scripted', kind=kind, vi=vi, verbose=verbose, stop=n)


def rank_of(kind, shape, r):
    if kind in ('CP', 'NCP'):
        return r
    if kind == 'NTUCKER':
        return [(r + i) % 3 + 1 for i in range(len(shape))]
    out = [min(r, s) for s in shape]
    while True:                       # admissible: each at most the product of the others
        bad = [i for i in range(len(out)) if out[i] > np.prod(out) / out[i]]
        if not bad:
            return out
        out[bad[0]] -= 1


def run(case, ctx):
    kind = case['kind']
    if case['run'] == 'natural':
        shape = case['shape']
        X = train.tensor(shape, case['data'], 5).astype(np.float32)
        rank = rank_of(kind, shape, case['r'])
        for tol in (0.0, 1e-3, 0.08, 0.5) if kind != 'HOSVD' else (0.0,):
            with train.world(2):
                m = train.build(kind, X, rank, tol=tol, vi=case['vi'], verbose=case['verbose'])
                for steps in (6, 1, 3) if kind != 'HOSVD' else (None,):
                    if kind == 'HOSVD':
                        m.train()
                        got = train.result(m)
                    else:
                        got = train.train(m, steps)
                        ctx.check(1 <= len(got['hist']) <= steps, 'history of %d entries after at most %d steps' % (len(got['hist']), steps))
                        ctx.distinct('distinct_nontrivial', (kind, shape, case['r'], case['data'], tol, len(got['hist']), steps))
                        ctx.sample(dict(case, tol=tol, steps=steps, executed=len(got['hist'])))
                    ctx.count('evaluations')
                    consistent(kind, m, X, got, ctx, '%s %s tol=%g steps=%s' % (kind, shape, tol, steps))
        return
    # forced stops: by the residual in step n, and by three stalls ending in step n
    g, m, on, rn = c14.model(kind, case['vi'], case['verbose'])
    if not on or not rn:
        return ctx.note('objective or residual is not fetched: nothing to answer')
    n = case['stop']
    with g.as_default():
        try:
            words = [['=a'] + ['Da'] * (n - 1)]
            words.append(words[0][:n - 1] + [words[0][n - 1][0] + 's'])
            words.append(['=a'] + ['Ua'] * (n - 1))
            words.append(words[2][:n - 1] + [words[2][n - 1][0] + 's'])
            if n >= 4:
                for c in 'du=':
                    words.append(['=a'] + ['Da'] * (n - 4) + [c + 'a'] * 3)
            for w in words:
                for limit in (n, n + 3):
                    seq = c14.answers_of(kind, 14.0, w)
                    h = c14.Script(on, rn, lambda k: seq[min(k, len(seq) - 1)])
                    with train.hooked(h):
                        hist = m.train(limit)
                    got = train.result(m, hist)
                    ctx.count('evaluations')
                    ctx.distinct('distinct_nontrivial', (kind, case['vi'], case['verbose'], tuple(w), limit))
                    ctx.check(len(hist) == h.step, '%s: history has %d entries for %d executed steps' % (kind, len(hist), h.step))
                    consistent(kind, m, c14.data(), got, ctx, '%s stopped in step %d of %d, vi=%d verbose=%s'
                               % (kind, len(hist), limit, case['vi'], case['verbose']), True)
        finally:
            train.close_all()
