"""Trajectory conformance of the iterative models: every training run must be a
run of the reference model from one of the initial states observed in it."""
import numpy as np

from . import ref, train

COND = 3e4        # beyond this, float32 normal equations carry no information
LOOSE = 1e-2      # tolerance beyond which a comparison would say nothing


def model_of(kind, X, rank, init):
    if kind == 'CP':
        return ref.CPModel(X, init)
    if kind == 'NCP':
        return ref.NCPModel(X, init)
    if kind == 'NTUCKER':
        return ref.NTuckerModel(X, init[:-1], init[-1])
    return ref.HOOIModel(X, rank)


def shapes_of(kind, X, rank):
    if kind in ('CP', 'NCP'):
        return [(s, rank) for s in X.shape]
    return [(s, r) for s, r in zip(X.shape, rank)] + [tuple(rank)]


def parts(kind, m):
    out = [np.array(a) for a in m.A]
    if kind in ('NTUCKER', 'HOOI', 'HOSVD'):
        out.append(np.array(m.g))
    if kind == 'CP':
        out.append(np.array(m.lam))
    return out


def dist(a, b):
    d = 0.0
    for x, y in zip(a, b):
        s = max(float(np.max(np.abs(y))) if y.size else 0, 1e-30)
        d = max(d, float(np.max(np.abs(x - y))) / s if x.size else 0)
    return d


def init_ok(kind, X, rank, init):
    """Does this look like the starting point the property demands?"""
    if kind == 'CP':
        return True
    n = np.linalg.norm(np.asarray(X, float).ravel())
    want = n ** (1.0 / (X.ndim + (kind == 'NTUCKER')))
    return all(np.all(a >= 0) and abs(np.linalg.norm(a.ravel()) - want) < 1e-4 * want for a in init)


def run_ref(kind, X, rank, init, steps, tol, script=None, forced=None, noise=None):
    m = model_of(kind, X, rank, init)
    if noise is not None:
        m.noise = np.random.RandomState(noise)
    r = ref.simulate(m, X, steps, tol, script, forced)
    r['parts'] = parts(kind, m)
    r['cond'] = getattr(m, 'cond', 1.0)
    return r


def compare(kind, X, rank, init, steps, tol, got, script=None, base=2e-6, forced=None, depth=0):
    """('match'|'skip'|'differ', text).  Where rounding could flip an accept
    decision, both continuations of the reference are admitted."""
    forced = forced or {}
    try:
        r = run_ref(kind, X, rank, init, steps, tol, script, forced)
        fix = dict(enumerate(r['decisions'])) if kind in ('NCP', 'NTUCKER') else None
        drift = 0.0
        for n in range(4):
            g = np.random.RandomState(100 + n)
            bent = [np.asarray(a, float) * (1 + 1e-6 * g.uniform(-1, 1, size=a.shape)) for a in init]
            p = run_ref(kind, X, rank, bent, steps, tol, script, fix, n)
            if len(r['hist']) != len(p['hist']):
                return 'skip', 'stop within rounding'
            drift = max(drift, dist(r['parts'] + [r['full']], p['parts'] + [p['full']]))
    except (np.linalg.LinAlgError, FloatingPointError):
        return 'skip', 'singular'
    if not all(np.all(np.isfinite(a)) for a in r['parts'] + [r['full']]):
        return 'skip', 'not finite'
    t = base + 4 * drift
    if not t < LOOSE or r['cond'] > COND:
        return 'skip', 'ill-conditioned'
    if script is None and tol > 0 and min(r['stopm']) < 20 * t:
        return 'skip', 'stop within rounding'
    if script is None and kind in ('NCP', 'NTUCKER'):
        for k in range(min(len(r['close']), steps - 1)):
            if k not in forced and r['close'][k] < 3e-6 + 4 * drift:
                if depth > 4:
                    return 'skip', 'decisions within rounding'
                both = [compare(kind, X, rank, init, steps, tol, got, script, base, {**forced, k: d}, depth + 1)
                        for d in (True, False)]
                both.sort(key=lambda b: (b[0] != 'match', b[0] != 'skip', b[1]))
                return both[0]
    if len(got['hist']) != len(r['hist']):
        return 'differ', '%d steps instead of %d' % (len(got['hist']), len(r['hist']))
    want = r['parts']
    have = [np.asarray(f, float) for f in got['factors']]
    if kind == 'NTUCKER':
        have.append(np.asarray(got['core'], float))
    if kind == 'CP':
        have.append(np.asarray(got['lambdas'], float).reshape(-1))
    if len(have) != len(want):
        return 'differ', '%d factors' % len(have)
    for i, (h, w) in enumerate(zip(have, want)):
        if h.shape != w.shape:
            return 'differ', 'part %d has shape %s instead of %s' % (i, h.shape, w.shape)
        if not np.all(np.abs(h - w) <= t * max(np.max(np.abs(w)), 1e-30)):
            return 'differ', 'part %d: %s instead of %s (tolerance %.1e)' % (i, h.tolist(), np.round(w, 6).tolist(), t)
    s = max(np.max(np.abs(r['full'])), np.max(np.abs(X)))
    if got['full'].shape != r['full'].shape or not np.all(np.abs(got['full'] - r['full']) <= t * s):
        return 'differ', 'reconstruction %s instead of %s' % (got['full'].tolist(), np.round(r['full'], 6).tolist())
    n = np.sqrt(np.mean(np.asarray(X, float)[np.asarray(X) != 0] ** 2))
    if script is None:
        for k, (h, w) in enumerate(zip(got['hist'], r['hist'])):
            if len(h) != 2 or abs(h[0] - w[0]) > t * n * 4 or abs(h[1] - w[1]) > t * 4:
                return 'differ', 'history of step %d: %s instead of %s (tolerance %.1e)' % (k + 1, h, list(w), t)
    return 'match', '%.3f' % (dist(have, want) / t)


def verify(kind, X, rank, steps, tol, states, got, script=None, check_init=True):
    """Like compare, from any of the observed states."""
    best, n = None, 0
    for st in states:
        for init in train.candidates(st, shapes_of(kind, X, rank)):
            if check_init and not init_ok(kind, X, rank, init):
                continue
            n += 1
            r = compare(kind, X, rank, init, steps, tol, got, script)
            if r[0] == 'match':
                return r
            if r[0] == 'skip' or best is None:
                if best is None or best[0] != 'skip':
                    best = r
    if best is not None:
        return best
    observed = any(True for st in states for _ in train.candidates(st, shapes_of(kind, X, rank)))
    if not observed:
        return 'unseen', 'no variables of the shapes of the factors'
    return 'differ', 'no observed state is a starting point of the stated kind'


# --------------------------------------------------------------------------
# the enumeration shared by C09, C10 and C11


def rank_of(kind, shape, r):
    """A rank vector with differing entries for the Tucker models."""
    if kind in ('CP', 'NCP'):
        return r
    return [(r + i * 2) % 4 + 1 if r < 4 else max(1, s) for i, s in enumerate(shape)]


def shapes(tier):
    import itertools
    out = [s for n in (2, 3) for s in itertools.product((1, 2, 3), repeat=n) if np.prod(s) > 1]
    out += [s for s in itertools.product((2, 3), repeat=4)]
    out += [(3, 4, 5), (5, 4, 3), (4, 3), (3, 5), (2, 1, 3, 2), (2, 3, 2, 1, 2), (2, 2, 2, 2, 2), (6, 2, 4)]
    if tier != 'quick':
        out += list(itertools.product((1, 2, 4), repeat=3)) + list(itertools.product((1, 2, 3), repeat=4))
        out += [(2, 3, 1, 2, 2), (3, 2, 2, 2, 3), (2, 2, 2, 2, 2, 2), (7, 6, 5), (10, 3, 4), (4, 9)]
    return [list(s) for s in dict.fromkeys(map(tuple, out))]


def cases(kind, tier):
    q = tier == 'quick'
    datas = ('generic', 'signed', 'zeros') if q else ('generic', 'signed', 'zeros', 'ints', 'lowrank')
    for s in shapes(tier):
        for r in (1, 2, 3, 4):
            for i, d in enumerate(datas):
                if q and i and (sum(s) + r + i) % 2:
                    continue
                yield dict(run='train', shape=s, r=r, data=d, steps=[5] if q else [1, 2, 3, 8], seed=1, vi=-1, verbose=False)
    for s in ([3, 4, 5], [2, 3], [4, 3, 2], [2, 3, 2, 2]) if q else ([3, 4, 5], [2, 3], [4, 3], [4, 3, 2], [1, 3, 2], [2, 3, 2, 2], [6, 5, 4]):
        for r in (1, 2, 3):
            for d in ('tiny', 'large', 'mixed'):
                yield dict(run='train', shape=s, r=r, data=d, steps=[2, 5] if q else [1, 2, 5, 9], seed=2, vi=-1, verbose=False)
    # long and many dimensions, ranks above four
    for s, rs in (([12, 3, 2], (2, 6)), ([2, 11, 3], (1, 5)), ([3, 2, 13], (2, 4)), ([20, 3], (2,)), ([2, 9, 1, 3], (3,)), ([2] * 6, (1, 2)), ([2, 1, 2, 1, 3, 1, 2], (2,))):
        for r in rs:
            for d in ('generic', 'zeros') if q else ('generic', 'signed', 'zeros', 'ints', 'lowrank'):
                yield dict(run='train', shape=s, r=r, data=d, steps=[4] if q else [1, 2, 4, 9], seed=3, vi=-1, verbose=False)
    # every step count, logging cadence and verbosity
    for s in ([3, 4, 5], [2, 3, 2, 2], [4, 3]):
        for vi in (-1, 1, 2, 3, 10):
            for verbose in (False, True):
                for seed in (1, 2) if q else range(1, 7):
                    yield dict(run='train', shape=s, r=2, data='generic', steps=[1, 2, 3, 4, 6] if q else [1, 2, 3, 4, 5, 6, 7, 12, 20],
                               seed=seed, vi=vi, verbose=verbose)
    if kind != 'CP':
        # every word of accept/reject decisions, forced through the objective the training loop sees
        for s, r, d in (([2, 3, 4], 2, 'generic'), ([3, 2], 3, 'generic'), ([3, 3, 2], 2, 'zeros'), ([2, 2, 3, 2], 2, 'generic')) + \
                (() if q else (([4, 3, 5], 3, 'signed'), ([2, 3, 2], 4, 'lowrank'))):
            for head in range(8):
                for vi, verbose in ((-1, False), (2, False)) if q else ((-1, False), (2, False), (3, False), (-1, True)):
                    yield dict(run='decide', shape=s, r=r, data=d, head=head, tail=2 if q else 5, vi=vi, verbose=verbose)
        # long runs that reject steps on their own
        for s in ([2, 3], [3, 3], [3, 2, 2]):
            for seed in range(6 if q else 40):
                yield dict(run='train', shape=s, r=3, data='ints', steps=[27], seed=seed, vi=-1, verbose=False)
    # runs of more than a hundred steps
    for s, rs in (([3, 4, 5], (2, 3)), ([4, 3], (2,)), ([2, 3, 2, 2], (1, 2))) if q else \
            (([3, 4, 5], (1, 2, 3)), ([4, 3], (1, 2, 3)), ([2, 3, 2, 2], (1, 2, 3)), ([2, 6, 3], (2, 4)), ([2, 2, 2, 2, 2], (2,))):
        for r in rs:
            for d in ('generic', 'zeros'):
                for w in range(1 if kind == 'CP' else 4):
                    for vi in (-1, 5) if q else (-1, 1, 5):
                        yield dict(run='long', shape=s, r=r, data=d, word=w, vi=vi, steps=130 if q else 260)
    # starting points from a grid, every one of them
    for s, r in (([2, 3], 1), ([2, 1, 3], 1)) if q else (([2, 3], 1), ([2, 1, 3], 1), ([2, 3, 4], 1), ([2, 3], 2)):
        n = sum(s) * r + (int(np.prod(rank_of(kind, s, r))) if kind == 'NTUCKER' else 0)
        n = min(n, 9 if q else 12)
        for hi in range(2 ** max(0, n - 4)):
            yield dict(run='grid', shape=s, r=r, hi=hi, n=n, steps=3)


class Load(train.Snapshots):
    """Replaces the freshly drawn values of the factor variables.  Only where the
    starting variables can be told apart by shape; otherwise it does nothing."""

    def __init__(self, shapes, values):
        train.Snapshots.__init__(self)
        self.shapes, self.values, self.loaded = shapes, values, False

    def before(self, sess, k, fetches, feed):
        if k == 1:
            st = train.snapshot(sess)
            byshape = {}
            for n, v in st.items():
                if np.any(v != 0) and v.ndim:
                    byshape.setdefault(v.shape, []).append(n)
            if len(set(map(tuple, self.shapes))) == len(self.shapes) and \
                    all(len(byshape.get(tuple(s), [])) == 1 for s in self.shapes):
                vs = {v.name: v for v in train.variables(sess.graph)}
                for s, a in zip(self.shapes, self.values):
                    vs[byshape[tuple(s)][0]].load(a, sess)
                self.loaded = True
        train.Snapshots.before(self, sess, k, fetches, feed)


def grid_values(shapes, bits, n):
    """The first n entries take 0.25 or 1 by the bits, the others are fixed."""
    k, out = 0, []
    for s in shapes:
        a = np.zeros(s, np.float32)
        for i in range(a.size):
            a.flat[i] = (1.0 if bits >> k & 1 else 0.25) if k < n else 0.375 + 0.125 * (k % 5)
            k += 1
        out.append(a)
    return out


def check_common(kind, X, rank, got, ctx):
    if kind in ('NCP', 'NTUCKER'):
        for i, f in enumerate(got['factors'] + ([got['core']] if kind == 'NTUCKER' else [])):
            ctx.check(not np.any(f < 0), lambda: 'negative entries in part %d: %s' % (i, f.tolist()))
    want = [tuple(s) for s in shapes_of(kind, X, rank)]
    have = [f.shape for f in got['factors']] + ([got['core'].shape] if kind == 'NTUCKER' else [])
    ctx.check(have == want, lambda: 'shapes %s instead of %s' % (have, want))
    if kind == 'CP' and all(np.all(np.isfinite(f)) for f in got['factors']):
        for f in got['factors']:
            ctx.check(np.allclose(np.max(np.abs(f), axis=0), 1, atol=1e-5), lambda: 'columns not scaled to one: %s' % f)


def judge(kind, X, rank, steps, states, got, ctx):
    v, text = verify(kind, X, rank, steps, 0.0, states, got)
    ctx.count('transitions', len(got['hist']))
    for f in got['factors']:
        ctx.distinct('states', np.round(f, 4).tobytes())
    if v == 'differ':
        ctx.fail('training differs from the reference algorithm: ' + text)
    if v == 'match':
        ctx.count('traces_validated_against_impl')
    else:
        ctx.note('not comparable: ' + text)


def decide(kind, case, X, rank, ctx):
    from .checks import c14
    with train.world(5):
        m = train.build(kind, X, rank, tol=0.0, vi=case['vi'], verbose=case['verbose'])
        learn = c14.Learn(np.asarray(X, float))
        with train.hooked(learn):
            m.train(3)
        if not learn.obj or not learn.rel:
            return ctx.note('objective or residual is not fetched: nothing to answer')
        n = 3 + case['tail']
        for low in range(2 ** case['tail']):
            bits = case['head'] << case['tail'] | low
            word = [bool(bits >> i & 1) for i in range(n)]
            seq, r = [(64.0, 0.5)], 64.0
            for ok in word:
                seq.append((r / 2 if ok else r + 1, 0.5))
                r = r / 2 if ok else r
            seq.append((r / 2, 0.5))             # the state after the last decision shows in one more step
            h = c14.Script(learn.obj, learn.rel, lambda k: seq[min(k, len(seq) - 1)])
            with train.hooked(h):
                got = train.train(m, len(seq))
            check_common(kind, X, rank, got, ctx)
            v, text = verify(kind, X, rank, len(seq), 0.0, h.states, got, seq)
            ctx.count('transitions', len(seq))
            ctx.distinct('states', (tuple(case['shape']), case['vi'], case['verbose'], tuple(word)))
            ctx.check(v != 'differ', lambda: 'decisions %s: %s' % (''.join('ra'[o] for o in [True] + word), text))
            if v == 'match':
                ctx.count('traces_validated_against_impl')
            else:
                ctx.note('not comparable: ' + text)
    ctx.sample(case)


WORDS = (lambda k: True,                        # every step accepted
         lambda k: k % 7 != 6,                  # every seventh rejected
         lambda k: k % 3 == 0,                  # two of three rejected
         lambda k: k % 41 < 39)                 # long accepted stretches


def long(kind, case, X, rank, ctx):
    """A long run; NCP and NTUCKER are told the objective, so that no decision is left to rounding."""
    from .checks import c14
    n = case['steps']
    with train.world(4):
        m = train.build(kind, X, rank, tol=0.0, vi=case['vi'])
        seq, h = None, train.Snapshots()
        if kind != 'CP':
            learn = c14.Learn(np.asarray(X, float))
            with train.hooked(learn):
                m.train(3)
            if not learn.obj or not learn.rel:
                return ctx.note('objective or residual is not fetched: nothing to answer')
            seq, r = [(64.0, 0.5)], 64.0
            for k in range(n - 2):
                ok = WORDS[case['word']](k)
                seq.append((r * 0.875 if ok else r + 1, 0.5))
                r = seq[-1][0] if ok else r
            seq.append((r / 2, 0.5))
            h = c14.Script(learn.obj, learn.rel, lambda k: seq[min(k, len(seq) - 1)])
        with train.hooked(h):
            got = train.train(m, n)
    check_common(kind, X, rank, got, ctx)
    v, text = verify(kind, X, rank, n, 0.0, h.states[:4], got, seq)
    ctx.count('transitions', n)
    ctx.check(v != 'differ', lambda: 'run of %d steps: %s' % (n, text))
    if v == 'match':
        ctx.count('traces_validated_against_impl')
        ctx.count('long_runs')
    else:
        ctx.note('not comparable: ' + text)
    ctx.sample(case)


def run(kind, case, ctx):
    shape = tuple(case['shape'])
    rank = rank_of(kind, shape, case['r'])
    if case['run'] == 'decide':
        return decide(kind, case, train.tensor(shape, case['data'], 6), rank, ctx)
    if case['run'] == 'long':
        return long(kind, case, train.tensor(shape, case['data'], 2), rank, ctx)
    if case['run'] == 'train':
        X = train.tensor(shape, case['data'], case['seed'])
        with train.world(case['seed']):
            m = train.build(kind, X, rank, tol=0.0, vi=case['vi'], verbose=case['verbose'])
            for k in case['steps']:
                s = train.Snapshots()
                with train.hooked(s):
                    got = train.train(m, k)
                ctx.sample(dict(case=case, steps=k, history=got['hist']))
                check_common(kind, X, rank, got, ctx)
                judge(kind, X, rank, k, s.states, got, ctx)
        return
    X = train.tensor(shape, 'generic', 3)
    with train.world(1):
        m = train.build(kind, X, rank, tol=0.0)
        for lo in range(2 ** min(4, case['n'])):
            bits = case['hi'] * 16 + lo
            h = Load(shapes_of(kind, X, rank), grid_values(shapes_of(kind, X, rank), bits, case['n']))
            with train.hooked(h):
                got = train.train(m, case['steps'])
            if not h.loaded:
                ctx.note('starting point could not be set')
            check_common(kind, X, rank, got, ctx)
            judge(kind, X, rank, case['steps'], h.states, got, ctx)
            ctx.count('starting_points')
