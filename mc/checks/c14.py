"""C14: stopping and acceptance.  The values the training loop decides on
(objective, relative residual) are answered by the check: every sequence of
answers over an alphabet of moves around the thresholds, to a depth.

The reference decides on the same answers; compared are the number of steps,
and (accept decisions) the factors reached.  Answers are dyadic, so that the
boundary cases are exact in float32."""
import itertools

from mc import ref, train, traj
import numpy as np

SHAPE, TOL = (2, 3, 4), 1.0 / 16
KIND = ('CP', 'HOOI', 'NCP', 'NTUCKER')
# moves of the objective relative to the reference value r, in units u = tol*(r+1)
MOVES = {'D': -2.0, 'b': -1.0, 'd': -0.5, '=': 0.0, 'u': 0.5, 'B': 1.0, 'U': 2.0}
RELS = {'a': 2 * TOL, 'e': TOL, 's': TOL / 2}


def rank(kind):
    return 2 if kind in ('CP', 'NCP') else [2, 2, 3]


def data():
    return train.tensor(SHAPE, 'generic', 2).astype(np.float32)


class Script(train.Snapshots):
    """Answers the k-th step with the k-th (objective, residual) of the script.
    A step is a session call that fetches both."""

    def __init__(self, obj_names, rel_names, answers):
        train.Snapshots.__init__(self, 3)
        self.obj, self.rel, self.answers, self.step = obj_names, rel_names, answers, 0
        self.seen = []

    def after(self, sess, k, fetches, feed, result):
        ns = train.names(fetches)
        if not any(n in self.obj for n in ns) or not any(n in self.rel for n in ns):
            return result
        leaves = train.flat(result)
        if len(leaves) != len(ns):
            return result
        a = self.answers(self.step)
        self.step += 1
        for i, n in enumerate(ns):
            if n in self.obj:
                leaves[i] = np.float32(a[0])
            if n in self.rel:
                leaves[i] = np.float32(a[1])
        return train.rebuild(result, leaves)


class Learn(train.Hook):
    """Which fetched scalars are the objective and the relative residual?"""

    def __init__(self, X):
        train.Hook.__init__(self)
        self.X, self.obj, self.rel = X, None, None

    def after(self, sess, k, fetches, feed, result):
        ns, vs = train.names(fetches), train.flat(result)
        if len(ns) == len(vs):
            fulls = [v for v in vs if isinstance(v, np.ndarray) and v.shape == self.X.shape]
            found = None
            for F in fulls:                      # a factor may have the shape of the data
                o, r = set(), set()
                for n, v in zip(ns, vs):
                    if n and np.ndim(v) == 0 and isinstance(v, (np.floating, np.ndarray)):
                        if abs(v - ref.objective(self.X, F)) < 1e-4 * abs(v):
                            o.add(n)
                        elif abs(v - ref.relres(self.X, F)) < 1e-4 * abs(v):
                            r.add(n)
                if found is None or o and r:
                    found = o, r
                if o and r:
                    break
            if found:
                self.obj = found[0] if self.obj is None else self.obj & found[0]
                self.rel = found[1] if self.rel is None else self.rel & found[1]
        return result


_cache = {}


def model(kind, vi=-1, verbose=False, tol=TOL):
    """One graph and model per setting, kept by the worker."""
    key = (kind, vi, verbose, tol)
    if key not in _cache:
        g = train.tf1.Graph()
        with g.as_default():
            train.tf1.set_random_seed(11)
            m = train.build(kind, data(), rank(kind), tol=tol, vi=vi, verbose=verbose)
            h = Learn(data().astype(float))
            with train.hooked(h):
                m.train(3)
            train.close_all()
        _cache[key] = (g, m, h.obj or set(), h.rel or set())
    return _cache[key]


def answers_of(kind, first, word):
    """The numbers a word stands for; the reference value follows the property."""
    bcu = kind in ('NCP', 'NTUCKER')
    seq, r = [(first, RELS[word[0][1]])], None
    r = first if bcu else first + 1
    for mv, rl in word[1:]:
        obj = r + MOVES[mv] * TOL * (r + 1)
        seq.append((obj, RELS[rl]))
        if bcu and obj < r:
            r = obj
    return seq


def words(tier):
    """Step 1 has no move of its own ('=')."""
    q = tier == 'quick'
    # the full alphabet, residual always above the tolerance
    for w in itertools.product(MOVES, repeat=3 if q else 4):
        yield [('=', 'a')] + [(m, 'a') for m in w]
    # the boundary and the stopping residual, at every position
    for n in (0, 1, 2, 3, 4):
        for w in itertools.product('DdU', repeat=n):
            for p in range(n + 1):
                for r in 'es':
                    x = [('=', 'a')] + [(m, 'a') for m in w]
                    x[p] = (x[p][0], r)
                    yield x
    # long runs: stalls must be consecutive
    for w in itertools.product('DdUu' if not q else 'dDu', repeat=6 if q else 7):
        yield [('=', 'a')] + [(m, 'a') for m in w]


def long_words(tier):
    """The rule decides late: every position up to a bound, after steps that do not stall or never three in a row."""
    top = 125 if tier == 'quick' else 300
    for p in range(8, top):
        for prefix in ('U' * p, ('ddU' * p)[:p // 3 * 3])[p % 2 if tier == 'quick' else 0:][:1 if tier == 'quick' else 2]:
            yield ['=a'] + [c + 'a' for c in prefix + 'ddd'] + ['Ua']
        if p % 5 == 0 or tier != 'quick':
            yield ['=a'] + ['Ua'] * p + ['Us', 'Ua']


def cases(tier):
    for kind in KIND:
        ws = list(long_words(tier))
        for i in range(16):
            yield dict(kind=kind, first=14.0, vi=10 if i % 4 == 0 else -1, verbose=False, words=ws[i::16], long=True)
        for first in (14.0, 6.0, 30.0):
            ws = list(words(tier)) if first == 14.0 or tier != 'quick' else list(words(tier))[::7]
            for i in range(0, len(ws), 40):
                yield dict(kind=kind, first=first, vi=-1, verbose=False, words=[['%s%s' % c for c in w] for w in ws[i:i + 40]])
        for vi, verbose in ((1, False), (2, False), (3, False), (-1, True), (2, True)):
            ws = list(words(tier))[::11 if tier == 'quick' else 3]
            for i in range(0, len(ws), 40):
                yield dict(kind=kind, first=14.0, vi=vi, verbose=verbose, words=[['%s%s' % c for c in w] for w in ws[i:i + 40]])
        # the rules on real values: no answer replaced
        yield dict(kind=kind, natural=True)


def decide(kind, seq, tol):
    ctl = ref.Control(tol, kind in ('NCP', 'NTUCKER'))
    out = []
    for o, r in seq:
        stop, dec = ctl.step(o, r)
        out.append(dec)
        if stop:
            break
    return out


def natural(kind, ctx):
    X = data()
    for tol in (0.0, 1e-6, 1e-4, 1e-2, 0.05, 0.3, 2.0):
        for vi, verbose in ((-1, False), (2, False), (-1, True)):
            with train.world(4):
                m = train.build(kind, X, rank(kind), tol=tol, vi=vi, verbose=verbose)
                for steps in (1, 2, 3, 4, 7, 25):
                    got = train.train(m, steps)
                    ctx.count('transitions', len(got['hist']))
                    # the objective follows from the residual: 0.5 (rel |X|)^2
                    n = np.linalg.norm(X.astype(float).ravel())
                    ctl = ref.Control(tol, kind in ('NCP', 'NTUCKER'))
                    ambiguous, k = False, 0
                    for k, (_, rel) in enumerate(got['hist']):
                        obj = 0.5 * (rel * n) ** 2
                        if ctl.obj0 is not None and abs(abs(obj - ctl.obj0) / (ctl.obj0 + 1) - tol) < 1e-5 or abs(rel - tol) < 1e-6 or \
                                (ctl.obj0 is not None and abs(obj - ctl.obj0) < 1e-6 * obj + 1e-12):
                            ambiguous = True
                            break
                        stop, _ = ctl.step(obj, rel)
                        if stop:
                            break
                    if ambiguous:
                        ctx.note('natural run within rounding of a threshold')
                        continue
                    ctx.count('traces_validated_against_impl')
                    ctx.check(k + 1 == len(got['hist']), 'tol=%g steps=%d vi=%s: stopped after %d steps, the rule stops after %d; history %s'
                              % (tol, steps, vi, len(got['hist']), k + 1, got['hist']))
                    if not stop:
                        ctx.check(len(got['hist']) == steps, 'tol=%g: ended after %d of %d steps without a reason'
                                  % (tol, len(got['hist']), steps))


def run(case, ctx):
    kind = case['kind']
    if case.get('natural'):
        return natural(kind, ctx)
    g, m, on, rn = model(kind, case['vi'], case['verbose'])
    if not on or not rn:
        return ctx.note('objective or residual is not fetched: nothing to answer')
    X = data().astype(float)
    with g.as_default():
        try:
            for w in case['words']:
                seq = answers_of(kind, case['first'], w)
                want = decide(kind, seq, TOL)
                # one more step than the script decides is allowed, so that an early stop is told from the limit
                limit = len(seq)
                h = Script(on, rn, lambda k: seq[min(k, len(seq) - 1)])
                with train.hooked(h):
                    hist = m.train(limit)
                got = train.result(m, hist)
                ctx.count('transitions', len(hist))
                ctx.distinct('states', (kind, case['first'], case['vi'], case['verbose'], tuple(w[:len(hist)])))
                ctx.check(h.step == len(hist), 'history has %d entries for %d steps' % (len(hist), h.step))
                ctx.check(len(hist) == len(want), lambda: '%s: answers %s: stopped after %d steps, the rule stops after %d'
                          % (kind, seq, len(hist), len(want)))
                ctx.check([float(x[1]) for x in hist] == [a[1] for a in seq[:len(hist)]],
                          'history %s does not hold the residuals %s' % (hist, seq))
                if kind != 'HOOI' and not case.get('long'):
                    v, text = traj.verify(kind, X, rank(kind), len(want), TOL, h.states, got, seq)
                    ctx.check(v != 'differ', lambda: '%s: answers %s (accept decisions %s): %s' % (kind, seq, want, text))
                    if v == 'match':
                        ctx.count('traces_validated_against_impl')
                else:
                    ctx.count('traces_validated_against_impl')
                ctx.sample(dict(kind=kind, answers=seq, steps=len(hist)))
        finally:
            train.close_all()
