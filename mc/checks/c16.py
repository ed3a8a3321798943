"""C16: every interleaving of build and train calls on several models.

After each train call the result is judged by itself: HOSVD/HOOI against the
same model alone in its own graph, the others against the reference machine
started from the initial values observed in that very call."""
import itertools

from mc import train, traj
import numpy as np

CFG = {
    # name: (kind, shape, rank, data seed)
    'c': ('CP', (3, 4, 2), 2, 1),
    'C': ('CP', (3, 4, 2), 2, 2),
    'n': ('NCP', (3, 4, 2), 2, 1),
    't': ('NTUCKER', (3, 4, 2), [2, 3, 1], 1),
    'h': ('HOOI', (3, 4, 2), [2, 2, 2], 1),
    'H': ('HOOI', (3, 4, 2), [1, 2, 2], 2),
    's': ('HOSVD', (3, 4, 2), [2, 2, 2], 1),
    'T': ('NTUCKER', (4, 2, 3), [2, 1, 3], 3),
    'N': ('NCP', (4, 2, 3), 3, 3),
}
STEPS = 3


def data(name):
    kind, shape, rank, seed = CFG[name]
    return train.tensor(shape, 'generic', seed)


def histories(names, trains):
    """All orders in which each model is built once and then trained `trains` times."""
    def go(state):
        if all(s == trains + 1 for s in state):
            yield []
            return
        for i, s in enumerate(state):
            if s <= trains:
                nxt = state[:i] + (s + 1,) + state[i + 1:]
                for rest in go(nxt):
                    yield [i] + rest
    return list(go((0,) * len(names)))


def cases(tier):
    q = tier == 'quick'
    base = 'cnths'
    for a, b in itertools.combinations_with_replacement(base, 2):
        for graphs in ('one', 'several'):
            hs = histories([a, b], 1 if q else 2)
            for h in hs:
                yield dict(models=a + b, order=h, graphs=graphs)
    for pair in ('cC', 'hH', 'nN', 'tT'):
        for graphs in ('one', 'several'):
            for h in histories(pair, 2):
                yield dict(models=pair, order=h, graphs=graphs)
    for n in base + 'T':
        yield dict(models=n, order=[0] * (4 if q else 8), graphs='one')
    for trio in ('cnt', 'hsn', 'cht') if q else ('cnt', 'hsn', 'cht', 'ccc', 'nnt', 'sth'):
        for h in histories(trio, 1):
            yield dict(models=trio, order=h, graphs='one')
    # one environment shared by all models
    for pair in ('cn', 'nt', 'ch', 'cc', 'nn', 'tt', 'hs'):
        for h in histories(pair, 1):
            yield dict(models=pair, order=h, graphs='one', shared=True)
    for pair in ('cn', 'hs', 'tt') if q else ('cn', 'nt', 'ch', 'cc', 'nn', 'tt', 'hs'):
        for h in histories(pair, 1):
            yield dict(models=pair, order=h, graphs='several', shared=True)


    # models with settings of their own: tolerances that end one training early, not the other
    for pair in ('cC', 'nN', 'tT', 'hH', 'cn', 'nt', 'ch', 'cc', 'nn'):
        for h in histories(pair, 1 if q else 2):
            for tols in ((0.0, 0.9), (0.9, 0.0)):
                yield dict(models=pair, order=h, graphs='one' if sum(h[:2]) else 'several', tols=tols)
    # one model object: every word over building it (two settings) and training it (1 or 3 steps)
    for n in base + 'T':
        for w in itertools.product('ab13', repeat=3 if q else 5):
            yield dict(words=n, order='a' + ''.join(w))


def word(case, ctx):
    name = case['words']
    kind, shape, rank, seed = CFG[name]
    other = (rank % 3 + 1) if kind in ('CP', 'NCP') else [1 + (r % 2) for r in rank]
    with train.world(7):
        m = train.classes(kind)[0](train.environment(data(name)))
        now, done = None, ''
        for c in case['order']:
            done += c
            label = '%s %s, calls %s' % (kind, shape, ' '.join({'a': 'build', 'b': 'build(%s)' % other, '1': 'train(1)', '3': 'train(3)'}[x] for x in done))
            ctx.count('transitions')
            ctx.distinct('states', (name, done))
            if c in 'ab':
                now = rank if c == 'a' else other
                m.build_model(train.args_of(kind, now, 0.0))
                continue
            steps = int(c)
            s = train.Snapshots()
            with train.hooked(s):
                got = train.result(m, m.train(steps))
            if kind in ('HOSVD', 'HOOI'):
                want = alone(name, now, steps)
                d = train.same(want, got, 1e-5)
                ctx.check(d is None, lambda: '%s: differs from a new model: %s' % (label, d))
            else:
                v, text = traj.verify(kind, data(name), now, steps, 0.0, s.states, got)
                ctx.check(v != 'differ', lambda: '%s: %s' % (label, text))
                if v != 'match':
                    ctx.note(text)
                    continue
            ctx.count('traces_validated_against_impl')
    ctx.sample(case)


_alone = {}


def alone(name, rank=None, steps=STEPS, tol=0.0):
    kind, shape, usual, seed = CFG[name]
    rank = usual if rank is None else rank
    key = name, str(rank), steps, tol
    if key not in _alone:
        with train.world(1):
            m = train.build(kind, data(name), rank, tol=tol)
            _alone[key] = train.result(m, m.train(steps))
    return _alone[key]


def run(case, ctx):
    if 'words' in case:
        return word(case, ctx)
    names = list(case['models'])
    graphs = [train.tf1.Graph() for _ in (names if case['graphs'] == 'several' else names[:1])]
    for g in graphs:
        with g.as_default():
            train.tf1.set_random_seed(3)
    env = train.environment(data(names[0])) if case.get('shared') else None
    models = [None] * len(names)
    results = {}
    tols = case.get('tols', (0.0,) * len(names))
    for n, tol in zip(names, tols):
        if CFG[n][0] in ('HOSVD', 'HOOI'):
            alone(n, tol=tol)
    try:
        for step, i in enumerate(case['order']):
            kind, shape, rank, seed = CFG[names[i]]
            with graphs[i % len(graphs)].as_default():
                if models[i] is None:
                    m = train.classes(kind)[0](env or train.environment(data(names[i])))
                    m.build_model(train.args_of(kind, rank, tols[i]))
                    models[i] = m
                    ctx.count('transitions')
                    continue
                m = models[i]
                s = train.Snapshots()
                label = 'models %s, order %s (%s graph%s): train call %d' % (names, case['order'], case['graphs'], ', shared environment' if env else ', tolerances %s' % (tols,) if any(tols) else '', step)
                with train.hooked(s):
                    if kind == 'HOSVD':
                        m.train()
                        got = train.result(m)
                    else:
                        got = train.train(m, STEPS)
            ctx.count('transitions')
            ctx.distinct('states', (tuple(names), tuple(case['order'][:step + 1]), case['graphs'], bool(env), tuple(tols)))
            X = data(names[0]) if env else data(names[i])
            if kind in ('HOSVD', 'HOOI'):
                want = alone(names[i], tol=tols[i]) if not env or CFG[names[0]][1:] == CFG[names[i]][1:] or CFG[names[0]][3] == seed else None
                if want:
                    d = train.same(want, got, 1e-5)
                    ctx.check(d is None, lambda: '%s: differs from the model alone: %s' % (label, d))
            else:
                v, text = traj.verify(kind, X, rank, STEPS, tols[i], s.states, got)
                ctx.check(v != 'differ', lambda: '%s: %s' % (label, text))
                if v != 'match':
                    ctx.note(text)
                    continue
            ctx.count('traces_validated_against_impl')
            results[i] = (got, label)
            # what the other models hold must not have moved
            for j, (old, l) in results.items():
                d = train.same({k: old[k] for k in old if k != 'hist'}, train.result(models[j]))
                ctx.check(d is None, lambda: '%s: changed what model %d reports: %s' % (label, j, d))
        ctx.sample(case)
    finally:
        train.close_all()
