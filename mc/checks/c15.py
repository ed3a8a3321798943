"""C15: every execution order of the operations of every session call of training."""
import itertools
import os

from mc import sched, train
import numpy as np
from mc.boot import tf1

LIMIT = 400


def cases(tier):
    q = tier == 'quick'
    shapes = [((3, 4, 2), 2, [2, 3, 2]), ((4, 3), 2, [2, 2]), ((2, 3, 2, 2), 2, [2, 2, 1, 2]), ((3, 2, 4), 3, [2, 2, 3])]
    if not q:
        shapes += [((2, 2, 2, 2, 2), 2, [2, 1, 2, 1, 2]), ((5, 4, 3), 4, [3, 2, 3]), ((3, 3, 3), 1, [1, 1, 1]), ((2, 5, 3), 2, [2, 3, 2])]
    for kind in train.KINDS:
        for shape, r, rs in shapes:
            for data in ('generic', 'zeros') if q else ('generic', 'zeros', 'lowrank'):
                for vi in (-1, 1):
                    if data == 'zeros' and vi == 1 and q:
                        continue
                    yield dict(kind=kind, shape=shape, rank=r if kind in ('CP', 'NCP') else rs, data=data, vi=vi)
    for n in (2, 4, 6):
        yield dict(kind='PITF', shape=(2, 3, 2), rank=2, data=n, vi=2)
    for kind in train.ITER:                      # a rising objective: the restart branch is forced
        yield dict(kind=kind, shape=(3, 4, 2), rank=2 if kind in ('CP', 'NCP') else [2, 2, 2], data='generic', vi=-1, rise=True)


class Rise(sched.Recorder):
    """Recorder that also makes the objective look rising in every second step."""

    def after(self, sess, k, fetches, feed, result):
        leaves = train.flat(result)
        if sum(np.ndim(v) == 0 and isinstance(v, (float, np.floating)) for v in leaves) >= 3:
            # the objective is the only scalar that is half the square of a norm; raise them all alike
            leaves = [v * np.float32(10 ** k) if isinstance(v, np.floating) else v for v in leaves]
            return train.rebuild(result, leaves)
        return result


def record(case, ctx):
    shape, kind = tuple(case['shape']), case['kind']
    r = Rise() if case.get('rise') else sched.Recorder()
    if kind == 'PITF':
        from mc.checks import c21
        T = c21.data(shape)
        m = c21.pitf_model(T, 0.9, 0.05, case['data'], case['vi'], c21.Where(tf1.constant(T.astype(np.float32)), os.path.join(ctx.work, 'pitf')))
        with train.hooked(r):
            m.train(4)
        return r.list
    m = train.build(kind, train.tensor(shape, case['data'], 6), case['rank'], tol=0.0, vi=case['vi'])
    with train.hooked(r):
        m.train() if kind == 'HOSVD' else m.train(4)
    return r.list


def run(case, ctx):
    with train.world(4):
        calls = record(case, ctx)
        seen = {}
        for c in calls:
            key = tuple(c.fetches)
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 2:
                continue
            explore(case, c, ctx)
    ctx.sample(dict(case=case, calls=len(calls)))


def explore(case, call, ctx):
    run_ = sched.Runner(call)
    races = run_.races
    label = '%s %s rank %s, %s (%s...)' % (case['kind'], case['shape'], case['rank'], call.label, ', '.join(n for n in call.fetches)[:80])
    base = run_.run()
    ctx.count('transitions', len(races.ops))
    ctx.count('conflicting_pairs_ordered', races.ordered)
    ctx.count('conflicting_pairs_unordered', len(races.pairs))
    schedules = [('writers as early as possible', races.total(True)), ('writers as late as possible', races.total(False))]
    if races.pairs:
        name = lambda e: ', '.join('%s before %s' % (races.ops[a].name, races.ops[b].name) for a, b in e)
        schedules = itertools.chain(schedules, (('with ' + name(e), e) for e in races.flips()), (('with ' + name(e), e) for e in races.orientations()))
    n = 0
    for what, edges in schedules:
        if n >= LIMIT:
            ctx.note('orientations capped')
            break
        n += 1
        got = run_.run(edges)
        d = sched.differ(base, got)
        ctx.check(d is None, lambda: '%s: the result depends on the execution order (%s): %s; unordered conflicting accesses: %s'
                  % (label, what[:300], d, [(races.ops[a].name, races.ops[b].name) for a, b in races.pairs[:6]]))
        ctx.count('schedules')
        ctx.count('traces_validated_against_impl')
    ctx.distinct('states', (case['kind'], tuple(case['shape']), tuple(call.fetches), tuple(sorted((k, v.tobytes()) for k, v in call.state.items()))))
