"""C26: models, readers, generators and operations used from several threads.

Stateless exploration of the real code under the controlled scheduler of
mc/threads.py: (lines) one thread is preempted at the first and last visit of
every source line of the library it executes while the other runs completely
(and, deeper, runs up to one of its own lines before control returns); (calls)
all interleavings of the session calls of two or three trainings up to a number
of context switches.  Every thread must get what it gets alone."""
import itertools
import os

from mc import threads, train
import numpy as np
from mc.boot import config, tf1

SHAPE = (3, 4, 2)
RANK = {'CP': 2, 'NCP': 2, 'NTUCKER': [2, 3, 1], 'HOOI': [2, 2, 2], 'HOSVD': [2, 2, 2]}
OTHER = (2, 3, 3)
RANK2 = {'CP': 3, 'NCP': 3, 'NTUCKER': [1, 2, 3], 'HOOI': [2, 1, 2], 'HOSVD': [1, 2, 2]}
PROGRAMS = ('CP', 'NCP', 'NTUCKER', 'HOSVD', 'HOOI', 'PITF', 'reader', 'ops', 'gen')


def plans(n, calls, switches):
    """All schedules of n threads with the given numbers of scheduling points, at most `switches` preemptions
    (a change of thread at the end of a thread is free)."""
    def go(left, cur, budget):
        # cur has the processor; it may run 0..left[cur]-1 more points and be preempted, or run to its end
        rest = [t for t in left if t != cur]
        if not rest:
            yield [(cur, None)]
            return
        for t in rest:
            for p in go({k: v for k, v in left.items() if k != cur}, t, budget):
                yield [(cur, None)] + p
        if budget:
            for k in range(1, left[cur] + 1):
                for t in rest:
                    nxt = dict(left)
                    nxt[cur] = left[cur] - k
                    for p in go(nxt, t, budget - 1):
                        yield [(cur, k)] + p
    for first in range(n):
        for p in go(dict(enumerate(calls)), first, switches):
            yield p


def cases(tier):
    q = tier == 'quick'
    pairs = [(p, p) for p in PROGRAMS if p != 'gen']
    pairs += [('CP', 'NCP'), ('NTUCKER', 'HOOI'), ('gen', 'ops')] if q else \
        [(a, b) for a in PROGRAMS for b in PROGRAMS if a != b and (a, b) != ('gen', 'gen')]
    for a, b in pairs:
        parts = 16 if a == 'PITF' else 8 if a in train.KINDS else 2
        for i in range(parts):
            yield dict(group='lines', a=a, b=b, part=i, parts=parts, back=False, last=not q or a not in train.KINDS + ('PITF',))
            if not q:
                yield dict(group='lines', a=a, b=b, part=i, parts=parts, back=True, last=False)
    for a, b in itertools.combinations_with_replacement(train.KINDS, 2):
        for graphs in ('several', 'one'):
            for shared in (False, True):
                if q and (graphs == 'one') != shared:
                    continue
                yield dict(group='calls', kinds=[a, b], graphs=graphs, shared=shared, steps=2 if q else 3, switches=(3 if a == b and not shared else 2) if q else 4)
    for trio in (['CP', 'CP', 'NCP'], ['HOOI', 'NTUCKER', 'CP']) if q else itertools.combinations_with_replacement(train.ITER, 3):
        yield dict(group='calls', kinds=list(trio), graphs='several', shared=False, steps=2, switches=1 if q else 3)


def program(name, which, work, seed):
    """A callable for one thread: builds everything it uses itself."""
    shape, rank = ((SHAPE, RANK), (OTHER, RANK2))[which]
    path = os.path.join(work, 'log%d' % which)

    def inside(f):
        def go():
            with tf1.Graph().as_default():
                tf1.set_random_seed(5)
                return f()
        return go

    def model():
        X = train.tensor(shape, 'generic', seed)
        m = train.build(name, X, rank[name], tol=0.0, vi=2, summary=path)
        h = m.train() if name == 'HOSVD' else m.train(3)
        r = train.result(m, h)
        r['predict'] = np.array([m.predict(*i) for i in np.ndindex(*shape)])
        return r

    def pitf():
        from mc.checks import c21
        from tensorD.factorization.pitf import PITF
        env = c21.Where(tf1.constant(c21.data(shape).astype(np.float32)), path)
        m = PITF(env)
        m.build_model(PITF.PITF_Args(2, 0.9, 0.1, 2, validation_internal=1, verbose=False))
        m.train(2)
        return dict(finish=m.train_finish(), path=path)

    def reader():
        from tensorD.dataproc.reader import TensorReader
        f = os.path.join(work, 'data%d.csv' % which)
        with open(f, 'w') as o:
            for k, i in enumerate(np.ndindex(*shape)):
                if k % 2 == which:
                    o.write(','.join(map(str, i)) + ',%s\n' % (k + .5))
        r = TensorReader(f)
        r.read()
        with tf1.Session() as s:
            a, b = s.run([r.full_data, r.sparse_data])
            r.read(full_shape=[5] * len(shape))
            c = s.run(r.full_data)
        return dict(a=a, idx=np.asarray(b.indices), val=np.asarray(b.values), shape=np.asarray(b.dense_shape), c=c)

    def ops():
        from tensorD.base import DTensor, KTensor, TTensor, ops
        from tensorD import loss
        g = np.random.RandomState(seed)
        X = g.rand(*shape)
        U = [g.rand(2, s) for s in shape]
        F = [g.rand(s, 2) for s in shape]
        D = DTensor(tf1.constant(X))
        out = dict(
            unfold=D.unfold(which).T, back=DTensor.fold(D.unfold(which).T, which, shape).T, t2mat=D.t2mat([1], -1).T, vec=D.vectorize().T,
            ttm=ops.ttm(tf1.constant(X), [tf1.constant(u) for u in U]), skip=ops.ttm(tf1.constant(X), [tf1.constant(u) for u in U], skip_matrices_index=which),
            had=ops.hadamard([tf1.constant(u[:, :2]) for u in U]), kron=ops.kron([tf1.constant(u) for u in U], skip_matrices_index=which, reverse=True),
            kr=ops.khatri([tf1.constant(f) for f in F], skip_matrices_index=[which], reverse=True), inner=ops.inner(tf1.constant(X), tf1.constant(2 * X)),
            mul=ops.mul(tf1.constant(X), tf1.constant(X), [which], [which]), sv=ops.max_single_value_mul([tf1.constant(f) for f in F]),
            k=KTensor(F, np.arange(1., 3.)).extract(), t=TTensor(g.rand(2, 2, 2), F).extract(),
            rmse=loss.rmse(tf1.constant(X), tf1.constant(2 * X)), nz=loss.rmse_ignore_zero(tf1.constant(X), tf1.constant(2 * X)),
            l2=loss.l2(tf1.constant(X), tf1.constant(2 * X)))
        with tf1.Session() as s:
            return s.run(out)

    def gen():
        from tensorD.demo import DataGenerator as d
        np.random.seed(seed)
        return dict(cp=d.synthetic_data_cp(list(shape), 2, 0.1), tucker=d.synthetic_data_tucker(list(shape), [2, 2, 2], 0.1))
    return inside(dict(PITF=pitf, reader=reader, ops=ops, gen=gen).get(name, model))


def settle(out, ctx, label):
    """Results of the threads; log files read after the writers were closed."""
    from mc.checks import c21
    for w in train._writers:
        w.close()
    res = []
    for i, o in enumerate(out):
        ctx.check(o is not None, '%s: thread %d has no result' % (label, i))
        kind, r = o
        if kind == 'raised':
            if isinstance(r, Exception) and threads_own(r):
                raise r
            ctx.fail('%s: thread %d failed with %s: %s' % (label, i, r.__class__.__name__, str(r)[:300]))
        if 'path' in r:
            r = dict(r, events=c21.events(r['path']))
            del r['path']
        res.append(r)
    train.close_all()
    return res


def threads_own(e):
    """An error of the check itself: no frame of the library on the stack."""
    import traceback
    from mc import boot
    if isinstance(e, tf1.errors.OpError):
        return False
    return not any(os.path.realpath(f.filename).startswith(boot.REPO + os.sep) for f in traceback.extract_tb(e.__traceback__))


def differ(a, b):
    for k in a:
        u, v = a[k], b.get(k)
        if k == 'events':
            if repr(u) != repr(v):
                return '%s %s vs %s' % (k, u, v)
            continue
        if k in ('factors', 'hist', 'core', 'lambdas', 'full', 'finish'):
            d = train.same({k: u}, {k: v}, 1e-5)
            if d:
                return d
        elif train.close(np.asarray(u), np.asarray(v), 1e-5):
            return '%s %s vs %s' % (k, u, v)
    return None


def wipe(work):
    import shutil
    for n in (0, 1):
        shutil.rmtree(os.path.join(work, 'log%d' % n), ignore_errors=True)


def run(case, ctx):
    if case['group'] == 'lines':
        return lines(case, ctx)
    return calls(case, ctx)


def lines(case, ctx):
    a, b = case['a'], case['b']
    make = lambda: [program(a, 0, ctx.work, 1), program(b, 1, ctx.work, 2)]
    # alone, with the visited lines recorded
    want, marks = [], []
    for i in (0, 1):
        wipe(ctx.work)
        make()[i]()                      # imports and caches of the interpreter
        train.close_all()
        wipe(ctx.work)
        s = threads.Sched([make()[i]], [(0, None)])
        with threads.Lines(s):
            out = s.run()
        want += settle(out, ctx, '%s alone' % (a, b)[i])
        marks.append(threads.points_of_interest(s.trace[0], case['last']))
        traces = s.trace[0] if i == 0 else traces
    points = marks[0][case['part']::case['parts']]
    for k in points:
        for j in ([None] if not case['back'] else marks[1][k % 7::7]):
            # marks count lines before which the switch happens
            plan = [(0, k), (1, j), (0, None), (1, None)]
            s = threads.Sched(make(), plan)
            wipe(ctx.work)
            with threads.Lines(s):
                out = s.run()
            where = traces[k] if k < len(traces) else None
            label = 'threads %s and %s, the first preempted at %s:%s (line event %d)%s' % (
                a, b, os.path.basename(where[0]) if where else '?', where[1] if where else '?', k, '' if j is None else ', the second at its event %d' % j)
            got = settle(out, ctx, label)
            ctx.count('evaluations')
            ctx.count('transitions', s.switches)
            if s.blocked:
                ctx.note('%s and %s: a thread waited for a preempted one' % (a, b))
            for i in (0, 1):
                d = differ(want[i], got[i])
                ctx.check(d is None, lambda: '%s: thread %d differs from running alone: %s' % (label, i, d))
            ctx.count('traces_validated_against_impl', 2)
            ctx.distinct('states', (a, b, where, k, j))
    ctx.sample(case)


def calls(case, ctx):
    kinds, steps = case['kinds'], case['steps']
    n = len(kinds)
    graphs = [tf1.Graph() for _ in (kinds if case['graphs'] == 'several' else kinds[:1])]
    models, progs = [], []
    env = train.environment(train.tensor(SHAPE, 'generic', 1)) if case['shared'] else None
    for g in graphs:
        with g.as_default():
            tf1.set_random_seed(3)
    for i, kind in enumerate(kinds):
        shape, rank = ((SHAPE, RANK), (OTHER, RANK2), (SHAPE, RANK))[i if not case['shared'] else 0]
        with graphs[i % len(graphs)].as_default():
            m = train.classes(kind)[0](env or train.environment(train.tensor(shape, 'generic', 1 + i)))
            m.build_model(train.args_of(kind, rank[kind], 0.0, vi=2))
            models.append(m)

    def prog(i):
        def go():
            with graphs[i % len(graphs)].as_default():
                h = models[i].train() if kinds[i] == 'HOSVD' else models[i].train(steps + i)
                return train.result(models[i], h)
        return go
    progs = [prog(i) for i in range(n)]
    want, count = [], []
    for i in range(n):
        progs[i]()
        s = threads.Sched([progs[i]], [(0, None)])
        with train.hooked(threads.Calls(s)):
            out = s.run()
        want += settle(out, ctx, 'alone')
        count.append(len(s.trace[0]))
    for plan in plans(n, count, case['switches']):
        s = threads.Sched(progs, plan)
        with train.hooked(threads.Calls(s)):
            out = s.run()
        label = 'trainings %s (%s graph, %s environment), schedule %s' % (kinds, case['graphs'], 'one' if case['shared'] else 'own', plan)
        got = settle(out, ctx, label)
        ctx.count('evaluations')
        ctx.count('transitions', s.switches)
        if s.blocked:
            ctx.note('%s: a thread waited for a preempted one' % kinds)
        for i in range(n):
            d = differ(want[i], got[i])
            ctx.check(d is None, lambda: '%s: training %d differs from running alone: %s' % (label, i, d))
        ctx.count('traces_validated_against_impl', n)
        ctx.distinct('states', (kinds, case['graphs'], case['shared'], plan))
    ctx.sample(case)


def setup(ctx):
    for k in train.KINDS:
        train.classes(k)
    import tensorD.base.pitf_ops, tensorD.factorization.pitf, tensorD.dataproc.reader, tensorD.demo.DataGenerator  # noqa
