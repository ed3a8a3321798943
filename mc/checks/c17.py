"""C17: a failure injected into every session call of a training, before or
after the call takes effect, alone and in pairs, followed by a clean training."""
import itertools

from mc import ref, train, traj
import numpy as np

SHAPE = (3, 4, 2)
RANK = {'CP': 2, 'NCP': 2, 'NTUCKER': [2, 3, 1], 'HOOI': [2, 2, 2], 'HOSVD': [2, 2, 2]}


class Fault(train.Snapshots):
    def __init__(self, model, at, when, exc):
        train.Snapshots.__init__(self, 0)
        self.model, self.at, self.when, self.exc, self.early = model, at, when, exc, None

    def hit(self):
        raise self.exc

    def before(self, sess, k, fetches, feed):
        if finished(self.model):
            self.early = k
        if k == self.at and self.when == 'before':
            self.hit()

    def after(self, sess, k, fetches, feed, result):
        if finished(self.model):
            self.early = k
        if k == self.at and self.when == 'after':
            self.hit()
        return result


class Boom(Exception):
    pass


def exceptions():
    e = train.tf1.errors
    return {'boom': Boom('injected'), 'internal': e.InternalError(None, None, 'injected'),
            'exhausted': e.ResourceExhaustedError(None, None, 'injected'), 'invalid': e.InvalidArgumentError(None, None, 'injected'),
            'deadline': e.DeadlineExceededError(None, None, 'injected'), 'range': e.OutOfRangeError(None, None, 'injected'),
            'cancelled': e.CancelledError(None, None, 'injected'), 'aborted': e.AbortedError(None, None, 'injected'),
            'precondition': e.FailedPreconditionError(None, None, 'injected'), 'value': ValueError('injected'),
            'interrupt': KeyboardInterrupt('injected'), 'stop': StopIteration('injected')}


def cases(tier):
    q = tier == 'quick'
    for kind in train.KINDS:
        for vi, verbose in ((-1, False), (2, False), (-1, True)) if kind != 'HOSVD' else ((-1, False),):
            for history in ('fresh', 'trained'):
                for when in ('before', 'after'):
                    for exc in sorted(exceptions()) if not q or vi == -1 and not verbose else ['boom', 'internal']:
                        yield dict(kind=kind, vi=vi, verbose=verbose, history=history, when=when, exc=exc, depth=1, steps=4)
            for k in range(12):
                yield dict(kind=kind, vi=vi, verbose=verbose, history='fresh', when='before', exc='boom', depth=2, steps=3, first=k, last=11)
            if not q:
                for k in range(16):
                    yield dict(kind=kind, vi=vi, verbose=verbose, history='trained', when='after', exc='internal', depth=2, steps=4, first=k, last=15)
        yield dict(kind=kind, lifecycle=True)
        for vi, verbose in ((-1, False), (2, False), (-1, True)) if kind != 'HOSVD' else ((-1, False),):
            for history in ('fresh', 'trained'):
                for exc in ('boom',) if q else ('boom', 'internal', 'value'):
                    yield dict(kind=kind, writer=True, vi=vi, verbose=verbose, history=history, steps=4, exc=exc)
        yield dict(kind=kind, provider=True)
    for vi, verbose in ((-1, False), (2, False), (-1, True)):
        for history in ('fresh', 'trained'):
            for when in ('before', 'after'):
                for exc in sorted(exceptions()) if not q else ('boom', 'internal', 'interrupt') if vi == -1 and not verbose else ('boom',):
                    yield dict(kind='PITF', vi=vi, verbose=verbose, history=history, when=when, exc=exc, steps=4)


def finished(m):
    f = m.train_finish
    return bool(f() if callable(f) else f)


def do_train(m, kind, steps):
    return m.train() if kind == 'HOSVD' else m.train(steps)


def judge_clean(kind, m, X, steps, ctx, label, reference):
    s = train.Snapshots()
    f = Fault(m, -1, '', None)
    f.first = 6
    with train.hooked(f):
        hist = do_train(m, kind, steps)
    ctx.check(f.early is None, '%s: finished was reported during training (session call %s)' % (label, f.early))
    ctx.check(finished(m), '%s: not finished after a completed training' % label)
    got = train.result(m, hist)
    with train.hooked(s):
        got2 = train.result(m, do_train(m, kind, steps))
    if kind in ('HOSVD', 'HOOI'):
        d = train.same(reference, got, 1e-5) or train.same(reference, got2, 1e-5)
        ctx.check(d is None, lambda: '%s: differs from an untouched model: %s' % (label, d))
        return
    v, text = traj.verify(kind, X, RANK[kind], steps, 0.0, s.states, got2)
    ctx.check(v != 'differ', lambda: '%s: %s' % (label, text))
    # the first clean training: same random start in this graph, or at least a run of the machine
    if train.same(got2, got, 1e-5) is not None:
        s = train.Snapshots()
        with train.hooked(s):
            got = train.result(m, do_train(m, kind, steps))
        v, text = traj.verify(kind, X, RANK[kind], steps, 0.0, s.states, got)
        ctx.check(v != 'differ', lambda: '%s: %s' % (label, text))


def run(case, ctx):
    kind = case['kind']
    X = train.tensor(SHAPE, 'generic', 4)
    if case.get('lifecycle'):
        return lifecycle(kind, X, ctx)
    if case.get('provider'):
        return provider(kind, X, ctx)
    if kind == 'PITF':
        return pitf(case, ctx)
    if case.get('writer'):
        return writer(case, kind, X, ctx)
    steps = case['steps']
    kw = dict(tol=0.0, vi=case['vi'], verbose=case['verbose'])
    with train.world(6):
        m = train.build(kind, X, RANK[kind], **kw)
        h = train.Hook()
        with train.hooked(h):
            reference = train.result(m, do_train(m, kind, steps))
        calls = h.calls
    for ks in itertools.product(range(calls), repeat=case['depth']):
        if 'first' in case and min(ks[0], case['last']) != case['first']:
            continue
        with train.world(6):
            m = train.build(kind, X, RANK[kind], **kw)
            if case['history'] == 'trained':
                do_train(m, kind, steps)
                ctx.check(finished(m), 'not finished after a completed training')
            for n, k in enumerate(ks):
                e = exceptions()[case['exc']]
                label = '%s: failure %s %s session call %d of %d (%s, %d earlier failures)' % (
                    kind, case['exc'], case['when'], k, calls, case['history'], n)
                f = Fault(m, k, case['when'], e)
                raised = None
                try:
                    with train.hooked(f):
                        do_train(m, kind, steps)
                except BaseException as x:
                    if f.calls <= k:
                        raise
                    raised = x
                ctx.count('evaluations')
                ctx.check(raised is not None, '%s: the failure did not reach the caller' % label)
                ctx.check(raised is e or e in (raised.__cause__, raised.__context__) or isinstance(raised, e.__class__) or isinstance(e, StopIteration),
                          lambda: '%s: the caller saw %r' % (label, raised))
                ctx.check(f.early is None, '%s: finished was reported at session call %s' % (label, f.early))
                ctx.check(not finished(m), '%s: finished is reported after the failure' % label)
            judge_clean(kind, m, X, steps, ctx, label + ', then a clean training', reference)
            ctx.distinct('distinct_nontrivial', (kind, case['vi'], case['verbose'], case['history'], case['when'], case['exc'], ks))
            ctx.sample(dict(case, calls=ks, of=calls))


def lifecycle(kind, X, ctx):
    from tensorD.base.error import TensorErr

    def no_predict(m, label):
        for idx in ((0, 0, 0), (2, 3, 1)):
            try:
                v = m.predict(*idx)
            except TensorErr:
                continue
            ctx.fail('%s: predict returned %r %s' % (kind, v, label))
        ctx.count('evaluations')
    with train.world(6):
        m = train.classes(kind)[0](train.environment(X))
        ctx.check(not finished(m), 'finished before build')
        no_predict(m, 'before the model was built')
        m.build_model(train.args_of(kind, RANK[kind], 0.0))
        ctx.check(not finished(m), 'finished before any training')
        no_predict(m, 'before any training')
        for n in (1, 2, 3):
            do_train(m, kind, n)
            ctx.check(finished(m), 'not finished after training %d' % n)
            p = m.predict(1, 1, 1)
            ctx.check(float(p) == float(m.full[1, 1, 1]), 'predict %r' % p)
            ctx.distinct('distinct_nontrivial', (kind, 'lifecycle', n))


class Pen(object):
    """Numbers the calls of every summary writer and fails the chosen one."""
    CALLS = ('__init__', 'add_summary', 'add_run_metadata', 'add_graph', 'add_event', 'flush', 'close')

    def __init__(self, at, exc):
        self.at, self.exc, self.calls, self.depth = at, exc, 0, 0

    def __enter__(self):
        self.cls = type('Pen', (train.CtlWriter,), {n: self.wrap(n) for n in self.CALLS})
        train.tf1.summary.FileWriter = self.cls
        return self

    def __exit__(self, *a):
        train.tf1.summary.FileWriter = train.CtlWriter
        self.at = -1

    def wrap(self, name):
        real = getattr(train.CtlWriter, name)

        def call(w, *a, **k):
            if self.depth:
                return real(w, *a, **k)
            n, self.calls = self.calls, self.calls + 1
            if n == self.at:
                raise self.exc
            self.depth += 1
            try:
                return real(w, *a, **k)
            finally:
                self.depth -= 1
        return call


def writer(case, kind, X, ctx):
    """A failing summary writer: either the training goes on and is right, or it fails visibly."""
    steps = case['steps']
    kw = dict(tol=0.0, vi=case['vi'], verbose=case['verbose'], summary=ctx.work)
    with train.world(6):
        m = train.build(kind, X, RANK[kind], **kw)
        with Pen(-1, None) as p:
            reference = train.result(m, do_train(m, kind, steps))
        calls = p.calls
    for k in range(calls):
        for exc in (case['exc'],):
            with train.world(6):
                m = train.build(kind, X, RANK[kind], **kw)
                if case['history'] == 'trained':
                    do_train(m, kind, steps)
                label = '%s: failure %s in summary writer call %d of %d (%s)' % (kind, exc, k, calls, case['history'])
                f = Fault(m, -1, '', None)
                raised = None
                with Pen(k, exceptions()[exc]), train.hooked(f):
                    try:
                        do_train(m, kind, steps)
                    except Exception as x:
                        raised = x
                ctx.count('evaluations')
                ctx.check(f.early is None, '%s: finished was reported at session call %s' % (label, f.early))
                ctx.check(finished(m) == (raised is None), '%s: finished is %s after the call %s' % (label, finished(m), 'returned' if raised is None else 'failed'))
                judge_clean(kind, m, X, steps, ctx, label + ', then a clean training', reference)
                ctx.distinct('distinct_nontrivial', (kind, case['vi'], case['verbose'], case['history'], 'writer', exc, k))


class Flaky(train.Prov):
    def __init__(self, X, at):
        train.Prov.__init__(self, X)
        self.at = at

    def full_tensor(self):
        self.asked += 1
        if self.asked - 1 == self.at:
            raise Boom('injected')
        return self.X


def provider(kind, X, ctx):
    """The provider fails in one of its answers during the build; building again gives a working model."""
    with train.world(6):
        p = Flaky(X, -1)
        train.build(kind, p, RANK[kind], tol=0.0)
        asked = p.asked
    with train.world(6):
        m = train.build(kind, X, RANK[kind], tol=0.0)
        reference = train.result(m, do_train(m, kind, 3))
    for history in ('fresh', 'built', 'trained'):
        for k in range(asked):
            with train.world(6):
                p = Flaky(X, -1)
                m = train.classes(kind)[0](train.environment(p))
                if history != 'fresh':
                    m.build_model(train.args_of(kind, RANK[kind], 0.0))
                if history == 'trained':
                    do_train(m, kind, 3)
                p.asked, p.at = 0, k
                raised = None
                try:
                    m.build_model(train.args_of(kind, RANK[kind], 0.0))
                except Boom as x:
                    raised = x
                label = '%s: provider fails in request %d of the build (%s)' % (kind, k, history)
                ctx.count('evaluations')
                ctx.check(history == 'trained' or not finished(m), '%s: finished' % label)
                ctx.check(raised is not None or p.asked <= k, '%s: the failure did not reach the caller' % label)
                p.at = -1
                m.build_model(train.args_of(kind, RANK[kind], 0.0))
                judge_clean(kind, m, X, 3, ctx, label + ', then built again', reference)
                ctx.distinct('distinct_nontrivial', (kind, 'provider', history, k))


def pitf(case, ctx):
    """The graph version of pairwise-interaction recovery."""
    import os
    from mc.checks import c21
    shape, n, delt, tao, steps = (2, 3, 2), 4, 0.9, 0.1, case['steps']
    T = c21.data(shape)
    data = lambda: train.tf1.constant(T.astype(np.float32))

    def model(path):
        from tensorD.factorization.pitf import PITF
        env = c21.Where(data(), path)
        m = PITF(env)
        ctx.check(not finished(m), 'PITF: finished before build')
        m.build_model(PITF.PITF_Args(2, delt, tao, n, validation_internal=case['vi'], verbose=case['verbose']))
        ctx.check(not finished(m), 'PITF: finished before any training')
        return m, env
    with train.world(6):
        m, _ = model(os.path.join(ctx.work, 'count'))
        h = train.Hook()
        with train.hooked(h):
            m.train(steps)
        ctx.check(finished(m), 'PITF: not finished after a completed training')
        calls = h.calls
    for k in range(calls):
        for exc in (case['exc'],):
            with train.world(6):
                path = os.path.join(ctx.work, '%s%s%s%s%s%s%s' % (k, exc, case['vi'], case['verbose'], case['history'], case['when'], steps))
                m, env = model(path)
                if case['history'] == 'trained':
                    m.train(steps)
                label = 'PITF: failure %s %s session call %d of %d (%s)' % (exc, case['when'], k, calls, case['history'])
                f = Fault(m, k, case['when'], exceptions()[exc])
                raised = None
                try:
                    with train.hooked(f):
                        m.train(steps)
                except BaseException as x:
                    if f.calls <= k:
                        raise
                    raised = x
                ctx.count('evaluations')
                ctx.check(raised is not None, '%s: the failure did not reach the caller' % label)
                ctx.check(f.early is None, '%s: finished was reported at session call %s' % (label, f.early))
                ctx.check(not finished(m), '%s: finished is reported after the failure' % label)
                env.path = os.path.join(path, 'clean')
                g = Fault(m, -1, '', None)
                with train.hooked(g):
                    m.train(steps)
                ctx.check(g.early is None and finished(m), '%s, then a clean training: finished at call %s, after it %s' % (label, g.early, finished(m)))
                env.path = os.path.join(path, 'judged')
                d = c21.Duals(n)
                with train.hooked(d):
                    m.train(steps)
                for w in train._writers:
                    w.close()
                c21.follow(ctx, label + ', then clean trainings', T, delt, tao, n, delt * n / np.sqrt(np.prod(shape)), steps, d, c21.events(env.path))
                ctx.distinct('distinct_nontrivial', ('PITF', case['vi'], case['verbose'], case['history'], case['when'], exc, k))
