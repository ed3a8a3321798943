"""Controlled training: builds and trains the real models with every session
call visible to (and steerable by) the check.

The only seam is the TensorFlow API the library calls (tf.Session, the summary
writer); nothing in /repo is instrumented."""
import contextlib
import itertools

import numpy as np

from . import boot
from .boot import RealSession, config, tf1

RealWriter = tf1.summary.FileWriter
_hook = [None]
_sessions = []
_writers = []


class CtlSession(RealSession):
    def __init__(self, target='', graph=None, config=None):
        RealSession.__init__(self, target, graph, config if config is not None else boot.config())
        _sessions.append(self)
        self.plain = False

    def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
        h = _hook[0]
        if h is None or self.plain:
            return RealSession.run(self, fetches, feed_dict, options, run_metadata)
        self.plain = True
        try:
            k = h.calls
            h.calls += 1
            h.before(self, k, fetches, feed_dict)
            r = RealSession.run(self, fetches, feed_dict, options, run_metadata)
            return h.after(self, k, fetches, feed_dict, r)
        finally:
            self.plain = False


class CtlWriter(RealWriter):
    def __init__(self, *a, **k):
        RealWriter.__init__(self, *a, **k)
        _writers.append(self)


def install():
    tf1.Session = CtlSession
    tf1.summary.FileWriter = CtlWriter


install()


class Hook(object):
    """Records; subclasses steer."""

    def __init__(self):
        self.calls = 0

    def before(self, sess, k, fetches, feed):
        pass

    def after(self, sess, k, fetches, feed, result):
        return result


@contextlib.contextmanager
def hooked(h):
    old, _hook[0] = _hook[0], h
    try:
        yield h
    finally:
        _hook[0] = old


def close_all():
    for w in _writers:
        try:
            w.close()
        except Exception:
            pass
    del _writers[:]
    for s in _sessions:
        try:
            s.close()
        except Exception:
            pass
    del _sessions[:]


@contextlib.contextmanager
def world(seed=None):
    """A fresh graph; sessions and writers opened inside are closed at the end."""
    with tf1.Graph().as_default() as g:
        if seed is not None:
            tf1.set_random_seed(seed)
        try:
            yield g
        finally:
            close_all()


def flat(x):
    """Leaves of a fetch structure or of its result, in the same order."""
    if isinstance(x, dict):
        return [y for k in x for y in flat(x[k])]
    if isinstance(x, (list, tuple)) and not hasattr(x, 'name'):
        return [y for z in x for y in flat(z)]
    return [x]


def names(fetches):
    return [f if isinstance(f, str) else getattr(f, 'name', None) for f in flat(fetches)]


def rebuild(struct, leaves):
    it = iter(leaves)

    def go(x):
        if isinstance(x, dict):
            return x.__class__((k, go(x[k])) for k in x)
        if isinstance(x, (list, tuple)) and not hasattr(x, 'name'):
            v = [go(z) for z in x]
            if isinstance(x, tuple):
                return x.__class__(*v) if hasattr(x, '_fields') else tuple(v)
            return v
        return next(it)
    return go(struct)


def variables(graph):
    return graph.get_collection(tf1.GraphKeys.GLOBAL_VARIABLES)


def snapshot(sess):
    """{variable name: value} of the initialised variables of the session graph."""
    vs = variables(sess.graph)
    if not vs:
        return {}
    reads = [v.value() for v in vs]
    try:
        vals = RealSession.run(sess, reads)
        return {v.name: np.array(x) for v, x in zip(vs, vals)}
    except tf1.errors.FailedPreconditionError:
        out = {}
        for v, r in zip(vs, reads):
            try:
                out[v.name] = np.array(RealSession.run(sess, r))
            except tf1.errors.FailedPreconditionError:
                pass
        return out


class Snapshots(Hook):
    """Variable values before each of the first `first` session calls."""

    def __init__(self, first=6):
        Hook.__init__(self)
        self.first, self.states = first, []

    def before(self, sess, k, fetches, feed):
        if k < self.first:
            s = snapshot(sess)
            if s:
                self.states.append(s)


# --------------------------------------------------------------------------
# models


class Prov(object):
    def __init__(self, X):
        self.X, self.asked = X, 0

    def full_tensor(self):
        self.asked += 1
        return self.X


KINDS = ('CP', 'NCP', 'NTUCKER', 'HOSVD', 'HOOI')
ITER = ('CP', 'NCP', 'NTUCKER', 'HOOI')
TUCKER = ('NTUCKER', 'HOSVD', 'HOOI')


def classes(kind):
    if kind == 'CP':
        from tensorD.factorization.cp import CP_ALS as c
        return c, c.CP_Args
    if kind == 'NCP':
        from tensorD.factorization.ncp import NCP_BCU as c
        return c, c.NCP_Args
    if kind == 'NTUCKER':
        from tensorD.factorization.ntucker import NTUCKER_BCU as c
        return c, c.NTUCKER_Args
    if kind == 'HOSVD':
        from tensorD.factorization.tucker import HOSVD as c
        return c, c.HOSVD_Args
    from tensorD.factorization.tucker import HOOI as c
    return c, c.HOOI_Args


def args_of(kind, rank, tol=1e-4, vi=-1, verbose=False):
    a = classes(kind)[1]
    if kind == 'HOSVD':
        return a(list(rank))
    if kind in ('CP', 'NCP'):
        return a(rank, tol=tol, validation_internal=vi, verbose=verbose)
    return a(list(rank), tol=tol, validation_internal=vi, verbose=verbose)


def environment(X, summary=None):
    from tensorD.factorization.env import Environment
    return Environment(X if hasattr(X, 'full_tensor') else Prov(X), summary)


def build(kind, X, rank, tol=1e-4, vi=-1, verbose=False, summary=None):
    m = classes(kind)[0](environment(X, summary))
    m.build_model(args_of(kind, rank, tol, vi, verbose))
    return m


def result(m, hist=None):
    """Copies of everything a trained model reports."""
    c = lambda v: None if v is None else np.array(v)
    out = dict(full=c(m.full), finish=m.train_finish,
               factors=None if m.factors is None else [np.array(f) for f in m.factors])
    for k in ('core', 'lambdas'):
        if hasattr(m, k):
            out[k] = c(getattr(m, k))
    if hist is not None:
        out['hist'] = [[float(v) for v in h] for h in hist]
    return out


def train(m, steps):
    h = m.train(steps)
    return result(m, h)


def same(a, b, tol=0.0):
    """Why results a and b differ, or None."""
    for k in a:
        u, v = a[k], b.get(k)
        if k == 'factors':
            if (u is None) != (v is None):
                return k
            if u is not None and (len(u) != len(v) or any(close(x, y, tol) for x, y in zip(u, v))):
                return '%s %s vs %s' % (k, [x.tolist() for x in u], [x.tolist() for x in v])
        elif isinstance(u, np.ndarray) or isinstance(v, np.ndarray):
            if u is None or v is None or close(u, v, tol):
                return '%s %s vs %s' % (k, u, v)
        elif k == 'hist':
            if len(u) != len(v) or close(u, v, tol):
                return '%s %s vs %s' % (k, u, v)
        elif u != v:
            return '%s %s vs %s' % (k, u, v)
    return None


def close(x, y, tol):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return 'shape'
    if tol == 0:
        return None if np.array_equal(x, y, equal_nan=True) else 'value'
    s = float(np.max(np.abs(y))) if y.size else 0.0
    return None if np.allclose(x, y, rtol=tol, atol=tol * max(s, 1e-30), equal_nan=True) else 'value'


# --------------------------------------------------------------------------
# data


def tensor(shape, kind='generic', seed=0):
    """Deterministic test data, float64 unless stated."""
    g = np.random.RandomState(1000 * seed + int(np.dot(shape, 7 ** np.arange(len(shape)) % 1009)) % 100000)
    X = g.uniform(0.1, 1.0, size=shape)
    if kind == 'generic':
        return X
    if kind == 'signed':
        return X - 0.55
    if kind == 'zeros':                      # some exact zeros
        m = g.uniform(size=shape) < 0.3
        m.flat[0] = False
        return np.where(m, 0.0, X)
    if kind == 'ints':
        return np.round(X * 8)
    if kind == 'tiny':
        return X * 1e-3
    if kind == 'large':
        return X * 50
    if kind == 'mixed':                      # slices of very different size
        return X * 10.0 ** (np.arange(shape[-1]) % 3 - 1)
    if kind == 'lowrank':
        fs = [g.uniform(0.1, 1, size=(s, 2)) for s in shape]
        out = np.zeros(shape)
        for r in range(2):
            t = np.array(1.0)
            for f in fs:
                t = np.multiply.outer(t, f[:, r])
            out = out + t
        return out
    raise KeyError(kind)


# --------------------------------------------------------------------------
# initial states


def candidates(state, shapes, limit=300):
    """Assignments of the variables in a snapshot to the wanted shapes: lists of
    arrays, distinct values, non-zero."""
    groups = []
    for s in shapes:
        seen, vals = set(), []
        for name in sorted(state):
            v = state[name]
            if v.shape == tuple(s) and np.any(v != 0) and np.all(np.isfinite(v)):
                k = v.tobytes()
                if k not in seen:
                    seen.add(k)
                    vals.append((name, v))
        groups.append(vals)
    if any(not g for g in groups):
        return
    combos = list(itertools.islice(itertools.product(*groups), 5000))
    combos.sort(key=lambda c: len(set(x[0] for x in c)) < len(c))     # distinct variables first
    for combo in combos[:limit]:
        yield [c[1] for c in combo]
