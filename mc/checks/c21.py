"""C21: the recovery iterations of both versions as a state machine over enumerated sample lists.

The sampler is an environment answer: the check enumerates it (by replacing the
module's sampler) and afterwards reads the list really used from the first dual
vector, which is the step size times the sampled entries (all entries differ).
A second call of the sampler would get another list, so drawing again shows up
as a run the reference machine does not have."""
import glob
import itertools
import os

from mc import ref, train
import numpy as np
from mc.boot import tf1


def data(shape, kind='pitf'):
    g = np.random.RandomState(9)
    A, B, C = g.randn(shape[0], shape[1]), g.randn(shape[1], shape[2]), g.randn(shape[2], shape[0])
    T = A[:, :, None] / np.sqrt(shape[2]) + B[None] / np.sqrt(shape[0]) + C.T[:, None, :] / np.sqrt(shape[1])
    if kind == 'positive':
        T = np.abs(T) + 0.3
    if kind == 'scaled':
        T = 40 * T
    return T.astype(np.float32).astype(float)


def positions(shape):
    return list(itertools.product(*[range(s) for s in shape]))


def lists(shape, tier):
    q = tier == 'quick'
    pos = positions(shape)
    for n in (1, 2, 3):
        if len(pos) ** n <= (150 if q else 5000):
            for l in itertools.product(pos, repeat=n):
                yield list(l)
    for l in itertools.combinations(pos, 4):
        if len(pos) <= 8:
            yield list(l)
    yield pos
    yield pos[::-1]
    latin, used = [], [set(), set(), set()]
    for p in pos:
        k = [(p[r], p[c]) for r, c, _ in ref.PAIRS]
        if not any(x in u for x, u in zip(k, used)):
            latin.append(p)
            for x, u in zip(k, used):
                u.add(x)
    yield latin
    yield latin[::-1]


SHAPES = [(2, 2, 2), (2, 3, 2), (1, 2, 3), (3, 2, 1), (3, 3, 2), (2, 3, 4)]
PARS = [(0.9, 0.1), (0.5, 1.0), (1.3, 0.0), (0.9, 0.02)]


def cases(tier):
    for version in ('array', 'graph'):
        for shape in SHAPES:
            ls = list(lists(shape, tier))
            by = {}
            for l in ls:
                by.setdefault(len(l), []).append(l)
            for n, group in by.items():
                size = 150 if version == 'array' else 20
                for k in range(0, len(group), size):
                    for i, par in enumerate(PARS):
                        if i and (k or tier == 'quick' and version == 'graph' and n not in (2, 4)) and (i + k // size + n) % 4:
                            continue
                        for kind in ('pitf',) if i else ('pitf', 'positive', 'scaled'):
                            if kind != 'pitf' and (k // size) % 3:
                                continue
                            yield dict(version=version, shape=shape, kind=kind, par=par, n=n, lists=group[k:k + size])
    for shape in SHAPES:
        yield dict(version='seeded', shape=shape)
    for vi in (-1, 1, 2, 3, 5):
        for steps in (1, 2, 3, 6, 7):
            yield dict(version='cadence', vi=vi, steps=steps)
            yield dict(version='cadence', vi=vi, steps=steps, verbose=True)
    for vi in (-1, 1, 7, 50):
        yield dict(version='cadence', vi=vi, steps=130 if tier == 'quick' else 260)


def machine(T, spl, delt, tao, steps, adj, wiggle=0.0):
    """The stated iteration.  Returns per step (y after, X, Y, Z, erate, rmse)."""
    shape, n = T.shape, len(spl[0])
    vol = np.sqrt(np.prod(shape))
    d, t = delt * n / vol, tao * vol
    rng = np.random.RandomState(1)
    bend = lambda v: v * (1 + wiggle * rng.uniform(-1, 1, np.shape(v))) if wiggle else v
    y = np.zeros(n)
    e1 = ref.pomega_tensor(spl, T)
    out = []
    for k in range(steps):
        M = [bend(ref.shrink(bend(adj(spl, y, shape, i)), t, 'complicated' if i == 0 else 'normal')) / np.sqrt(shape[ref.PAIRS[i][2]]) for i in range(3)]
        e = bend(e1 - bend(ref.pomega_pair(spl, M[0], M[1], M[2], shape)))
        y = bend(y + d * e)
        out.append((y, M, np.linalg.norm(e) / np.linalg.norm(e1), np.sqrt(np.mean(e ** 2))))
    return out


def overwrite(spl, v, shape, d):
    r, c, _ = ref.PAIRS[d]
    out = np.zeros((shape[r], shape[c]))
    for i in range(len(v)):
        out[int(spl[r][i]), int(spl[c][i])] = v[i]
    return out


def first(spl, v, shape, d):
    return overwrite([s[::-1] for s in spl], v[::-1], shape, d)


def repeated(spl):
    return any(len(set(zip(map(int, spl[r]), map(int, spl[c])))) < len(spl[0]) for r, c, _ in ref.PAIRS)


class Judge(object):
    """Compares an observed run with the machine under each admissible adjoint (C19 decides which is right)."""

    def __init__(self, T, spl, delt, tao, steps, eps):
        self.runs = []
        for adj in ([ref.adjoint, overwrite, first] if repeated(spl) else [ref.adjoint]):
            a = machine(T, spl, delt, tao, steps, adj)
            b = machine(T, spl, delt, tao, steps, adj, eps)
            tol = []
            worst = 0.0
            for x, z in zip(a, b):
                drift = max([np.abs(x[0] - z[0]).max()] + [np.abs(p - q).max() for p, q in zip(x[1], z[1])] + [abs(x[2] - z[2]), abs(x[3] - z[3])])
                scale = max(np.abs(x[0]).max(), x[2], x[3], 1.0)
                worst = max(worst, 10 * drift + 20 * eps * scale)
                tol.append(worst)
            self.runs.append((a, tol))

    def judge(self, got):
        """got: list of (step index, dict of y / M / erate / rmse observed).  None or a text."""
        texts = []
        for a, tol in self.runs:
            bad = None
            for k, o in got:
                y, M, er, rm = a[k]
                want = dict(y=y, X=M[0], Y=M[1], Z=M[2], erate=er, rmse=rm)
                for name, v in o.items():
                    v = np.asarray(v, float)
                    if v.shape != np.shape(want[name]) or not np.all(np.abs(v - want[name]) <= tol[k]):
                        bad = 'step %d: %s is %s, expected %s' % (k + 1, name, v.tolist(), np.asarray(want[name]).tolist())
                        break
                if bad:
                    break
            if bad is None:
                return None
            texts.append(bad)
        return texts[0]


def locate(T, y1, d):
    """Sample list read off the first dual vector."""
    flat = T.reshape(-1)
    idx = [int(np.argmin(np.abs(flat - v / d))) for v in y1]
    ok = all(abs(flat[i] - v / d) <= 1e-4 * max(1, np.abs(flat).max()) for i, v in zip(idx, y1))
    return [np.array(c) for c in np.unravel_index(idx, T.shape)] if ok else None


def array_run(T, delt, tao, n, steps, rank=2):
    from tensorD.factorization.pitf_numpy import PITF_np
    with train.world(1):
        m = PITF_np(train.environment(T))
        return m.exact_recovery(PITF_np.PITF_np_Args(rank=rank, delt=delt, tao=tao, sample_num=n, steps=steps), T)


class Sampler(object):
    """Answers the library's sampler with the enumerated list, once per run."""

    def __init__(self, mod):
        self.mod, self.old = mod, getattr(mod, 'sample3D_rule', None)
        self.calls = 0
        self.list = None

    def next(self, shape, n):
        self.calls += 1
        lst = self.list if self.calls == 1 else [tuple((i + 1) % s for i, s in zip(p, shape)) for p in self.list]
        return [np.array([p[i] for p in lst], np.int32) for i in range(3)]

    def __enter__(self):
        if self.old is not None:
            self.mod.sample3D_rule = self.answer
        return self

    def __exit__(self, *a):
        if self.old is not None:
            self.mod.sample3D_rule = self.old


class ArraySampler(Sampler):
    def answer(self, shape, n, *a, **k):
        return tuple(self.next(shape, n))


class GraphSampler(Sampler):
    def answer(self, shape, n, *a, **k):
        out = tf1.py_func(lambda: tuple(self.next(shape, n)), [], [tf1.int32] * 3, stateful=True)
        for o in out:
            o.set_shape([n])
        return tuple(out)


def run(case, ctx):
    if case['version'] == 'array':
        return array(case, ctx)
    if case['version'] == 'graph':
        return graph(case, ctx)
    if case['version'] == 'seeded':
        return seeded(tuple(case['shape']), ctx)
    return cadence(case, ctx)


def array(case, ctx):
    from tensorD.base import pitf_ops_numpy as pn
    shape, (delt, tao), n = tuple(case['shape']), case['par'], case['n']
    T = data(shape, case['kind'])
    d = delt * n / np.sqrt(np.prod(shape))
    for lst in case['lists']:
        with ArraySampler(pn) as s:
            s.list = [tuple(p) for p in lst]
            label = 'array recovery of shape %s, samples %s, delt=%s tao=%s' % (shape, s.list, delt, tao)
            got = {}
            for steps in (1, 2, 5):
                s.calls = 0
                np.random.seed(4)
                got[steps] = array_run(T, delt, tao, n, steps)
        spl = locate(T, got[1][0], d)
        ctx.check(spl is not None, lambda: '%s: dual vector %s after one step is not the step size times sampled entries' % (label, got[1][0].tolist()))
        if s.calls:
            want = [np.array([p[i] for p in lst]) for i in range(3)]
            ctx.check(all(np.array_equal(x, y) for x, y in zip(spl, want)), lambda: '%s: entries at %s were sampled' % (label, list(zip(*[x.tolist() for x in spl]))))
        else:
            ctx.note('sampler not called through its module; sample list read from the dual vector')
        j = Judge(T, spl, delt, tao, 5, 1e-13)
        for steps, (y, X, Y, Z, If, Ef, Rf) in got.items():
            ctx.check(list(If) == list(range(steps)) and len(Ef) == len(Rf) == steps, lambda: '%s: records %s %s %s for %d steps' % (label, If, Ef, Rf, steps))
            obs = [(k, dict(erate=Ef[k], rmse=Rf[k])) for k in range(steps)]
            obs[-1][1].update(y=y, X=X, Y=Y, Z=Z)
            bad = j.judge(obs)
            ctx.check(bad is None, lambda: '%s: %s' % (label, bad))
            ctx.count('traces_validated_against_impl')
            ctx.count('transitions', steps)
            ctx.distinct('states', (shape, case['kind'], np.round(y, 9).tobytes(), steps))
    ctx.sample(dict(shape=shape, samples=case['lists'][0], delt=delt, tao=tao))


class Duals(train.Hook):
    """The float variable of length n after each session call, and the samples held."""

    def __init__(self, n):
        train.Hook.__init__(self)
        self.n, self.y, self.idx = n, [], []

    def after(self, sess, k, fetches, feed, result):
        snap = train.snapshot(sess)
        ys = [v for v in snap.values() if v.shape == (self.n,) and v.dtype.kind == 'f']
        self.y.append([v.copy() for v in ys])
        return result


def events(path):
    out = []
    for f in sorted(glob.glob(os.path.join(path, '*tfevents*'))):
        for e in tf1.train.summary_iterator(f):
            vals = [(v.tag, v.simple_value) for v in e.summary.value]
            if vals:
                out.append((e.step, vals))
    return out


def observed(ctx, label, ev):
    out = []
    for step, vals in ev:
        er = [v for t, v in vals if 'error' in t]
        ls = [v for t, v in vals if 'loss' in t]
        ctx.check(len(vals) == 2 and len(er) == len(ls) == 1, lambda: '%s: logged %s' % (label, vals))
        out.append((step - 1, dict(erate=er[0], rmse=ls[0])))
    return out


_dirs = itertools.count()


class Where(object):
    """An environment whose summary directory can be chosen per training."""

    def __new__(cls, T, path):
        from tensorD.factorization.env import Environment

        class E(Environment):
            summary_path = property(lambda self: self.path)
        e = E(train.Prov(T), path)
        e.path = path
        return e


def pitf_model(T, delt, tao, n, vi, env, verbose=False):
    from tensorD.factorization.pitf import PITF
    m = PITF(env)
    m.build_model(PITF.PITF_Args(2, delt, tao, n, validation_internal=vi, verbose=verbose))
    return m


def graph(case, ctx):
    from tensorD.base import pitf_ops as pt
    shape, (delt, tao), n = tuple(case['shape']), case['par'], case['n']
    T = data(shape, case['kind'])
    d = delt * n / np.sqrt(np.prod(shape))
    steps = 4
    with train.world(3), GraphSampler(pt) as s:
        root = os.path.join(ctx.work, 'p%d' % next(_dirs))
        env = Where(tf1.constant(T.astype(np.float32)), root)
        m = pitf_model(T, delt, tao, n, 1, env)
        for i, lst in enumerate(case['lists']):
            s.list = [tuple(p) for p in lst]
            s.calls = 0
            env.path = path = os.path.join(root, str(i))
            label = 'graph recovery of shape %s, samples %s, delt=%s tao=%s' % (shape, s.list, delt, tao)
            h = Duals(n)
            with train.hooked(h):
                m.train(steps)
            for w in train._writers:
                w.close()
            follow(ctx, label, T, delt, tao, n, d, steps, h, events(path), s, lst)
    ctx.sample(dict(shape=shape, samples=case['lists'][0], delt=delt, tao=tao))


def follow(ctx, label, T, delt, tao, n, d, steps, h, ev, s=None, lst=None):
    """Judges a run of the graph version from its dual vectors and its log."""
    # y after every update: the changing float vectors, starting from zero
    seqs = list(zip(*h.y)) if h.y and all(len(y) == len(h.y[-1]) for y in h.y) else []
    found = False
    for seq in seqs:
        y = [v for i, v in enumerate(seq) if np.any(v) and (i == 0 or not np.array_equal(v, seq[i - 1]))]
        if not y:
            continue
        spl = locate(T, y[0], d)
        if spl is None:
            continue
        found = True
        if s is not None and s.calls:
            want = [np.array([p[i] for p in lst]) for i in range(3)]
            ctx.check(all(np.array_equal(a, b) for a, b in zip(spl, want)), lambda: '%s: entries at %s were sampled' % (label, list(zip(*[x.tolist() for x in spl]))))
        elif s is not None:
            ctx.note('sampler not called through its module; sample list read from the dual vector')
        j = Judge(T, spl, delt, tao, steps, 3e-7)
        obs = observed(ctx, label, ev)
        obs += [(k, dict(y=v)) for k, v in enumerate([v for i, v in enumerate(seq) if np.any(v)][:steps])] if len([v for v in seq if np.any(v)]) == steps else [(len(y) - 1, dict(y=y[-1]))] if len(y) <= steps else []
        bad = j.judge(obs)
        ctx.check(bad is None, lambda: '%s: %s' % (label, bad))
        ctx.count('traces_validated_against_impl')
        ctx.count('transitions', steps)
        ctx.distinct('states', (T.shape, np.round(y[-1], 5).tobytes(), steps))
    ctx.check(found, lambda: '%s: no dual vector is the step size times the sampled entries after the first step: %s' % (label, [[v.tolist() for v in y] for y in h.y[:3]]))


def seeded(shape, ctx):
    """The library's own sampler: whatever it draws, one list for the whole run, and both versions agree on it."""
    T = data(shape)
    for n in (1, 3, 5, 9):
        for delt, tao in PARS:
            d = delt * n / np.sqrt(np.prod(shape))
            for seed in (1, 2):
                label = 'recovery of shape %s with %d samples, delt=%s tao=%s, seed %d' % (shape, n, delt, tao, seed)
                got = {}
                for steps in (1, 3, 6, 130):
                    np.random.seed(seed)
                    got[steps] = array_run(T, delt, tao, n, steps)
                spl = locate(T, got[1][0], d)
                ctx.check(spl is not None, lambda: 'array %s: dual vector %s' % (label, got[1][0].tolist()))
                j = Judge(T, spl, delt, tao, 130, 1e-13)
                for steps, r in got.items():
                    bad = j.judge([(k, dict(erate=r[5][k], rmse=r[6][k])) for k in range(steps)] + [(steps - 1, dict(y=r[0], X=r[1], Y=r[2], Z=r[3]))])
                    ctx.check(bad is None, lambda: 'array %s: %s' % (label, bad))
                    ctx.count('traces_validated_against_impl')
                    ctx.count('transitions', steps)
            with train.world(seed):
                path = os.path.join(ctx.work, 's%d' % next(_dirs))
                env = Where(tf1.constant(T.astype(np.float32)), path)
                m = pitf_model(T, delt, tao, n, 1, env)
                for rep in range(2):
                    env.path = p = path + str(rep)
                    h = Duals(n)
                    with train.hooked(h):
                        m.train(5)
                    for w in train._writers:
                        w.close()
                    follow(ctx, 'graph ' + label, T, delt, tao, n, d, 5, h, events(p))


def cadence(case, ctx):
    shape, n, delt, tao = (2, 3, 2), 4, 0.9, 0.1
    T = data(shape)
    with train.world(5):
        path = os.path.join(ctx.work, 'c%d' % next(_dirs))
        m = pitf_model(T, delt, tao, n, case['vi'], Where(tf1.constant(T.astype(np.float32)), path), case.get('verbose', False))
        h = Duals(n)
        with train.hooked(h):
            m.train(case['steps'])
        for w in train._writers:
            w.close()
        ev = events(path)
        vi, steps = case['vi'], case['steps']
        want = [k for k in range(1, steps + 1) if k in (1, steps) or case.get('verbose') or (vi != -1 and k % vi == 0)]
        label = 'graph recovery, validation_internal=%d, verbose=%s, %d steps' % (vi, case.get('verbose', False), steps)
        ctx.check([e[0] for e in ev] == want, lambda: '%s: logged steps %s, expected %s' % (label, [e[0] for e in ev], want))
        follow(ctx, label, T, delt, tao, n, delt * n / np.sqrt(np.prod(shape)), steps, h, ev)
        ctx.check(m.train_finish() is True, '%s: training not reported as finished' % label)
