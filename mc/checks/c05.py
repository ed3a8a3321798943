"""C05: dense-tensor objects are immutable values: every operation history gives
the answers of the array model.

A case fixes the first operations of a sequence; the remaining ones are
enumerated inside it.  Every sequence runs on objects created for it alone."""
import itertools

from mc import boot, ref
import numpy as np
from mc.boot import tf1
from tensorD.base import ops
from tensorD.base.type import DTensor

SHAPE = (2, 3, 2)
XV = (np.arange(12).reshape(SHAPE) * 5 % 13 - 4).astype(np.float32)
YV = (np.arange(12).reshape(SHAPE) * 7 % 11 - 3).astype(np.float32)
M1 = np.array([[1, 2], [3, 4], [5, 6]], np.float32)
M2 = np.array([[1, -1], [2, 0]], np.float32)


def shape_of(o):
    v = getattr(o, 'shape', None)
    return None if v is None else [int(d) for d in v]


class State(object):
    """Objects x, y, m (a matrix) and r (the latest third-order result)."""

    def __init__(self, form):
        mk = [lambda v: DTensor(v), lambda v: DTensor(tf1.constant(v))][form % 2]
        # form 2: float64 values beyond the digits of float32, whose products and sums are still exact
        X, Y, M = (XV, YV, M1) if form < 2 else [v.astype(float) * 2 ** 11 + 1 for v in (XV, YV, M1)]
        self.obj = dict(x=mk(X.copy()), y=mk(Y.copy()), m=mk(M.copy()))
        self.val = dict(x=X, y=Y, m=M)
        self.obj['r'], self.val['r'] = self.obj['x'], X
        self.mat, self.matv = self.obj['m'], M        # latest matrix result
        self.out = []                                  # (label, DTensor or tensor, value)


def op_unfold(t, mode):
    def f(s):
        o = s.obj[t].unfold(mode) if mode or t == 'y' else s.obj[t].unfold()
        v = ref.unfold(s.val[t], mode)
        s.mat, s.matv = o, v
        return o, v
    return f


def op_t2mat(t, r, c):
    def f(s):
        cc = [m for m in range(3) if m not in (r if isinstance(r, list) else [r])] if c == -1 else c
        o = s.obj[t].t2mat(r, c)
        v = ref.t2mat(s.val[t], r if isinstance(r, list) else [r], cc if isinstance(cc, list) else [cc])
        s.mat, s.matv = o, v
        return o, v
    return f


def op_vec(t):
    return lambda s: (s.obj[t].vectorize(), ref.vectorize(s.val[t]))


def op_bin(t, u, name):
    fn = dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, had=lambda a, b: a * b)[name]

    def f(s):
        o, v = fn(s.obj[t], s.obj[u]), fn(s.val[t], s.val[u])
        s.obj['r'], s.val['r'] = o, v
        return o, v
    return f


def op_raw(t, name, form):
    """The other operand is a plain array or a graph tensor, not a tensor object."""
    fn = dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, had=lambda a, b: a * b)[name]

    def f(s):
        w = (YV if s.val[t].ndim == 3 else M1).astype(s.val[t].dtype)
        o, v = fn(s.obj[t], tf1.constant(w) if form == 'tf' else w), fn(s.val[t], w)
        if v.ndim == 3:
            s.obj['r'], s.val['r'] = o, v
        return o, v
    return f


def op_scalar(t):
    def f(s):
        o, v = s.obj[t] * 2.0, s.val[t] * 2
        s.obj['r'], s.val['r'] = o, v
        return o, v
    return f


def op_fold(mode):
    def f(s):
        # fold back the unfolding of r: exercises the matrix object produced by unfold
        u = s.obj['r'].unfold(mode)
        o = DTensor.fold(u.T, mode, SHAPE)
        v = s.val['r']
        s.obj['r'] = o
        return o, v
    return f


def op_mul(t, u, a, b):
    return lambda s: (s.obj[t].mul(s.obj[u], a, b), ref.contract(s.val[t], s.val[u], a if isinstance(a, list) else [a],
                                                               b if isinstance(b, list) else [b]))


def op_item(t, idx):
    return lambda s: (s.obj[t][idx], s.val[t][idx])


def op_mat(name, other):
    def f(s):
        B, BV = (s.mat, s.matv) if other == 'mat' else (tf1.constant(M2, s.val['m'].dtype), M2)
        A, AV = s.obj['m'], s.val['m']
        if name == 'khatri':
            if AV.shape[1] != BV.shape[1]:
                return None
            return A.khatri(B), ref.khatri([AV, BV])
        return A.kron(B), ref.kron([AV, BV])
    return f


OPS = [
    ('x.unfold(0)', op_unfold('x', 0)), ('x.unfold(1)', op_unfold('x', 1)), ('x.unfold(2)', op_unfold('x', 2)),
    ('x.t2mat([1,0],2)', op_t2mat('x', [1, 0], 2)), ('x.t2mat(1,-1)', op_t2mat('x', 1, -1)),
    ('x.vectorize()', op_vec('x')),
    ('r=x+y', op_bin('x', 'y', 'add')), ('r=x-r', op_bin('x', 'r', 'sub')), ('r=r*y', op_bin('r', 'y', 'had')),
    ('r=r*2', op_scalar('r')),
    ('x[1]', op_item('x', 1)), ('x.mul(y,[0,2],[2,0])', op_mul('x', 'y', [0, 2], [2, 0])),
    ('r.unfold(1)', op_unfold('r', 1)), ('r.unfold(2)', op_unfold('r', 2)), ('r=fold(r.unfold(1))', op_fold(1)),
    ('y.unfold(0)', op_unfold('y', 0)), ('y.t2mat([2],[1,0])', op_t2mat('y', [2], [1, 0])),
    ('m.khatri(mat)', op_mat('khatri', 'mat')), ('m.kron(t)', op_mat('kron', 'const')),
    ('r.mul(x)', op_mul('r', 'x', 0, 0)),
]

# every argument variation of the same calls: all pairs (thorough: triples) of these
MORE = list(OPS)
for _t in 'xy':
    MORE += [('%s.unfold(%d)' % (_t, _m), op_unfold(_t, _m)) for _m in range(3)]
    for _n in (1, 2):
        for _r in itertools.permutations(range(3), _n):
            for _c in itertools.permutations([a for a in range(3) if a not in _r]):
                MORE.append(('%s.t2mat(%s,%s)' % (_t, list(_r), list(_c)), op_t2mat(_t, list(_r), list(_c))))
                if _n == 1:
                    MORE.append(('%s.t2mat(%s,%s)' % (_t, _r[0], list(_c)), op_t2mat(_t, _r[0], list(_c))))
for _n in (1, 2):
    for _a in itertools.permutations(range(3), _n):
        for _b in itertools.permutations(range(3), _n):
            if all(SHAPE[i] == SHAPE[j] for i, j in zip(_a, _b)):
                MORE.append(('x.mul(y,%s,%s)' % (_a, _b), op_mul('x', 'y', list(_a), list(_b))))
MORE += [('x[0]', op_item('x', 0)), ('x[-1]', op_item('x', -1)), ('x[1,2]', op_item('x', (1, 2))), ('x[1,0:2]', op_item('x', (1, slice(0, 2)))),
         ('y*x', op_bin('y', 'x', 'had')), ('y-x', op_bin('y', 'x', 'sub')), ('y.vectorize()', op_vec('y')), ('m.kron(mat)', op_mat('kron', 'mat'))]
MORE += [('r=%s %s raw %s' % (_t, _n, _f), op_raw(_t, _n, _f)) for _t, _n, _f in
         [('x', 'add', 'nd'), ('r', 'sub', 'nd'), ('x', 'had', 'nd'), ('r', 'add', 'tf'), ('x', 'sub', 'tf'), ('r', 'had', 'tf'),
          ('m', 'add', 'tf'), ('m', 'sub', 'nd'), ('m', 'had', 'nd')]]
MORE = [v for k, v in {n: (n, f) for n, f in MORE}.items()]


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    for form in (0, 1, 2):
        for first in range(len(MORE)):
            if tier == 'quick':
                yield dict(form=form, prefix=[first], table='more')
            else:
                for second in range(len(MORE)):
                    yield dict(form=form, prefix=[first, second], table='more')
    for form in (0, 1):
        for pre in itertools.product(range(len(OPS)), repeat=depth - 1):
            if tier == 'quick' and form == 0 and (pre[0] + pre[1]) % 2:
                continue
            yield dict(form=form, prefix=list(pre))
    # evaluations between changes of the value a tensor object stands for
    for source in ('variable', 'placeholder'):
        for n in range(1, 5 if tier == 'quick' else 7):
            for word in itertools.product('esoucd', repeat=n):
                if source == 'placeholder' and 's' in word:
                    continue
                if word[-1] in 'es':
                    yield dict(group='live', source=source, word=''.join(word))


def run_live(case, ctx):
    """e: evaluate, s: evaluate in a second session, o: a new object of the same tensor, u: its unfolding,
    c: the value changes (assignment or another feed), d: a sum with a constant object"""
    tf1.reset_default_graph()
    base = XV.copy()
    if case['source'] == 'variable':
        src = tf1.Variable(base)
        t = src.read_value()
        new = tf1.placeholder(tf1.float32, SHAPE)
        put = src.assign(new)
    else:
        src = t = tf1.placeholder(tf1.float32, SHAPE)
    x, xv, second = DTensor(t), (lambda v: v), None
    y = DTensor(YV.copy())
    with boot.RealSession(config=boot.config()) as sess, boot.RealSession(config=boot.config()) as other:
        held = {sess: base, other: YV}
        if case['source'] == 'variable':
            for s, v in held.items():
                s.run(put, {new: v})
        for k, c in enumerate(case['word']):
            where = 'step %d of %s over a %s' % (k + 1, case['word'], case['source'])
            if c in 'es':
                s = sess if c == 'e' else other
                feed = None if case['source'] == 'variable' else {src: held[s]}
                ctx.equal(x.eval(feed_dict=feed, session=s), xv(held[s]), 'eval at ' + where, exact=True)
            elif c == 'o':
                x, xv = DTensor(t), (lambda v: v)
            elif c == 'c':
                held[sess] = held[sess] * 2 - 1
                if case['source'] == 'variable':
                    sess.run(put, {new: held[sess]})
            elif c == 'u':
                if len(x.get_shape().as_list()) == 3:
                    x, xv = x.unfold(1), (lambda v, f=xv: ref.unfold(f(v), 1))
            elif c == 'd':
                if len(x.get_shape().as_list()) == 3:
                    x, xv = x + y, (lambda v, f=xv: f(v) + YV)
            ctx.count('transitions')
            ctx.distinct('states', ('live', case['source'], case['word'][:k + 1]))
    ctx.count('traces_validated_against_impl')
    ctx.sample(['live', case['source'], case['word']])


def run(case, ctx):
    if case.get('group') == 'live':
        return run_live(case, ctx)
    tf1.reset_default_graph()
    todo = []
    table = MORE if case.get('table') else OPS
    for last in range(len(table)):
        seq = case['prefix'] + [last]
        s = State(case['form'])
        names = []
        for k in seq:
            name, f = table[k]
            names.append(name)
            r = f(s)
            if r is None:
                continue
            o, v = r
            if isinstance(o, DTensor):
                ctx.check(list(o.T.get_shape().as_list()) == list(np.shape(v)) and
                          o.get_shape().as_list() == list(np.shape(v)), lambda: '%s: static shape %s, expected %s' % (
                              '; '.join(names), o.get_shape(), np.shape(v)))
                ctx.check(shape_of(o) == list(np.shape(v)), lambda: '%s: .shape %s, expected %s' % (
                    '; '.join(names), shape_of(o), np.shape(v)))
                o = o.T
            s.out.append(('; '.join(names), o, v))
            ctx.count('transitions')
            ctx.distinct('states', tuple(names) + (case['form'],))
        for t in ('x', 'y', 'm', 'r'):
            s.out.append(('%s after %s' % (t, '; '.join(names)), s.obj[t].T, s.val[t]))
            ctx.check(shape_of(s.obj[t]) == list(s.val[t].shape), '%s.shape changed after %s' % (t, names))
        todo += s.out
        ctx.count('traces_validated_against_impl')
    for (label, _, want), g in zip(todo, boot.evaluate([t[1] for t in todo])):
        ctx.equal(g, want, label, exact=True)
    # evaluation itself must not disturb the object either
    s = State(case['form'])
    with boot.RealSession(config=boot.config()) as sess:
        for k in case['prefix']:
            table[k][1](s)
        for t in ('x', 'y', 'r'):
            ctx.equal(s.obj[t].eval(session=sess), s.val[t], '%s.eval after %s' % (t, case['prefix']), exact=True)
            ctx.equal(s.obj[t].eval(session=sess), s.val[t], 'second %s.eval after %s' % (t, case['prefix']), exact=True)
    ctx.sample([table[k][0] for k in seq])
