"""Schedule exploration of one session call.

The executor may run the operations of a call in any order the data-flow graph
permits.  Two schedules give different results only if they order two
conflicting accesses to a variable differently (dependence-equivalent schedules
execute the same reads on the same values).  So the classes of schedules are the
consistent orientations of the unordered conflicting pairs; each class is run
for real, on a copy of the graph in which control edges force its orientation."""
import itertools

import numpy as np

from . import boot, train
from .boot import RealSession, tf1

# operations whose output may be (part of) the buffer of their input
MAY_ALIAS = {'Identity', 'IdentityN', 'Reshape', 'Squeeze', 'ExpandDims', 'StopGradient', 'PreventGradient', 'Bitcast', 'Slice', 'StridedSlice',
             'Unpack', 'Transpose', 'Cast', 'AddN', 'Pack', 'ConcatV2', 'Tile', 'Sum', 'Max', 'Prod', 'Mean', 'Switch', 'Merge', 'Enter', 'Exit', 'NextIteration',
             'CheckNumerics', 'Snapshot', 'Split', 'SplitV', 'BroadcastTo', 'Squeeze', 'Pad', 'ReverseV2', 'Where', 'Abs', 'EnsureShape', 'Print', 'PrintV2', 'Conj', 'Real'}
NO_VALUE = {'Shape', 'ShapeN', 'Rank', 'Size', 'IsVariableInitialized', 'VarIsInitializedOp', 'VariableShape', 'NoOp'}
READ_RES = {'ReadVariableOp', 'ResourceGather', 'ResourceGatherNd'}


class Call(object):
    """A recorded session call."""

    def __init__(self, graph, fetches, feed, state, label):
        self.graph, self.fetches, self.feed, self.state, self.label = graph, fetches, feed, state, label


class Recorder(train.Hook):
    def __init__(self):
        train.Hook.__init__(self)
        self.list = []

    def before(self, sess, k, fetches, feed):
        names = []
        for f in train.flat(fetches):
            n = f if isinstance(f, str) else f.name
            names.append(n)
        feeds = {(t if isinstance(t, str) else t.name): np.array(v) for t, v in (feed or {}).items()}
        self.list.append(Call(sess.graph, names, feeds, train.snapshot(sess), 'call %d' % k))


def element(graph, name):
    return graph.as_graph_element(name, True, True)


def closure(graph, names, fed):
    """Operations needed for the fetches, in a topological order."""
    order, seen = [], set()
    stack = []
    for n in names:
        e = element(graph, n)
        op = e if isinstance(e, tf1.Operation) else e.op
        stack.append((op, False))
    while stack:
        op, done = stack.pop()
        if done:
            order.append(op)
            continue
        if op in seen:
            continue
        seen.add(op)
        stack.append((op, True))
        if any(o.name in fed for o in op.outputs):
            continue
        for t in op.inputs:
            if t.op not in seen:
                stack.append((t.op, False))
        for c in op.control_inputs:
            if c not in seen:
                stack.append((c, False))
    return order


class Races(object):
    """Accesses to variables and the conflicting pairs the graph leaves unordered."""

    def __init__(self, graph, names, fed):
        self.ops = closure(graph, names, fed)
        self.index = {op: i for i, op in enumerate(self.ops)}
        self.anc = []
        for op in self.ops:
            m = 0
            if not any(o.name in fed for o in op.outputs):
                for p in [t.op for t in op.inputs] + list(op.control_inputs):
                    j = self.index[p]
                    m |= self.anc[j] | (1 << j) if j < len(self.anc) else 0
            self.anc.append(m)
        alias, self.reads, self.writes = {}, {}, {}
        for op in self.ops:
            outs = set()
            if op.type in ('VariableV2', 'Variable', 'VarHandleOp', 'TemporaryVariable'):
                alias[op.outputs[0].name] = {op.name}
                continue
            if op.type in NO_VALUE:
                continue
            args = ref_args(op)
            for i, t in enumerate(op.inputs):
                vs = alias.get(t.name)
                if not vs:
                    continue
                if t.dtype.base_dtype == tf1.resource:
                    if op.type in READ_RES:
                        kind = 'r'
                    elif op.type in ('Identity', 'Switch', 'Merge', 'Enter', 'Exit', 'NextIteration'):
                        outs |= vs
                        continue
                    else:
                        kind = 'w'
                elif args[i] and op.type not in ('RefIdentity', 'RefSwitch', 'RefMerge', 'RefEnter', 'RefExit', 'RefNextIteration'):
                    kind = 'w'
                    outs |= vs
                elif args[i]:
                    outs |= vs
                    continue
                else:
                    kind = 'r'
                    if op.type in MAY_ALIAS:
                        outs |= vs
                        if op.type == 'Identity':
                            continue           # hands the buffer on without looking at it
                for v in vs:
                    (self.reads if kind == 'r' else self.writes).setdefault(v, set()).add(self.index[op])
            for o in op.outputs:
                if outs and o.dtype.base_dtype != tf1.resource or outs and op.type in ('Identity', 'Switch', 'Merge', 'Enter', 'Exit'):
                    alias[o.name] = set(outs)
        self.pairs = set()
        self.accesses = sum(map(len, self.reads.values())) + sum(map(len, self.writes.values()))
        self.ordered = 0
        for v, ws in self.writes.items():
            for w in ws:
                for x in self.reads.get(v, set()) | ws:
                    if x == w:
                        continue
                    if self.before(x, w) or self.before(w, x):
                        self.ordered += 1
                    else:
                        self.pairs.add((min(x, w), max(x, w)))
        self.pairs = sorted(self.pairs)

    def before(self, a, b):
        return bool(self.anc[b] >> a & 1)

    def orientations(self):
        """Every consistent orientation of the unordered pairs, as lists of added edges."""
        n = len(self.ops)

        def go(i, edges, anc):
            if i == len(self.pairs):
                yield list(edges)
                return
            a, b = self.pairs[i]
            for x, y in ((a, b), (b, a)):
                if anc[x] >> y & 1:
                    continue                       # y already precedes x
                if anc[y] >> x & 1:
                    for e in go(i + 1, edges, anc):
                        yield e
                    continue
                new = list(anc)
                add = anc[x] | (1 << x)
                for k in range(n):
                    if k == y or anc[k] >> y & 1:
                        new[k] = anc[k] | add
                for e in go(i + 1, edges + [(x, y)], new):
                    yield e
        return go(0, [], list(self.anc))

    def flips(self):
        """For every unordered pair both orders, everything else left to the scheduler."""
        for a, b in self.pairs:
            yield [(a, b)]
            yield [(b, a)]

    def total(self, writers_first):
        """A total order of all operations that runs writers as early (late) as possible."""
        writers = set().union(*self.writes.values()) if self.writes else set()
        order, seen = [], set()

        def add(i):
            todo = [i]
            m = self.anc[i]
            for k in range(i):
                if m >> k & 1 and k not in seen:
                    seen.add(k)
                    order.append(k)
            if i not in seen:
                seen.add(i)
                order.append(i)
            return todo
        if writers_first:
            for w in sorted(writers, reverse=True):
                add(w)
        else:
            for i in range(len(self.ops)):
                if i not in writers and not any(self.anc[i] >> w & 1 for w in writers):
                    add(i)
            # then, always prefer a non-writer that is ready
            rest = [i for i in range(len(self.ops)) if i not in seen]
            while rest:
                ready = [i for i in rest if not any(self.anc[i] >> k & 1 for k in rest)]
                pick = next((i for i in ready if i not in writers), ready[-1])
                seen.add(pick)
                order.append(pick)
                rest.remove(pick)
        for i in range(len(self.ops)):
            add(i)
        order = [i for i in order if self.ops[i].type not in ('VariableV2', 'Variable', 'VarHandleOp', 'Const', 'Placeholder')]
        return [(a, b) for a, b in zip(order, order[1:])]


def ref_args(op):
    """For every input: does the operation take it by reference?"""
    out = []
    d = op.op_def
    node = op.node_def
    for a in d.input_arg:
        n = 1
        if a.number_attr:
            n = node.attr[a.number_attr].i
        elif a.type_list_attr:
            n = len(node.attr[a.type_list_attr].list.type)
        out += [a.is_ref] * n
    out += [False] * (len(op.inputs) - len(out))
    return out


class Runner(object):
    """Executes a recorded call from its recorded state under added order edges."""

    def __init__(self, call):
        self.call = call
        self.races = Races(call.graph, call.fetches, set(call.feed))
        gd = call.graph.as_graph_def()
        keep = {op.name for op in self.races.ops}
        # variables of the graph that the call does not touch are left out; their value cannot change
        self.vars = [v for v in call.state if v.split(':')[0] in keep]
        self.gd = tf1.GraphDef()
        self.gd.versions.CopyFrom(gd.versions)
        self.gd.library.CopyFrom(gd.library)
        fed = {n.split(':')[0] for n in call.feed}
        for n in gd.node:
            if n.name in keep:
                m = self.gd.node.add()
                m.CopyFrom(n)
                if '_class' in m.attr:
                    del m.attr['_class']
                if n.name in fed:
                    del m.input[:]
        self.allvars = sorted(op.outputs[0].name for op in self.races.ops if op.type in ('VariableV2', 'Variable'))

    def run(self, edges=()):
        gd = tf1.GraphDef()
        gd.CopyFrom(self.gd)
        nodes = {n.name: n for n in gd.node}
        names = [op.name for op in self.races.ops]
        for a, b in edges:
            nodes[names[b]].input.append('^' + names[a])
        with tf1.Graph().as_default() as g:
            tf1.import_graph_def(gd, name='')
            with RealSession(graph=g, config=boot.config()) as s:
                init = []
                for v in self.vars:
                    init.append(tf1.assign(g.get_tensor_by_name(v), self.call.state[v], validate_shape=False).op)
                s.run(init)
                out = s.run(self.call.fetches, {k: v for k, v in self.call.feed.items() if k.split(':')[0] in nodes})
                post = s.run([tf1.identity(g.get_tensor_by_name(v)) for v in self.allvars])
        vals = {n: v for n, v in zip(self.call.fetches, out) if v is not None and not isinstance(v, bytes)}
        vals.update({'variable ' + n: v for n, v in zip(self.allvars, post)})
        return vals


def differ(a, b, tol=1e-5):
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.dtype.kind not in 'fiu':
            continue
        s = max(float(np.max(np.abs(x))) if x.size else 0.0, 1e-6)
        if x.shape != y.shape or not np.allclose(x, y, rtol=tol, atol=tol * s, equal_nan=True):
            return '%s is %s or %s' % (k, ' '.join(repr(x.tolist()).split())[:200], ' '.join(repr(y.tolist()).split())[:200])
    return None
