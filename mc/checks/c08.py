"""C08: reading coordinate files."""
import itertools
import os

from mc import boot
import numpy as np
from mc.boot import tf1
from tensorD.dataproc.reader import TensorReader

VALS = ['2.5', '-1', '3']
VNUM = [2.5, -1.0, 3.0]
BIG = [(50, 50), (12, 13, 14), (3, 70001), (1, 1, 1, 300, 1), (260, 9), (2,) * 10]
GRIDS = [(1,), (3,), (2, 3), (2, 2, 2), (1, 2, 2, 2), (3, 1, 2)]


def cases(tier):
    for gi, grid in enumerate(GRIDS):
        cells = list(itertools.product(*[range(g) for g in grid]))
        for k in (1, 2, 3):
            if k > len(cells):
                continue
            if k == 3 and tier == 'quick' and len(cells) > 6:
                firsts = range(0, len(cells), 3)
            else:
                firsts = range(len(cells))
            for first in firsts:
                yield dict(kind='files', grid=list(grid), k=k, first=first)
    yield dict(kind='formats')
    for ext in ('csv', 'txt'):
        yield dict(kind='paths', ext=ext)
        for big in range(len(BIG)):
            yield dict(kind='big', ext=ext, big=big)
    n = len(TABLE)
    for a in range(n):
        yield dict(kind='history', a=a)


def expected(entries, shape):
    order = len(entries[0][0])
    if shape is None:
        shape = [max(e[0][m] for e in entries) + 1 for m in range(order)]
    X = np.zeros(shape)
    for idx, v in entries:
        X[idx] = v
    return X


def write(path, entries, text, blanks=(), sep=',', end='\n'):
    lines = [sep.join([str(i) for i in idx] + [t]) for (idx, _), t in zip(entries, text)]
    out = []
    for j, l in enumerate(lines):
        if j in blanks:
            out.append('')
        out.append(l)
    if len(lines) in blanks:
        out += ['', '']
    with open(path, 'w') as f:
        f.write('\n'.join(out) + end)


def grab(r, ctx):
    sp = r.sparse_data
    ctx.check(sp is not None and r.full_data is not None, 'a read file left no %s data behind' % ('sparse' if sp is None else 'dense'))
    return [r.full_data, sp.indices, sp.values, sp.dense_shape]


def compare(ctx, got, entries, shape, label):
    full, idx, val, dshape = got
    want = expected(entries, shape)
    ctx.equal(full, want, '%s: dense data' % label, exact=True)
    ctx.equal(dshape, want.shape, '%s: sparse shape' % label, exact=True)
    listed = sorted((tuple(int(x) for x in i), float(v)) for i, v in zip(idx, val))
    ctx.check(listed == sorted((tuple(i), float(v)) for i, v in entries), '%s: sparse entries %s' % (label, listed))


def run(case, ctx):
    tf1.reset_default_graph()
    path = os.path.join(ctx.work, 'd')
    if case['kind'] == 'history':
        return history(case, ctx, path)
    if case['kind'] == 'formats':
        return formats(ctx, path)
    if case['kind'] == 'paths':
        return paths(ctx, case['ext'])
    if case['kind'] == 'big':
        return large(ctx, path, case['ext'], BIG[case['big']])
    grid = tuple(case['grid'])
    cells = list(itertools.product(*[range(g) for g in grid]))
    todo = []
    for j, rest in enumerate(itertools.permutations([c for q, c in enumerate(cells) if q != case['first']], case['k'] - 1)):
        chosen = [cells[case['first']]] + list(rest)
        entries = [(c, VNUM[m]) for m, c in enumerate(chosen)]
        big = [g + 1 for g in grid]
        blanks = [(), (0,), (1,), (case['k'],), (0, case['k'])][j % 5]
        for ext in ('csv', 'txt'):
            for shape in (None, list(grid), tuple(big)):
                p = path + '.' + ext
                write(p, entries, VALS, blanks, end='' if j % 2 else '\n')
                r = TensorReader(p)
                r.read() if shape is None else r.read(shape) if j % 2 else r.read(full_shape=shape)
                todo.append((entries, shape, 'entries %s blank lines %s .%s full_shape=%s' % (entries, blanks, ext, shape), grab(r, ctx)))
    for (entries, shape, label, _), got in zip(todo, boot.evaluate([t[3] for t in todo])):
        compare(ctx, got, entries, shape, label)
        ctx.count('evaluations')
        if len(entries) > 1:
            ctx.distinct('distinct_nontrivial', label)
    ctx.sample(todo[-1][2])


def formats(ctx, path):
    """Number formats, larger indices, many entries, the same reader class on many files at once."""
    todo = []
    sets = [
        ([((0, 0), 1.0), ((1, 2), 2.0)], ['1', '2']),
        ([((0, 0), 1e3), ((1, 2), -2.5e-3)], ['1e3', '-2.5e-3']),
        ([((10, 2), 7.0), ((3, 11), 0.5)], [' 7', ' .5']),
        ([((0, 0, 0, 0, 0), 1.0), ((1, 0, 2, 0, 1), -4.0)], ['1.0', '-4.0']),
        ([((5,), 0.0), ((2,), 9.0)], ['0', '9']),
        ([((i, (i * 3) % 7, (i * 5) % 4), i + 0.5) for i in range(20)], ['%r' % (i + 0.5) for i in range(20)]),
        ([((19 - i, (i * 3) % 7), -i - 1.0) for i in range(20)], ['%r' % (-i - 1.0) for i in range(20)]),
        ([((100, 0), 123456789.0), ((0, 100), 0.1)], ['123456789', '0.1']),
        ([((0, 3), 100.0), ((2, 1), 3.0), ((1, 0), -0.25), ((1, 1), 1e-300)], ['1E+2', '+3', '-.25', '1e-300']),
        ([((0, 0), 0.12345678901234568), ((0, 1), 1e22), ((1, 0), 16777217.0)], ['0.123456789012345678901', '1e22', '16777217']),
        ([((0, 12, 0), 1.5), ((7, 0, 9), 2.5)], [' 1.5 ', '  2.5']),
    ]
    for ext in ('csv', 'txt'):
        for k, (entries, text) in enumerate(sets):
            p = '%s%d.%s' % (path, k, ext)
            write(p, entries, text, blanks=(k % 3,))
            r = TensorReader(p)
            r.read()
            todo.append((entries, None, 'file %s' % list(zip(entries, text))[:3], grab(r, ctx)))
    for (entries, shape, label, _), got in zip(todo, boot.evaluate([t[3] for t in todo])):
        compare(ctx, got, entries, shape, label)
        ctx.count('evaluations')
        ctx.distinct('distinct_nontrivial', label)


def paths(ctx, ext):
    """Where the file lies and how its lines end."""
    names = ['plain', 'two.dots', '.hidden', 'x.csv', 'y.txt', 'with space', 'UPPER', 'ratings.2017.01', 'a,b', 'csv', 'txt']
    dirs = ['', 'sub', 'v1.0', 'd.dat', 'csv', 'a b/c.d']
    sets = [([((0, 1), 2.0), ((2, 0), -1.0)], ['2.0', '-1']), ([((1, 0, 3), 0.5), ((0, 2, 1), 4.0), ((0, 0, 0), 1e-3)], ['0.5', '4', '1e-3'])]
    todo = []
    home = os.getcwd()
    os.chdir(ctx.work)
    try:
        for d in dirs:
            if d:
                os.makedirs(d, exist_ok=True)
            for k, n in enumerate(names):
                entries, text = sets[k % 2]
                for style, p in (('relative', os.path.join(d, n + '.' + ext)), ('dot', os.path.join('.', d, n + '.' + ext)),
                                 ('up', os.path.join('..', os.path.basename(ctx.work), d, n + '.' + ext)),
                                 ('absolute', os.path.join(ctx.work, d, n + '.' + ext))):
                    for nl in ('\n', '\r\n'):
                        with open(p, 'w', newline='') as f:
                            for j, ((idx, _), t) in enumerate(zip(entries, text)):
                                f.write(nl * (j == k % 3) + ','.join([str(i) for i in idx] + [t]) + nl)
                        r = TensorReader(p)
                        r.read()
                        todo.append((entries, None, 'file %s (%s), line end %r' % (p, style, nl), grab(r, ctx)))
    finally:
        os.chdir(home)
    for (entries, shape, label, _), got in zip(todo, boot.evaluate([t[3] for t in todo])):
        compare(ctx, got, entries, shape, label)
        ctx.count('evaluations')
        ctx.distinct('distinct_nontrivial', label)


def large(ctx, path, ext, grid):
    """Files of many rows or with large indices: every cell (up to 2500), in ascending, descending and scattered order."""
    total = int(np.prod(grid))
    m = min(total, 2500)
    step = max(1, total // m)
    flat = [total - 1 - j * step for j in range(m)]
    todo = []
    for order in ('descending', 'ascending', 'scattered'):
        some = flat if order == 'descending' else flat[::-1] if order == 'ascending' else [flat[(j * 7 + 3) % m] for j in range(m)] if m % 7 else flat[m // 2:] + flat[:m // 2]
        entries = [(tuple(int(v) for v in np.unravel_index(f, grid)), (f % 1999 - 999) / 8.0) for f in some]
        for shape in (None, list(grid), [g + 3 for g in grid] if total < 50000 else list(grid)):
            write(path + '.' + ext, entries, ['%r' % v for _, v in entries], (0, m // 2, m))
            r = TensorReader(path + '.' + ext)
            r.read(shape)
            todo.append((entries, shape, '%d rows, %s, grid %s, full_shape=%s' % (m, order, grid, shape), grab(r, ctx)))
    for (entries, shape, label, _), got in zip(todo, boot.evaluate([t[3] for t in todo])):
        compare(ctx, got, entries, shape, label)
        ctx.count('evaluations')
        ctx.distinct('distinct_nontrivial', label)
    ctx.sample(todo[-1][2])


TABLE = [([((0, 1), 2.0), ((2, 0), -1.0)], None), ([((0, 1), 5.0)], None), ([((2, 3), 4.0), ((0, 0), 1.0)], (3, 4)),
         ([((1, 1), 2.5)], (4, 4)), ([((0, 0, 1), 6.0), ((1, 1, 0), 2.0)], None), ([((0,), 3.0), ((2,), 1.0)], None)]


def history(case, ctx, path):
    """Two and three reads on one reader, plus a rejected read in between."""
    a = case['a']
    for b in range(len(TABLE)):
        for c in [None] + list(range(len(TABLE))):
            tf1.reset_default_graph()
            p = path + '.csv'
            r = TensorReader(p)
            other = TensorReader(path + '2.csv')
            seq = [a, b] + ([] if c is None else [c])
            fetch, label = [], 'reads %s' % seq
            write(path + '2.csv', TABLE[(a + 1) % len(TABLE)][0], ['%r' % v for _, v in TABLE[(a + 1) % len(TABLE)][0]])
            for k in seq:
                entries, shape = TABLE[k]
                write(p, entries, ['%r' % v for _, v in entries])
                r.read(shape)
                other.read()
                fetch.append(grab(r, ctx))
            last = grab(r, ctx)
            og = grab(other, ctx)
            got = boot.evaluate([fetch, last, og])
            for k, g in zip(seq, got[0]):
                compare(ctx, g, TABLE[k][0], TABLE[k][1], label)
            compare(ctx, got[1], TABLE[seq[-1]][0], TABLE[seq[-1]][1], label + ' finally')
            compare(ctx, got[2], TABLE[(a + 1) % len(TABLE)][0], None, label + ' other reader')
            ctx.count('evaluations')
            ctx.distinct('distinct_nontrivial', label)
    # a reader for an unsupported file: rejected, nothing produced
    for ext in ('dat', 'json', 'xcsv', 'tsv'):
        p = path + '.' + ext
        write(p, TABLE[a][0], ['1', '2'])
        r = TensorReader(p)
        try:
            r.read()
        except Exception:
            pass
        else:
            ctx.fail('a .%s file was accepted' % ext)
        ctx.check(r.full_data is None and r.sparse_data is None, 'a rejected .%s file produced data' % ext)
        ctx.count('evaluations')
