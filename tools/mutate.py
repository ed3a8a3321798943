"""Systematic mutants of the library, to find what no check sees.

    python3 tools/mutate.py OUT.log [FILE...]      (nice it: takes hours)

Every mutant is tried in a scratch copy of /repo against the checks that concern
its file, cheapest first, until one reports a violation.  Survivors are either
equivalent or a gap; they are read by hand.  No check reads this file."""
import ast
import importlib
import os
import shutil
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get('MUT_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALS = 'C13 C24 C15 C18 C23 C25 C16 C17 C14'.split()
FILES = {
    'tensorD/base/ops.py': 'C01 C02 C03 C04 C06 C18'.split(),
    'tensorD/base/type.py': 'C06 C01 C03 C04 C05 C18'.split(),
    'tensorD/loss.py': ['C07'],
    'tensorD/dataproc/reader.py': ['C08', 'C26'],
    'tensorD/factorization/env.py': 'C23 C24 C16 C09'.split(),
    'tensorD/demo/DataGenerator.py': ['C22'],
    'tensorD/factorization/cp.py': ['C09'] + ALS,
    'tensorD/factorization/ncp.py': ['C10'] + ALS,
    'tensorD/factorization/ntucker.py': ['C11'] + ALS,
    'tensorD/factorization/tucker.py': ['C12'] + ALS,
    'tensorD/base/pitf_ops.py': 'C19 C20 C21 C18'.split(),
    'tensorD/base/pitf_ops_numpy.py': 'C19 C20 C21 C18'.split(),
    'tensorD/factorization/pitf.py': 'C21 C24 C17 C15 C18'.split(),
    'tensorD/factorization/pitf_numpy.py': 'C21 C18'.split(),
}
SWAP = {'A0': 'A', 'Am': 'A', 'A': 'A0', 'L': 'L0', 'L0': 'L', 't': 't0', 't0': 't', 'obj': 'obj0', 'g0': 'g', 'gm': 'g', 'g': 'g0', 'mode': '0'}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '//', ast.Pow: '*', ast.MatMult: '*'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}


def mutants(src):
    """(line, what, new source)"""
    tree = ast.parse(src)
    starts = [0]
    for l in src.encode().splitlines(True):
        starts.append(starts[-1] + len(l))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def put(n, new, a=None, b=None):
        if a is None:
            a, b = span(n)
        return (n.lineno, '%s -> %s' % (raw[a:b].decode().replace('\n', ' ')[:70], new.replace('\n', ' ')[:70]), (raw[:a] + new.encode() + raw[b:]).decode())
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(n.value)
        if isinstance(n, ast.Call):
            f = text(n.func)
            if f.endswith('name_scope') or f == 'print' or 'format' in f:
                skip.update(ast.walk(n))
                skip.discard(n) if f == 'print' else None
            for k in n.keywords:
                if k.arg == 'name':
                    skip.update(ast.walk(k))
        if isinstance(n, (ast.Raise, ast.Assert)):
            skip.update(ast.walk(n))
        if isinstance(n, ast.FunctionDef):
            for d in n.args.defaults:
                if isinstance(d, ast.Constant) and d.value is None:
                    skip.add(d)
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.BinOp) and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            yield put(n, '(%s) %s (%s)' % (text(n.left), OPS[n.op.__class__], text(n.right)))
        elif isinstance(n, ast.Compare):
            yield put(n, '(%s) %s (%s)' % (text(n.left), CMP[n.ops[0].__class__], text(n.comparators[0])))
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield put(n, '(%s)' % op.join('(%s)' % text(v) for v in n.values))
            for v in n.values:
                yield put(n, '(%s)' % (' and ' if op == ' or ' else ' or ').join('(%s)' % text(x) for x in n.values if x is not v))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield put(n, '(%s)' % text(n.operand))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield put(n, str(not n.value))
            elif isinstance(n.value, int):
                yield put(n, str(n.value + 1))
            elif isinstance(n.value, float):
                yield put(n, repr(n.value * 2 + 0.5))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in SWAP:
            yield put(n, SWAP[n.id])
        elif isinstance(n, ast.Call):
            if len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                yield put(n, '%s, %s' % (text(n.args[1]), text(n.args[0])), span(n.args[0])[0], span(n.args[1])[1])
            for k in n.keywords:
                if k.arg not in ('name', None):
                    rest = [text(a) for a in n.args] + [text(x) for x in n.keywords if x is not k]
                    yield put(n, '%s(%s)' % (text(n.func), ', '.join(rest)))
            if text(n.func).split('.')[-1] in ('abs', 'sqrt', 'list', 'relu', 'transpose', 'square', 'copy', 'reversed', 'maximum', 'minimum') and n.args:
                yield put(n, '(%s)' % text(n.args[0]))
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            yield put(n, 'pass')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            yield put(n, 'pass')
        elif isinstance(n, (ast.Continue, ast.Break)):
            yield put(n, 'pass')
        elif isinstance(n, ast.If):
            yield put(n.test, 'True')
            yield put(n.test, 'False')
        elif isinstance(n, ast.With):
            for w in n.items:
                if 'control_dependencies' in text(w.context_expr):
                    a = w.context_expr.args[0]
                    yield put(a, '[]')
                    if isinstance(a, ast.List) and len(a.elts) > 1:
                        for e in a.elts:
                            yield put(a, '[%s]' % ', '.join(text(x) for x in a.elts if x is not e))
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                yield put(n.lower, '')
            if n.upper is not None:
                yield put(n.upper, '')


def child(d, job, out):
    """In a forked process that has TensorFlow loaded: the checks one after another,
    their cases in a scattered order, until one is violated."""
    import random
    path, line, what, src, checks = job
    os.setsid()
    fd = os.open(os.path.join(d, 'log'), os.O_WRONLY | os.O_CREAT)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    from mc import boot, core
    boot.REPO = d
    sys.path[:] = [d if x == '/mutant' else x for x in sys.path]
    tempfile.tempdir = d
    res, odd, live = 'SURVIVED', [], []
    for c in checks:
        live.append([c, None, 0.0])
    while live and res != 'caught':
        for e in list(live):                  # the checks in turn, a few seconds each
            c, it, spent = e
            t0 = time.time()
            try:
                if it is None:
                    mod = importlib.import_module('mc.checks.' + c.lower())
                    ctx = core.Ctx('quick', 1)
                    ctx.listed = core.read_known(c)
                    ctx.work = tempfile.mkdtemp(prefix=c)
                    os.chdir(ctx.work)
                    if hasattr(mod, 'setup'):
                        mod.setup(ctx)
                    cases = list(mod.cases('quick'))
                    random.Random(1).shuffle(cases)
                    it = e[1] = (mod, ctx, iter(cases))
                mod, ctx, cases = it
                os.chdir(ctx.work)
                while time.time() - t0 < SLICE:
                    case = next(cases, None)
                    if case is None:
                        live.remove(e)
                        break
                    if core.run_case(mod, case, ctx) is not None:
                        res, odd = 'caught', [c]
                        break
            except Exception as x:
                odd.append('%s error %s' % (c, str(x)[:80].replace('\n', ' ')))
                live.remove(e)
            if res == 'caught':
                break
            e[2] = spent + time.time() - t0
            if e in live and e[2] > BUDGET:
                odd.append(c + ' cut')
                live.remove(e)
    with open(out, 'w') as f:
        f.write(' | '.join([path, str(line), what, res, ' '.join(odd)]) + '\n')
    os._exit(0)


SLICE = 5
BUDGET = float(os.environ.get('MUT_BUDGET', 120))


def main(argv):
    log, files = argv[0], argv[1:] or list(FILES)
    done = set()
    if os.path.exists(log):
        done = {tuple(l.rstrip('\n').split(' | ')[:3]) for l in open(log)}
    jobs = []
    for p in files:
        src = open(os.path.join(REPO, p)).read()
        seen = {src}
        for line, what, new in mutants(src):
            if new in seen or (p, str(line), what) in done:
                continue
            seen.add(new)
            try:
                compile(new, p, 'exec')
            except SyntaxError:
                continue
            jobs.append((p, line, what, new, FILES[p]))
    print('%d mutants' % len(jobs), flush=True)
    if os.environ.get('MUT_LIST'):
        return
    os.environ['VERIF_REPO'] = '/mutant'
    sys.path.insert(0, HERE)
    from mc import boot, core  # noqa: F401
    width, running = int(os.environ.get('MUT_JOBS', 6)), {}
    jobs.reverse()
    while jobs or running:
        while jobs and len(running) < width:
            job = jobs.pop()
            d = tempfile.mkdtemp(prefix='mut-')
            subprocess.run(['cp', '-a', REPO + '/tensorD', d], check=True)
            with open(os.path.join(d, job[0]), 'w') as f:
                f.write(job[3])
            out = os.path.join(d, 'result')
            pid = os.fork()
            if not pid:
                try:
                    child(d, job, out)
                finally:
                    os._exit(1)
            running[pid] = (job, d, out, time.time())
        time.sleep(0.2)
        for pid, (job, d, out, t0) in list(running.items()):
            gone = os.waitpid(pid, os.WNOHANG)[0]
            if not gone and time.time() - t0 < 1800:
                continue
            if not gone:
                os.killpg(pid, 9)
                os.waitpid(pid, 0)
            with open(log, 'a') as f:
                f.write(open(out).read() if os.path.exists(out) else ' | '.join(map(str, job[:3])) + ' | caught | %s\n' % ('died' if gone else 'timeout'))
            shutil.rmtree(d, ignore_errors=True)
            del running[pid]


if __name__ == '__main__':
    main(sys.argv[1:])
