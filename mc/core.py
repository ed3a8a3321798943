"""Driver: enumerates the cases of a check over worker processes, collects
coverage, writes the evidence file and the replay files, prints the verdict.

  python -m mc.core C01                run the check (tier from VERIF_TIER)
  python -m mc.core C01 --replay FILE  run the one case stored in FILE
"""
import hashlib
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
MAX_VIOLATIONS = 3           # per worker
CASE_SECONDS = 150           # of processor time; one case never needs more than a few seconds
CASE_WALL = 450              # a case that waits for something that never comes


class Violation(Exception):
    pass


class Hang(Exception):
    pass


class Ctx(object):
    """What a case reports to: counters, distinct keys, samples, findings."""

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.n = {}
        self.sets = {}
        self.samples = []
        self.known = {}
        self.notes = {}

    def count(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + int(k)

    def distinct(self, name, key):
        """key: anything with a stable repr, or bytes."""
        if not isinstance(key, bytes):
            key = repr(key).encode()
        self.sets.setdefault(name, set()).add(hashlib.blake2b(key, digest_size=8).digest())

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    def note(self, name):
        self.notes[name] = self.notes.get(name, 0) + 1

    def fail(self, msg):
        raise Violation(msg)

    def check(self, ok, msg):
        if not ok:
            raise Violation(msg() if callable(msg) else msg)

    def finding(self, key, msg):
        """A defect that may be listed in KNOWN_FINDINGS; fails when it is not."""
        if key in self.listed:
            self.known.setdefault(key, msg)
        else:
            raise Violation('%s: %s' % (key, msg))

    def equal(self, got, want, what, rtol=1e-5, atol=1e-6, exact=False):
        import numpy as np
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violation('%s: shape %s, expected %s' % (what, g.shape, w.shape))
        if exact:
            ok = bool(np.array_equal(g, w))
        else:
            scale = float(np.max(np.abs(w))) if w.size and np.all(np.isfinite(w)) else 1.0
            ok = bool(np.allclose(g, w, rtol=rtol, atol=max(atol, rtol * scale), equal_nan=True))
        if not ok:
            raise Violation('%s: got %s, expected %s' % (what, short(g), short(w)))


def short(a, limit=240):
    s = ' '.join(repr(a.tolist() if hasattr(a, 'tolist') else a).split())
    return s if len(s) <= limit else s[:limit] + '...'


def read_known(pid):
    keys = {}
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            w = line.split()
            if len(w) >= 3 and w[0] == 'known:' and w[1] == 'property=' + pid:
                keys[w[2].split('=', 1)[1]] = ' '.join(w[3:])
    return keys


def from_code_under_test(exc):
    from . import boot
    if isinstance(exc, boot.tf1.errors.OpError):
        return True
    e, seen = exc, 0
    while e is not None and seen < 5:
        for fr in traceback.extract_tb(e.__traceback__):
            if os.path.realpath(fr.filename).startswith(boot.REPO + os.sep):
                return True
        e, seen = e.__cause__ or e.__context__, seen + 1
    return False


_started = [0.0, 0.0]


def _alarm(signum, frame):
    if time.process_time() - _started[0] < CASE_SECONDS and time.time() - _started[1] < CASE_WALL:
        signal.alarm(20)         # a busy machine, not a stuck case
        return
    raise Hang('no result within %d s' % CASE_SECONDS)


def run_case(mod, case, ctx, second=False):
    """None, or the text of a violation.  Errors of the check itself propagate."""
    import contextlib
    import io
    signal.signal(signal.SIGALRM, _alarm)
    _started[:] = time.process_time(), time.time()
    signal.alarm(CASE_SECONDS)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            mod.run(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except Hang as e:
        return str(e)
    except Exception as e:
        if from_code_under_test(e):
            return 'unexpected %s: %s | %s' % (
                e.__class__.__name__, str(e)[:300].replace('\n', ' '),
                ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                            for f in reversed(traceback.extract_tb(e.__traceback__)[-4:])))
        if second or not isinstance(e, (TypeError, AttributeError, ValueError, IndexError, KeyError, ArithmeticError, AssertionError)):
            raise
        first = e
    finally:
        signal.alarm(0)
    # an answer the check could not even read (None instead of an array, a missing attribute, ...); again, to be sure
    try:
        return run_case(mod, case, ctx, second=True)
    except type(first) as e:
        return 'the answer cannot be interpreted: %s: %s | %s' % (
            e.__class__.__name__, str(e)[:300].replace('\n', ' '),
            ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                        for f in reversed(traceback.extract_tb(e.__traceback__)[-4:])))


def ticket(out, nshards):
    """The next case nobody has taken yet (one counter for all workers of a run)."""
    import fcntl
    with open(os.path.join(os.path.dirname(out), 'next'), 'a+') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.seek(0)
        n = int(f.read() or 0)
        f.truncate(0)
        f.write(str(n + 1))
        f.flush()
    return n


def worker(pid, shard, nshards, tier, seed, out):
    work = tempfile.mkdtemp(prefix='mc-')
    os.chdir(work)
    mod = importlib.import_module('mc.checks.' + pid.lower())
    ctx = Ctx(tier, seed)
    ctx.listed = read_known(pid)
    ctx.work = work
    violations, done, total, capped = [], 0, 0, False
    t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET', 700 if tier == 'quick' else 6 * 3600))
    err = None
    try:
        if hasattr(mod, 'setup'):
            mod.setup(ctx)
        mine = -1
        for i, case in enumerate(mod.cases(tier)):
            total += 1
            if i > mine:
                mine = ticket(out, nshards)
            if i < mine:
                continue
            if time.time() - t0 > budget:
                capped = True
                continue
            done += 1
            with open(out + '.case', 'w') as f:
                json.dump(case, f, default=str)
            v = run_case(mod, case, ctx)
            if v is not None:
                violations.append((case, v))
                if len(violations) >= MAX_VIOLATIONS:
                    break
        if not violations and hasattr(mod, 'finish'):
            mod.finish(ctx)
    except Exception:
        err = traceback.format_exc()
    with open(out, 'wb') as f:
        pickle.dump(dict(n=ctx.n, sets=ctx.sets, samples=ctx.samples, known=ctx.known, notes=ctx.notes,
                         violations=violations, done=done, total=total, capped=capped, err=err), f)
    os.chdir('/')
    shutil.rmtree(work, ignore_errors=True)


def replay(pid, path):
    mod = importlib.import_module('mc.checks.' + pid.lower())
    rec = json.load(open(path))
    ctx = Ctx(rec.get('tier', 'quick'), rec.get('seed', 1))
    ctx.listed = read_known(pid)
    ctx.work = tempfile.mkdtemp(prefix='mc-')
    os.chdir(ctx.work)
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    v = run_case(mod, rec['case'], ctx)
    os.chdir('/')
    shutil.rmtree(ctx.work, ignore_errors=True)
    if v is None:
        print('not reproduced: property=%s holds on this case' % pid)
        return 0
    print('%s' % v)
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def main(argv):
    pid = argv[0]
    if argv[1:2] == ['--worker']:
        worker(pid, int(argv[2]), int(argv[3]), argv[4], int(argv[5]), argv[6])
        return 0
    if argv[1:2] == ['--replay']:
        return replay(pid, os.path.abspath(argv[2]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    meta = META(pid)
    n = min(meta.get('shards', 4) if tier == 'quick' else 8, os.cpu_count() or 1)
    tmp = tempfile.mkdtemp(prefix='mc-main-')
    procs = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=ROOT, PYTHONHASHSEED='0',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', TMPDIR=tmp)
    for s in range(n):
        out = os.path.join(tmp, '%d.pkl' % s)
        log = open(os.path.join(tmp, '%d.log' % s), 'wb')
        procs.append((subprocess.Popen(
            [sys.executable, '-m', 'mc.core', pid, '--worker', str(s), str(n), tier, str(seed), out],
            cwd=ROOT, env=env, stdout=log, stderr=subprocess.STDOUT), out, log.name))
    limit = t0 + (840 if tier == 'quick' else 8 * 3600)
    res, errors, dead = [], [], []
    stuck = set()
    while any(p.poll() is None for p, _, _ in procs):
        time.sleep(0.05)
        for p, out, log in procs:
            if p.poll() is None:
                cf = out + '.case'
                old = os.path.exists(cf) and time.time() - os.path.getmtime(cf) > CASE_WALL + 60
                if old or time.time() > limit:
                    stuck.add(out)
                    p.kill()
                    p.wait()
                    if not old:
                        errors.append('worker ran out of time')
    for p, out, log in procs:
        if os.path.exists(out):
            r = pickle.load(open(out, 'rb'))
            res.append(r)
            if r['err']:
                errors.append(r['err'])
            continue
        text = open(log, errors='replace').read()[-1500:]
        case = json.load(open(out + '.case')) if os.path.exists(out + '.case') else None
        if case is not None and out in stuck and 'worker ran out of time' not in errors:
            dead.append((case, 'no result within %d s' % (CASE_WALL + 60)))
        elif case is not None and p.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL):
            dead.append((case, 'the process died (signal %d) in this case: %s' % (-p.returncode, ' '.join(text.split())[-300:])))
        else:
            errors.append('worker ended with %s: %s' % (p.returncode, text))
    shutil.rmtree(tmp, ignore_errors=True)

    count, sets, samples, known, notes = {}, {}, [], {}, {}
    for r in res:
        for k, v in r['n'].items():
            count[k] = count.get(k, 0) + v
        for k, v in r['notes'].items():
            notes[k] = notes.get(k, 0) + v
        for k, v in r['sets'].items():
            sets.setdefault(k, set()).update(v)
        samples += r['samples'][:1]
        known.update(r['known'])
    violations = [v for r in res for v in r['violations']] + dead
    capped = any(r['capped'] for r in res)
    cases = sum(r['done'] for r in res)
    coverage = dict(count)
    for k, v in sets.items():
        coverage[k] = len(v)
    coverage['cases'] = cases
    if meta['level'] in ('exploration', 'fault_enumeration'):
        coverage.setdefault('evaluations', cases)
        coverage.setdefault('distinct_nontrivial', 0)
    else:
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            coverage.setdefault(k, 0)
    coverage['rule'] = meta['rule']
    coverage['exhaustive'] = not capped and not violations and not errors
    coverage['samples'] = [s if isinstance(s, (dict, list, str)) else repr(s) for s in samples] or ['none']
    if notes:
        coverage['notes'] = notes
    ev = dict(property=pid, tier=tier, seed=seed, level=meta['level'], coverage=coverage,
              assumptions=meta.get('assumptions', []), wall_s=round(time.time() - t0, 2),
              violations=len(violations))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    brief = {k: v for k, v in coverage.items() if isinstance(v, (int, bool))}
    print('%s %s: %s, %.1f s' % (pid, tier, ' '.join('%s=%s' % kv for kv in sorted(brief.items())), ev['wall_s']))
    for k, v in sorted(notes.items()):
        print('note: %s (%d)' % (k, v))
    for k in sorted(known):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, known[k]))
    if violations:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        for i, (case, msg) in enumerate(violations[:4]):
            path = os.path.join(ROOT, 'replays', '%s-%d.json' % (pid, i))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, case=case, message=msg,
                               replay='bash /verif/run.sh %s --replay %s' % (pid, path)), f, indent=1, default=str)
            print('%s case=%s' % (msg[:600], json.dumps(case, default=str)[:400]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        for e in errors[:3]:
            sys.stderr.write(e + '\n')
        print('ERROR: the check itself failed')
        return 2
    return 0


def META(pid):
    from .registry import CHECKS
    return CHECKS[pid]


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
