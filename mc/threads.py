"""Controlled threads: real Python threads of which exactly one runs at a time.

A scheduling point is a session call (mode 'calls') or the start of a source
line of the library (mode 'lines', through sys.monitoring, nothing is
rewritten).  A schedule is a list of segments (thread, number of points after
which it is preempted, or None for: until it ends)."""
import os
import sys
import threading
import time
import types

from . import boot, train

_me = threading.local()
TOOL = 4
STALL = 20.0


class Sched(object):
    def __init__(self, programs, plan):
        self.programs, self.plan = programs, list(plan)
        n = len(programs)
        self.gate = [threading.Semaphore(0) for _ in range(n)]
        self.points, self.live, self.free = [0] * n, set(range(n)), False
        self.out, self.trace = [None] * n, [[] for _ in range(n)]
        self.turn, self.until, self.blocked, self.switches = None, None, [], 0
        self.lock, self.beat = threading.Lock(), time.time()

    def next(self):
        """The segment to run now; called with the processor in hand."""
        while self.plan:
            t, k = self.plan.pop(0)
            if t in self.live:
                return t, None if k is None else self.points[t] + k
        for t in sorted(self.live):
            return t, None
        return None, None

    def hand_over(self, me):
        with self.lock:
            t, until = self.next()
            self.turn, self.until = t, until
            self.switches += 1
        if t == me:
            return
        if t is not None:
            self.gate[t].release()
        if me is not None and me in self.live:
            self.gate[me].acquire()

    def point(self, what=None):
        me = getattr(_me, 'tid', None)
        if me is None or getattr(_me, 'sched', None) is not self or self.free:
            return
        self.beat = time.time()
        self.trace[me].append(what)
        while self.turn == me and self.until is not None and self.points[me] >= self.until and not self.free:
            self.hand_over(me)
        self.points[me] += 1

    def body(self, tid):
        _me.tid, _me.sched = tid, self
        self.gate[tid].acquire()
        try:
            self.out[tid] = ('ok', self.programs[tid]())
        except BaseException as e:      # handed to the caller
            self.out[tid] = ('raised', e)
        finally:
            _me.sched = None
            with self.lock:
                self.live.discard(tid)
            self.beat = time.time()
            if not self.free:
                self.hand_over(tid)

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.programs))]
        for t in ts:
            t.start()
        self.hand_over(None)
        while any(t.is_alive() for t in ts):
            for t in ts:
                t.join(0.02)
            if time.time() - self.beat > STALL and not self.free:
                # the running thread waits for a paused one: let everybody go
                self.free = True
                self.blocked.append(self.turn)
                for g in self.gate:
                    g.release()
        return self.out


class Calls(train.Hook):
    """Session calls as scheduling points."""

    def __init__(self, sched):
        train.Hook.__init__(self)
        self.sched = sched

    def before(self, sess, k, fetches, feed):
        self.sched.point('session')


def code_objects():
    seen = set()

    def add(c):
        if c in seen or not os.path.realpath(c.co_filename).startswith(boot.REPO + os.sep):
            return
        seen.add(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)

    def scan(ns, depth=0):
        for v in list(ns.values()):
            v = getattr(v, '__func__', v)
            if isinstance(v, types.FunctionType):
                add(v.__code__)
            elif isinstance(v, property):
                for f in (v.fget, v.fset, v.fdel):
                    if f is not None and hasattr(f, '__code__'):
                        add(f.__code__)
            elif isinstance(v, type) and depth < 4 and str(getattr(v, '__module__', '')).startswith('tensorD'):
                scan(vars(v), depth + 1)
    for name, mod in list(sys.modules.items()):
        if name.split('.')[0] == 'tensorD' and mod is not None:
            scan(vars(mod))
    return seen


class Lines(object):
    """Source lines of the library as scheduling points."""

    def __init__(self, sched):
        self.sched = sched

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, 'mc')
        m.register_callback(TOOL, m.events.LINE, self.line)
        self.codes = code_objects()
        for c in self.codes:
            m.set_local_events(TOOL, c, m.events.LINE)
        return self

    def line(self, code, line):
        if getattr(_me, 'sched', None) is self.sched:
            self.sched.point((code.co_filename, line))

    def __exit__(self, *a):
        m = sys.monitoring
        for c in self.codes:
            m.set_local_events(TOOL, c, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)


def points_of_interest(trace, both=True):
    """Index of the first (and of the last) visit to every line."""
    first, last = {}, {}
    for i, w in enumerate(trace):
        first.setdefault(w, i)
        last[w] = i
    return sorted(set(first.values()) | (set(last.values()) if both else set()))
