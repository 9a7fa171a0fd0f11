"""A seeded scheduler for real threads: exactly one runs at a time, and where control passes from one
to another is decided by a plan (data in the trace), at any executed line of the watched code.

The plan is a list of entries:
  [position, choice]               position is a fraction of the run's expected number of steps
  [thread, line, visit, choice]    fractions too: which thread, which of the distinct lines that it
                                   executes (every line is as likely as any other, however often it
                                   runs), and which of its visits to that line
choice picks among the threads that can run.  The fractions are resolved against what the threads
executed without any switch.  Threads otherwise keep the baton until they finish or wait for a lock.
"""
import sys
import threading

from sim import core, seams, inject
from sim.core import Violation

_Lock = seams._RealLock


class _Abandon(BaseException):
    """Raised in the remaining threads once the run is over early."""


class Scheduler:
    def __init__(self, plan, expected, where, limit=4_000_000, tables=None, kills=()):
        self.plan = sorted([int(e[0] * max(1, expected)), e[1]] for e in plan if len(e) == 2)
        self.points = {}
        for e in plan:
            if len(e) == 4 and tables and any(tables):
                t = int(e[0] * len(tables))
                lines = sorted(tables[t])
                if lines:
                    line = lines[int(e[1] * len(lines))]
                    nth = 1 + int(e[2] * tables[t][line])
                    self.points.setdefault((t,) + tuple(line), {})[nth] = e[3]
        self.kills = {}          # thread -> [((file, line), visit, exception)]: errors raised in it
        for t, line, visit, exc in kills:
            if tables and any(tables):
                t = int(t * len(tables))
                lines = sorted(tables[t])
                if lines:
                    at = lines[int(line * len(lines))]
                    self.kills.setdefault(t, []).append((at, 1 + int(visit * tables[t][at]), exc))
        self.killed = []         # (thread, where)
        self.dying = {}          # thread -> exception that is due
        self.table = {}          # per thread: (file, line) -> visits
        self.where = where
        self.step = 0
        self.next = 0
        self.limit = limit
        self.threads = []
        self.sem = []
        self.state = []          # "ready", "blocked", "done"
        self.waiting = {}        # index -> lock
        self.ident = {}
        self.current = None
        self.done = _Lock()
        self.done.acquire()
        self.switches = []       # (from, to, where)
        self.problem = None
        self._watch = {}

    # -- called from simulated threads
    def me(self):
        return self.ident.get(threading.get_ident())

    def _global(self, frame, event, arg):
        fn = frame.f_code.co_filename
        w = self._watch.get(fn)
        if w is None:
            w = self._watch[fn] = self.where(fn)
        return self._local if w else None

    def _local(self, frame, event, arg):
        if event == "line":
            self.step += 1
            if self.step > self.limit:
                self._fail("no-progress", "the threads did not finish within %d steps" % self.limit)
            me = self.current
            line = (frame.f_code.co_filename, frame.f_lineno)
            visits = self.table[me]
            nth = visits[line] = visits.get(line, 0) + 1
            if self.kills:
                for at, visit, exc in self.kills.get(me, ()):
                    if at == line and visit == nth:
                        self.dying[me] = exc
                if me in self.dying and line[1] not in inject.shielded(line[0]):
                    self.killed.append((me, "%s:%d" % (line[0][-30:], line[1])))
                    raise self.dying.pop(me)
            choice = None
            if self.next < len(self.plan) and self.step >= self.plan[self.next][0]:
                choice = self.plan[self.next][1]
                self.next += 1
            if self.points:
                choice = self.points.get((me,) + line, {}).get(nth, choice)
            if choice is not None:
                others = [i for i, s in enumerate(self.state) if s == "ready" and i != me]
                if others:
                    to = others[choice % len(others)]
                    self.switches.append((me, to, "%s:%d" % (frame.f_code.co_filename[-30:],
                                                             frame.f_lineno)))
                    self._switch(me, to)
        return self._local

    def _switch(self, me, to):
        self.current = to
        self.sem[to].release()
        self.sem[me].acquire()
        if self.problem is not None:
            raise _Abandon()

    def _fail(self, cls, detail):
        if self.problem is None:
            self.problem = (cls, detail)
        for i, s in enumerate(self.sem):
            if i != self.current:
                try:
                    s.release()
                except RuntimeError:
                    pass
        raise _Abandon()

    def resume(self):
        """Called by a thread that survived an error: raising in a trace function ends tracing."""
        self.dying.pop(self.me(), None)
        sys.settrace(self._global)

    def block_on(self, lock):
        me = self.me()
        while lock._owner is not None:
            self.state[me] = "blocked"
            self.waiting[me] = lock
            ready = [i for i, s in enumerate(self.state) if s == "ready"]
            if not ready:
                self._fail("deadlock", "every unfinished thread waits for a lock")
            to = ready[(me + 1) % len(ready)]
            self.switches.append((me, to, "lock"))
            self._switch(me, to)
        self.waiting.pop(me, None)
        self.state[me] = "ready"

    def lock_released(self, lock):
        for i, l in list(self.waiting.items()):
            if l is lock:
                self.state[i] = "ready"

    # -- called from the main thread
    def run(self, bodies):
        """Run the bodies to completion; returns their results."""
        results = [None] * len(bodies)

        def main(i, body):
            self.ident[threading.get_ident()] = i
            self.sem[i].acquire()
            try:
                if self.problem is None:
                    sys.settrace(self._global)
                    results[i] = body()
            except _Abandon:
                pass
            except BaseException as e:  # noqa
                sys.settrace(None)
                if self.problem is None:
                    self.problem = ("harness", "%s" % core.short_exc(e), e)
            finally:
                sys.settrace(None)
                self.state[i] = "done"
                self._finished(i)

        for i, body in enumerate(bodies):
            s = _Lock()
            s.acquire()
            self.sem.append(s)
            self.state.append("ready")
            self.table[i] = {}
        for i, body in enumerate(bodies):
            t = threading.Thread(target=main, args=(i, body), daemon=True)
            self.threads.append(t)
            t.start()
        seams.ACTIVE["sched"] = self
        seams._stream_var["get"] = lambda: (lambda m: 0 if m is None else m + 1)(self.me())
        threading.Lock, threading.RLock = seams.SimLock, seams.SimRLock
        try:
            self.current = 0
            self.sem[0].release()
            self.done.acquire()
        finally:
            threading.Lock, threading.RLock = seams._RealLock, seams._RealRLock
            seams.ACTIVE["sched"] = None
            seams._stream_var["get"] = lambda: 0
        if self.problem is not None:
            if self.problem[0] == "harness":
                raise self.problem[2]
            raise Violation(self.problem[0], self.problem[1])
        return results

    def _finished(self, i):
        if self.problem is not None:
            try:
                self.done.release()
            except RuntimeError:
                pass
            return
        ready = [j for j, s in enumerate(self.state) if s == "ready"]
        if ready:
            self.current = ready[0]
            self.sem[ready[0]].release()
        elif all(s == "done" for s in self.state):
            self.done.release()
        else:
            self.problem = ("deadlock", "the remaining threads wait for locks nobody will release")
            self.done.release()


def gen_points(r):
    """Switches at particular visits of particular lines."""
    return [[r.random(), r.random(), r.choice([0.0, r.random(), r.random()]), r.randrange(6)]
            for _ in range(r.choice([1, 2, 3, 5, 10, 40]))]


def gen_plan(r):
    """Where to switch: a few preemptions anywhere, bursts, or dense switching."""
    c = r.random()
    if r.random() < 0.5:
        return gen_points(r)
    if c < 0.35:
        return [[r.random(), r.randrange(6)] for _ in range(r.randrange(1, 6))]
    if c < 0.6:
        return [[r.random(), r.randrange(6)] for _ in range(r.choice([10, 30, 100]))]
    if c < 0.85:
        # a burst: many switches close together
        out = []
        for _ in range(r.choice([1, 2, 4])):
            a, w = r.random(), r.choice([0.002, 0.01, 0.05])
            out += [[min(1.0, a + r.random() * w), r.randrange(6)] for _ in range(40)]
        return out
    return [[r.random(), r.randrange(6)] for _ in range(800)]
