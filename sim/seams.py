"""Seams: every source of nondeterminism the library can reach, under simulator control."""
import logging
import os
import random
import sys
import threading
import time
import uuid

from sim import core

_real_urandom = os.urandom


class Entropy:
    """Stands in for os.urandom; one stream per simulated thread."""

    def __init__(self, seed):
        self.seed = seed
        self.streams = {}
        self.draws = 0

    def __call__(self, n):
        self.draws += 1
        key = current_stream()
        r = self.streams.get(key)
        if r is None:
            r = self.streams[key] = core.rng("entropy", self.seed, key)
        return r.randbytes(n)


_stream_var = {"get": lambda: 0}


def current_stream():
    return _stream_var["get"]()


class SimClock:
    """Simulated wall clock (seconds); advanced by the simulator only."""

    def __init__(self, start=1_600_000_000.0):
        self.now = start

    def time(self):
        return self.now

    def time_ns(self):
        return int(self.now * 1e9)


class LogTap(logging.Handler):
    """Captures the library's log records (level, message); silent otherwise."""

    def __init__(self):
        super().__init__(level=logging.NOTSET)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelname, record.getMessage()))

    def take(self):
        out, self.records = self.records, []
        return out


class Env:
    """What a run installs before it starts the library's code."""

    def __init__(self, seed):
        self.entropy = Entropy(seed)
        self.clock = SimClock()
        self.log = LogTap()

    def install(self):
        os.urandom = self.entropy
        random._urandom = self.entropy
        random.seed(core.derive("global-random", self.entropy.seed))
        time.time = self.clock.time
        time.time_ns = self.clock.time_ns
        root = logging.getLogger()
        root.handlers = [self.log]
        logging.raiseExceptions = False
        for name in list(logging.Logger.manager.loggerDict):
            lg = logging.getLogger(name)
            if name.split(".")[0] in ("gemd", "pint", "flexparser"):
                lg.handlers = []
                lg.propagate = True
        logging.getLogger("pint").setLevel(logging.ERROR)
        import warnings
        warnings.simplefilter("ignore")
        return self


# ------------------------------------------------------------------ locks
class SimLock:
    """A lock that cooperates with the simulated scheduler, and is an ordinary lock without one."""

    reentrant = False

    def __init__(self):
        self._real = _RealRLock() if self.reentrant else _RealLock()
        self._owner = None
        self._count = 0

    def _sched(self):
        s = ACTIVE["sched"]
        if s is None or s.me() is None:
            return None
        return s

    def acquire(self, blocking=True, timeout=-1):
        s = self._sched()
        if s is None:
            # without a scheduler there is one thread: waiting would be waiting forever
            if self._real.acquire(False):
                return True
            if not blocking or timeout >= 0:
                return False
            raise core.Violation("deadlock", "a lock was left held by an earlier operation")
        me = s.me()
        if self._owner is not None and not (self.reentrant and self._owner == me):
            if not blocking:
                return False
            s.block_on(self)  # returns once the lock is free and this thread is scheduled
        self._owner = me
        self._count += 1
        return True

    def release(self):
        s = self._sched()
        if s is None:
            return self._real.release()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            s.lock_released(self)

    def locked(self):
        return self._owner is not None or (hasattr(self._real, "locked") and self._real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()


class SimRLock(SimLock):
    reentrant = True


ACTIVE = {"sched": None}
_RealLock = threading.Lock
_RealRLock = threading.RLock


def import_gemd():
    """Import the code under test from the repository's working tree, with simulator-aware locks."""
    if "gemd" in sys.modules:
        return
    sys.dont_write_bytecode = True
    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)
    # Dependencies first, with ordinary locks
    import numpy, pandas, pint, deprecation, importlib_resources, json, tempfile  # noqa
    sys.pycache_prefix = "/nonexistent/no-pycache"  # never a stale compiled file
    threading.Lock, threading.RLock = SimLock, SimRLock
    try:
        import gemd  # noqa
        import pkgutil
        import importlib
        for m in pkgutil.walk_packages(gemd.__path__, "gemd."):
            if ".demo" in m.name:
                continue
            importlib.import_module(m.name)
    finally:
        threading.Lock, threading.RLock = _RealLock, _RealRLock
    where = os.path.realpath(gemd.__file__)
    if not where.startswith(os.path.realpath(core.REPO) + os.sep):
        raise core.HarnessError("imported gemd from %s" % where)
