"""Shared basics of the simulator: seeds, violations, process isolation.

Nothing in here reads a real clock or a real random source on a path that decides anything.
"""
import gc
import hashlib
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import time
import traceback

REPO = os.environ.get("GEMD_SIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_real_time = time.time  # for wall-clock accounting only; never feeds a decision


def derive(*parts) -> int:
    """A 63-bit seed that is a pure function of its parts."""
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


def rng(*parts) -> random.Random:
    return random.Random(derive(*parts))


def canon(x) -> str:
    return json.dumps(x, sort_keys=True, ensure_ascii=True, default=repr)


def digest(x) -> str:
    if not isinstance(x, (bytes, str)):
        x = canon(x)
    if isinstance(x, str):
        x = x.encode("utf-8", "backslashreplace")
    return hashlib.sha256(x).hexdigest()[:16]


class Violation(Exception):
    """The property is broken.  `cls` is the violation class that minimisation must preserve."""

    def __init__(self, cls, detail, **data):
        super().__init__(cls, detail)
        self.cls = cls
        self.detail = detail
        self.data = data

    def as_dict(self):
        return {"class": self.cls, "detail": self.detail[:4000], "data": self.data}


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimInterrupt(KeyboardInterrupt):
    """An asynchronous interrupt delivered by the simulator."""


class HarnessError(Exception):
    """The simulator itself is at fault (never reported as a violation)."""


def gemd_frames(exc):
    """Frames of the traceback that lie in the code under test, innermost last."""
    out = []
    tb = exc.__traceback__
    root = os.path.join(REPO, "gemd") + os.sep
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(root):
            out.append("%s:%s" % (fn[len(root):], tb.tb_frame.f_code.co_name))
        tb = tb.tb_next
    return out


def short_exc(e):
    s = str(e)
    return "%s: %s" % (type(e).__name__, s if len(s) < 300 else s[:300] + "...")


# ---------------------------------------------------------------- process isolation
CPU_LIMIT_S = 100
WALL_LIMIT_S = 150


class Hang(Exception):
    pass


def _child(fn, args, wfd):
    code = 0
    try:
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT_S, CPU_LIMIT_S + 5))
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        try:
            out = ("ok", fn(*args))
        except Violation as v:
            out = ("violation", v.as_dict())
        except BaseException as e:  # noqa
            frames = gemd_frames(e)
            tb = traceback.format_exc()
            if frames and not isinstance(e, HarnessError):
                out = ("violation", Violation(
                    "crash:%s" % type(e).__name__,
                    "unexpected %s in %s\n%s" % (short_exc(e), frames[-1], tb[-3000:])).as_dict())
            else:
                out = ("harness", tb)
        blob = pickle.dumps(out)
        view = memoryview(blob)
        while view:
            n = os.write(wfd, view)
            view = view[n:]
    except BaseException:  # noqa
        traceback.print_exc()
        code = 3
    finally:
        os._exit(code)


def _blocked(pid):
    """Why a child that is over its time has not finished: blocked, or merely slow."""
    try:
        with open("/proc/%d/stat" % pid) as f:
            fields = f.read().rsplit(")", 1)[1].split()
        if fields[0] in "SD" and int(fields[11]) + int(fields[12]) < 3000:
            return "blocked"
    except OSError:
        pass
    return "slow"


def fork_call(fn, *args):
    """Run fn(*args) in a forked copy of this (pristine) process and return its result.

    This is also the simulator's process model: every incarnation of a simulated process starts
    from the pristine image, and only what is passed in `args` (its durable storage) survives.
    """
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        _child(fn, args, wfd)
    os.close(wfd)
    chunks = []
    deadline = _real_time() + WALL_LIMIT_S
    killed = None
    try:
        while True:
            left = deadline - _real_time()
            if left <= 0:
                killed = _blocked(pid)
                os.kill(pid, signal.SIGKILL)
                break
            r, _, _ = select.select([rfd], [], [], left)
            if not r:
                continue
            b = os.read(rfd, 1 << 20)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(rfd)
        _, status = os.waitpid(pid, 0)
    if killed == "blocked":
        raise Violation("no-progress", "an operation blocked forever (nothing runs, %d s)"
                        % WALL_LIMIT_S)
    if killed:
        raise HarnessError("wall limit of %d s exceeded" % WALL_LIMIT_S)
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig in (signal.SIGXCPU,):
            raise Violation("no-progress", "an operation did not finish within %d s of CPU time"
                            % CPU_LIMIT_S)
        if sig == signal.SIGKILL:
            raise HarnessError("run was killed")
        raise Violation("died", "the process died with signal %d" % sig)
    if not chunks:
        raise HarnessError("run gave no result (status %r)" % status)
    kind, val = pickle.loads(b"".join(chunks))
    if kind == "ok":
        return val
    if kind == "violation":
        v = Violation(val["class"], val["detail"])
        v.data = val["data"]
        raise v
    raise HarnessError(val)


def freeze_heap():
    gc.collect()
    gc.freeze()


# ---------------------------------------------------------------- statistics
class Stats(dict):
    """Counters; merged by addition."""

    def hit(self, key, n=1):
        self[key] = self.get(key, 0) + n

    def merge(self, other):
        for k, v in other.items():
            self[k] = self.get(k, 0) + v
