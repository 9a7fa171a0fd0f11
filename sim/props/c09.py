"""C09: changing the unit definitions is all-or-nothing.

A run is a history of switches between definition files, edits of those files, and unit questions in
one simulated process whose file system is a scratch directory behind injected faults.  After every
switch the answers are compared with those of a fresh process that was given, as its very first step,
the definitions that should be in force.
"""
import builtins
import errno
import io
import os
import pathlib
import shutil
import tempfile

from sim import core, seams, inject
from sim.core import Violation, fork_call

seams.import_gemd()

import gemd.units as gu  # noqa: E402
from gemd.entity.value import NominalReal  # noqa: E402
from gemd.entity.bounds import RealBounds  # noqa: E402

ID = "C09"
RUNS = {"quick": 1100, "thorough": 20000}
RULE = "digest of the event log (switches, faults, answers); a run is non-trivial if at least two " \
       "switches succeeded and at least one failed, with questions asked in between"
STATE_MEASURE = "distinct (definitions in force, question, answer) tuples"
REAL = ["gemd.units", "gemd values and bounds", "pint registry and definition parser",
        "the file system calls underneath (on a scratch directory)"]
STUB = ["errors of open, read, stat, getcwd and chdir (injected in front of the real calls)",
        "interrupts and failing allocations at a chosen line of pint while it reads and builds the definitions"]
ASSUMPTIONS = ["a fresh process is a fork of the image right after importing gemd",
               "no other thread queries units during a switch",
               "returning to the original directory, once left, does not itself fail",
               "a definitions file that is cut at the end of a line is a shorter valid file; it "
               "counts as what a fresh process makes of it"]
PROBES = ["switch ok", "switch refused", "faulted switch", "retry after fault ok", "back to default",
          "stale answer possible", "same file changed on disk", "relative path", "import failed",
          "interrupted in pint", "file deleted after the switch", "asked after failed switch"]

NAMES = ["foo", "bar", "baz", "qux"]
DIMS = ["meter", "second", "gram"]
UNITS = NAMES + ["meter", "m", "second", "gram", "g", "millifoo", "kilobar", "mfoo", "foo/bar",
                 "g/2 foo", "g/2.5 foo", "m/25 bar", "foo*bar", "foo**2", "m/s", "nix", "baz/3 foo",
                 "qux/2.5 qux", "1/5 foo", "degC", "percent", "kg", "ml", "g/2 ml", ""]


def content(r):
    """A definitions file (as parts, so that it can be shrunk and varied)."""
    return {"defs": [[n, r.choice([0.001, 2, 3, 5, 7.5, 25]), r.choice(DIMS)]
                     for n in r.sample(NAMES, r.randrange(1, 5))],
            "milli": r.choice([1e-3, 1e-3, 0.5]), "import": r.choice([None, "sub", "sub", "side"]),
            "system": r.random() < 0.9,
            "bad": r.choice([None] * 7 + ["syntax", "unclosed", "noimport", "utf8", "empty", "text"])}


def render(c):
    lines = ["@defaults", "    group = international", "    system = mks", "@end",
             "milli- = %r = m-" % c["milli"], "kilo- = 1000 = k-", "meter = [length] = m = metre",
             "second = [time] = s = sec", "gram = [mass] = g"]
    if c["import"]:
        lines.append("@import " + {"sub": "sub/more.txt", "side": "side.txt"}[c["import"]])
    lines += ["%s = %r * %s" % tuple(d) for d in c["defs"]]
    if c["bad"] == "syntax":
        lines.append("foo = = 2 *")
    elif c["bad"] == "noimport":
        lines.append("@import nowhere.txt")
    elif c["bad"] == "text":
        lines.append("this is not a definition")
    lines += ["@group international", "    thou = 1e-3 * meter", "@end"]
    if c["system"]:
        lines += ["@system mks using international", "    meter", "    gram", "    second", "@end"]
    if c["bad"] == "unclosed":
        lines += ["@group extra", "    zip = 3 * meter"]
    out = "\n".join(lines).encode() + b"\n"
    if c["bad"] == "utf8":
        out = out[:len(out) // 2] + b"\xff\xfe\x00" + out[len(out) // 2:]
    elif c["bad"] == "empty":
        out = b""
    return out


def side_content(r):
    return {"defs": [[n, r.choice([4, 6, 11]), r.choice(DIMS)] for n in r.sample(NAMES, 2)],
            "bad": r.choice([None] * 8 + ["syntax"])}


def render_side(c):
    return ("\n".join("%s = %r * %s" % tuple(d) for d in c["defs"]) + "\n"
            + ("foo = = 2 *\n" if c["bad"] else "")).encode()


FILES = ["a/units.txt", "b/units.txt", "b/other.txt"]   # the first two have the same name
SIDES = ["a/sub/more.txt", "b/sub/more.txt", "a/side.txt", "b/side.txt"]
FAULTS = ["open_denied", "open_missing", "open_emfile", "read_eio", "read_eio", "read_short",
          "chdir_denied", "chdir_missing", "getcwd_missing", "stat_eio",
          "pint_interrupt", "pint_interrupt", "pint_interrupt", "pint_memory"]
KINDS = ["parse", "parse", "base", "base", "convert", "convert", "real", "bounds"]


def question(r, pool):
    q = {"op": r.choice(KINDS), "u": r.choice(pool)}
    if q["op"] == "convert":
        q["v"] = r.choice(pool + DIMS)
        q["x"] = r.choice([1.0, 2.5])
    return q


def gen(r, tier):
    files = {f: content(r) for f in FILES}
    files.update({f: side_content(r) for f in SIDES})
    pool = r.sample(UNITS, r.randrange(3, 8))
    asked = [question(r, pool) for _ in range(r.randrange(3, 10))]
    ops = []
    defaults = 0
    for _ in range(r.randrange(4, 14)):
        c = r.random()
        if c < 0.55:
            to = None if defaults < 2 and r.random() < 0.14 else r.choice(FILES)
            defaults += to is None
            o = {"op": "switch", "to": to, "how": r.choice(["abs", "abs", "rel", "dots", "tilde",
                                                            "symlink", "path"])}
            if r.random() < 0.4:
                o["fault"] = {"kind": r.choice(FAULTS), "nth": r.choice([0, 0, 0, 1, 1, 2]),
                              "r": r.getrandbits(32)}
                ops.append(o)
                if r.random() < 0.5:
                    ops += [{"op": "ask", "q": r.choice(asked)} for _ in range(r.randrange(3))]
                    ops.append({k: v for k, v in o.items() if k != "fault"})
                    defaults += to is None
            else:
                ops.append(o)
        elif c < 0.75:
            f = r.choice(FILES + SIDES)
            new = r.choice(["content", "content", "delete", "cut", "dir"])
            o = {"op": "edit", "file": f, "to": new}
            if new == "content":
                o["content"] = content(r) if f in FILES else side_content(r)
            elif new == "cut":
                o["at"] = r.random()
            ops.append(o)
        elif c < 0.82:
            ops.append({"op": "chdir", "dir": r.choice(["", "a", "b", "a/sub"])})
        else:
            ops.append({"op": "ask", "q": question(r, pool)})
        ops += [{"op": "ask", "q": r.choice(asked)} for _ in range(r.randrange(0, 4))]
    return {"files": files, "ops": ops, "probe": asked[:3]}


def shrinkable(trace):
    return [["ops"], ["probe"]]


def num(x):
    return "%.12g" % x if isinstance(x, (int, float)) else repr(x)


def ask(q):
    k, u = q["op"], q["u"]
    try:
        if k == "parse":
            return ["ok", gu.parse_units(u)]
        if k == "base":
            b = gu.get_base_units(u)
            return ["ok", str(b[0]), num(b[1]), num(b[2])]
        if k == "convert":
            return ["ok", num(gu.convert_units(q["x"], u, q["v"]))]
        if k == "real":
            return ["ok", NominalReal(1.5, u).units]
        if k == "bounds":
            b = RealBounds(-1.0, 7.0, u)
            return ["ok", b.default_units, num(b.upper_bound)]
    except Exception as e:  # noqa
        return ["err", type(e).__name__]
    raise core.HarnessError(k)


# ------------------------------------------------------------------ the faulty file system
class FaultFS:
    """In front of the real calls while a switch is under way."""

    def __init__(self, fault):
        self.kind, self.left = fault["kind"], fault["nth"]
        self.r = core.rng(fault["r"])
        self.fired = None

    def due(self, *kinds):
        if self.kind not in kinds or self.fired:
            return False
        if self.left:
            self.left -= 1
            return False
        self.fired = self.kind
        return True

    def open(self, file, *a, **k):
        name = os.fspath(file) if not isinstance(file, int) else ""
        if str(name).endswith(".txt"):
            if self.due("open_denied"):
                raise PermissionError(errno.EACCES, "simulated", name)
            if self.due("open_missing"):
                raise FileNotFoundError(errno.ENOENT, "simulated", name)
            if self.due("open_emfile"):
                raise OSError(errno.EMFILE, "simulated: too many open files", name)
            if self.kind in ("read_eio", "read_short"):
                raw = FaultRaw(self, self.real_open(file, "rb", buffering=0))
                buf = io.BufferedReader(raw)
                mode = a[0] if a else k.get("mode", "r")
                if "b" in mode:
                    return buf
                return io.TextIOWrapper(buf, encoding=k.get("encoding") or "utf-8")
        return self.real_open(file, *a, **k)

    def chdir(self, path):
        if self.due("chdir_denied"):
            raise PermissionError(errno.EACCES, "simulated", str(path))
        if self.due("chdir_missing"):
            raise FileNotFoundError(errno.ENOENT, "simulated", str(path))
        out = self.real_chdir(path)
        if self.kind.startswith("chdir"):
            self.kind = "none"  # only the way in fails, never the way back
        return out

    def getcwd(self):
        if self.due("getcwd_missing"):
            raise FileNotFoundError(errno.ENOENT, "simulated: working directory is gone")
        return self.real_getcwd()

    def stat(self, path, *a, **k):
        if self.due("stat_eio"):
            raise OSError(errno.EIO, "simulated", str(path))
        return self.real_stat(path, *a, **k)

    def lstat(self, path, *a, **k):
        if self.due("stat_eio"):
            raise OSError(errno.EIO, "simulated", str(path))
        return self.real_lstat(path, *a, **k)

    def __enter__(self):
        self.real_open, self.real_chdir, self.real_getcwd = io.open, os.chdir, os.getcwd
        self.real_stat, self.real_lstat = os.stat, os.lstat
        io.open = builtins.open = self.open
        os.chdir, os.getcwd, os.stat, os.lstat = self.chdir, self.getcwd, self.stat, self.lstat
        return self

    def __exit__(self, *a):
        io.open = builtins.open = self.real_open
        os.chdir, os.getcwd = self.real_chdir, self.real_getcwd
        os.stat, os.lstat = self.real_stat, self.real_lstat
        return False


class FaultRaw(io.RawIOBase):
    """read_eio fails partway; read_short merely delivers few bytes at a time."""

    def __init__(self, fs, raw):
        self.fs, self.raw, self.done = fs, raw, 0
        self.fail_at = fs.r.choice([0, 1, 40, 200, fs.r.randrange(600)])
        self.mine = fs.due("read_eio", "read_short")

    def readable(self):
        return True

    def readinto(self, b):
        if self.mine and self.fs.kind == "read_eio":
            if self.done >= self.fail_at:
                raise OSError(errno.EIO, "simulated read error")
            b = memoryview(b)[:max(1, self.fail_at - self.done)]
        elif self.mine:
            b = memoryview(b)[:max(1, self.fs.r.randrange(64))]
        n = self.raw.readinto(b)
        self.done += n or 0
        return n

    def close(self):
        self.raw.close()
        super().close()


PINT = os.path.dirname(os.path.realpath(__import__("pint").__file__)) + os.sep


def switch(root, op, faulted):
    """One call of change_definitions_file, with its fault; returns the outcome."""
    to = op["to"]
    arg = None
    if to is not None:
        full = os.path.join(root, to)
        how = op["how"]
        if how == "rel":
            arg = os.path.relpath(full)
        elif how == "dots":
            arg = os.path.join(os.path.dirname(full), "..", os.path.dirname(to), os.path.basename(to))
        elif how == "tilde":
            arg = os.path.join("~", to)
        elif how == "symlink":
            arg = os.path.join(root, "link-" + to.replace("/", "-"))
        elif how == "path":
            arg = pathlib.Path(full)
        else:
            arg = full
    fault = op.get("fault")
    ctx = None
    if fault is not None:
        k = fault["kind"]
        if k in ("pint_interrupt", "pint_memory"):  # while the definitions are being read and built
            at = int(10 ** core.rng(fault["r"]).uniform(0, 4.3))
            ctx = inject.LineFault(at, inject.EXC[k[5:]]("injected"), where=lambda f: PINT in f)
        else:
            ctx = FaultFS(fault)
    try:
        if ctx is None:
            gu.change_definitions_file(*([] if arg is None else [arg]))
        else:
            with ctx:
                gu.change_definitions_file(*([] if arg is None else [arg]))
        out = ["ok"]
    except core.SimInterrupt:
        out = ["err", "interrupt"]
    except Exception as e:  # noqa
        out = ["err", type(e).__name__]
    if ctx is not None and ctx.fired:
        faulted.append(fault["kind"])
    return out


def lay_out(root, disk):
    for d in ("a/sub", "b/sub"):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for f, data in disk.items():
        put(root, f, data)
    for f in FILES:
        os.symlink(os.path.join(root, f), os.path.join(root, "link-" + f.replace("/", "-")))


def put(root, f, data):
    path = os.path.join(root, f)
    if os.path.isdir(path):
        os.rmdir(path)
    elif os.path.exists(path):
        os.remove(path)
    if data is None:
        return
    if data == "dir":
        os.mkdir(path)
        return
    with open(path, "wb") as fh:
        fh.write(data)


def run(trace, root):
    seams.Env(core.derive(trace["seed"], "env")).install()
    os.environ["HOME"] = root
    stats = core.Stats()
    disk = {f: (render(c) if f in FILES else render_side(c)) for f, c in trace["files"].items()}
    lay_out(root, disk)
    os.chdir(root)
    history = []  # (op, outcome, faults fired, epoch in force before; disk at that moment)
    for op in trace["ops"]:
        stats.hit("steps")
        stats.hit("op:" + op["op"])
        before = os.getcwd()
        if op["op"] == "switch":
            fired = []
            out = switch(root, op, fired)
            for k in fired:
                stats.hit("fault:" + k)
                if k.startswith("pint_"):
                    stats.hit("probe:interrupted in pint")
            here = os.getcwd()
            if here != before:
                raise Violation("cwd-changed", "switching to %s (%s%s) left the working directory "
                                "%s, it was %s" % (op["to"], out, ", fault " + fired[0] if fired
                                                   else "", os.path.relpath(here, root),
                                                   os.path.relpath(before, root)))
            probes = [ask(q) for q in trace["probe"]]
            history.append(["switch", op, out, fired, dict(disk), probes])
        elif op["op"] == "edit":
            f, to = op["file"], op["to"]
            if to == "content":
                disk[f] = render(op["content"]) if f in FILES else render_side(op["content"])
            elif to == "delete":
                disk[f] = None
            elif to == "dir":
                disk[f] = "dir"
            elif to == "cut" and isinstance(disk[f], bytes):
                disk[f] = disk[f][:int(len(disk[f]) * op["at"])]
            put(root, f, disk[f])
            stats.hit("fault:file %s" % to if to != "content" else "probe:same file changed on disk")
            history.append(["edit", op, None, None, None, None])
        elif op["op"] == "chdir":
            os.chdir(os.path.join(root, op["dir"]))
            history.append(["chdir", op, None, None, None, None])
        else:
            history.append(["ask", op, ask(op["q"]), None, None, None])
            if os.getcwd() != before:
                raise Violation("cwd-changed", "a unit question changed the working directory")
    return {"history": history, "stats": stats}


def fresh(disk, to, questions, root):
    """A process whose first step is to use `to` on that disk, and then answers."""
    seams.Env(1).install()
    lay_out(root, disk)
    os.chdir(root)
    try:
        if to is not None:
            gu.change_definitions_file(os.path.join(root, to))
        out = ["ok"]
    except Exception as e:  # noqa
        return {"switch": ["err", type(e).__name__], "answers": None}
    return {"switch": out, "answers": [ask(q) for q in questions]}


def oracle(disk, to, questions):
    root = tempfile.mkdtemp(prefix="gemd-sim-fresh-")
    try:
        return fork_call(fresh, disk if to is not None else {}, to, questions, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def execute(trace):
    root = os.path.realpath(tempfile.mkdtemp(prefix="gemd-sim-"))
    try:
        res = fork_call(run, trace, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    stats, states, log = res["stats"], set(), []
    # epochs: definitions that should be in force, with the questions asked under them
    epochs = [[{}, None, []]]
    ok_switches = bad_switches = 0
    asked_before = set()
    pending = None
    for h in res["history"]:
        kind, op, out, fired, disk, probes = h
        if kind == "switch":
            log.append(["switch", op["to"], op["how"], op.get("fault"), out, fired, probes])
            want = oracle(disk, op["to"], [])["switch"] if op["to"] is not None else ["ok"]
            if out == ["ok"]:
                if want != ["ok"]:
                    raise Violation("accepted", "switching to %s succeeded, in a fresh process it is "
                                    "refused with %s" % (op["to"], want[1]))
                epochs.append([disk, op["to"], []])
                ok_switches += 1
                stats.hit("probe:switch ok")
                if op["to"] is None and len(epochs) > 2:
                    stats.hit("probe:back to default")
                if op["how"] == "rel":
                    stats.hit("probe:relative path")
                if pending == core.canon([op["to"], op["how"]]):
                    stats.hit("probe:retry after fault ok")
                pending = None
            else:
                bad_switches += 1
                if not fired and (want == ["ok"] or want != out):
                    raise Violation("refused", "switching to %s (%s) without a fault gives %s, in a "
                                    "fresh process %s" % (op["to"], op["how"], out, want))
                stats.hit("probe:switch refused")
                if fired:
                    stats.hit("probe:faulted switch")
                    pending = core.canon([op["to"], op["how"]])
                elif out == ["err", "FileNotFoundError"] and disk.get(op["to"]) not in (None, "dir"):
                    stats.hit("probe:import failed")
            for q, a in zip(trace["probe"], probes):
                epochs[-1][2].append((q, a, "after the switch to %s gave %s%s" % (
                    op["to"], out, " (fault %s)" % fired[0] if fired else "")))
                if out != ["ok"]:
                    stats.hit("probe:asked after failed switch")
                elif core.canon(q) in asked_before:
                    stats.hit("probe:stale answer possible")
                asked_before.add(core.canon(q))
        elif kind == "ask":
            log.append(["ask", op["q"], out])
            epochs[-1][2].append((op["q"], out, "asked"))
            asked_before.add(core.canon(op["q"]))
        else:
            log.append([kind, op])
            if kind == "edit" and op["to"] == "delete" and op["file"] == epochs[-1][1]:
                stats.hit("probe:file deleted after the switch")
    for disk, to, qs in epochs:
        todo, seen = [], set()
        for q, a, _ in qs:
            if core.canon(q) not in seen:
                seen.add(core.canon(q))
                todo.append(q)
        if not todo:
            continue
        want = oracle(disk, to, todo)
        if want["switch"] != ["ok"]:
            raise core.HarnessError("oracle refused %r" % to)
        by = {core.canon(q): a for q, a in zip(todo, want["answers"])}
        key = core.digest([to, sorted((k, repr(v)) for k, v in disk.items())])
        for q, a, when in qs:
            states.add(core.digest([key, q, a]))
            if a != by[core.canon(q)]:
                raise Violation("wrong-definitions", "%s: %s gives %s, a fresh process using %s gives "
                                "%s" % (when, core.canon(q), a, to or "the default", by[core.canon(q)]))
    return {"digest": core.digest(log), "stats": stats, "states": states,
            "nontrivial": ok_switches >= 2 and bad_switches >= 1, "log": log}
