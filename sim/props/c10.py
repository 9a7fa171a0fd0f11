"""C10: threads working on separate graphs do not disturb each other.

A run starts two or three real threads in one simulated process; a seeded plan decides at which
executed lines control passes from one to another.  Every thread's own log (results, exceptions,
documents, final graph) is compared with its log when it runs alone.
"""
import os

from sim import core, seams, world as W, hist, sched
from sim.core import Violation, fork_call

import gemd.json as gj
import gemd.units as gu
from gemd.util import flatten, substitute_links, substitute_objects, make_index, set_uuids, \
    recursive_foreach
from gemd.entity.util import complete_material_history
from gemd.entity.bounds_validation import get_validation_level, set_validation_level, WarningLevel

ID = "C10"
RUNS = {"quick": 4500, "thorough": 60000}
RULE = "digest of the switch sequence and of all thread logs; a run is non-trivial if control passed " \
       "at least twice between threads in the middle of library calls"
STATE_MEASURE = "distinct interleavings (digest of the sequence of (from, to, source line) switches)"
REAL = ["all of gemd", "pint", "json", "Python threads (switched only by the scheduler)"]
STUB = ["thread scheduling (seeded plan over executed lines)", "locks of gemd (cooperate with the "
        "scheduler)", "entropy (one stream per thread)", "clock"]
ASSUMPTIONS = ["threads are switched between source lines of gemd (and of pint, in half of the runs)",
               "shared templates have identifiers before the threads start",
               "the validation level and the definitions file are not changed while threads run"]
PROBES = ["switch inside gemd", "switch inside pint", "waited for a lock", "document", "loaded",
          "rejected", "scaled units", "same expression in two threads"]

EXPRS = ["g/2 ml", "g/2.5 ml", "g/25 ml", "m/-2 s", "mol/5 l", "m/.5 s", "kg*3 K", "g/2 l", "m/2e3 s",
         "g / 5 mL", "1/2 m", "foo", "m**", "degC", "g/ml", "K/min", "mol/(2 l)", "g/33 mm"]


def gen(r, tier):
    exprs = r.sample(EXPRS, r.choice([2, 3, 6]))
    n = r.choice([2, 2, 2, 3])
    threads = []
    if r.random() < 0.55:
        return focused(r, n, exprs)
    if r.random() < 0.4:
        # small and alike: the threads do nearly the same thing at nearly the same time
        ops = hist.gen_ops(r, r.randrange(1, 4), {"new": 3, "node": 1}) if r.random() < 0.7 else []
        for _ in range(r.randrange(1, 4)):
            k = r.choice(["units", "units", "dump", "copy", "load", "thin", "flatten", "eq", "instance",
                          "edge", "measure", "attr", "set", "check", "check", "subst", "history"])
            ops.append({"op": k, "r": r.getrandbits(40)})
            if k == "units":
                ops[-1]["qs"] = [[r.choice(["parse", "base", "convert", "unit", "bounds"]),
                                  r.choice(exprs), r.choice(exprs)] for _ in range(r.randrange(1, 4))]
        for t in range(n):
            mine = [dict(o) for o in ops]
            if r.random() < 0.3:
                mine.pop(r.randrange(len(mine)))
            threads.append({"ops": mine})
        n = 0
    for t in range(n):
        ops = hist.gen_ops(r, r.randrange(2, 9))
        extra = r.choice([["units"], ["dump", "copy"], ["dump", "check"],
                          ["dump", "load", "copy", "thin", "flatten", "units", "reject", "eq", "check",
                           "subst", "history"]])
        for _ in range(r.randrange(2, 7)):
            k = r.choice(extra)
            op = {"op": k, "r": r.getrandbits(40)}
            if k == "units":
                op["qs"] = [[r.choice(["parse", "base", "convert", "unit", "bounds"]),
                             r.choice(exprs), r.choice(exprs)] for _ in range(r.randrange(1, 6))]
            ops.insert(r.randrange(len(ops) + 1), op)
        threads.append({"ops": ops})
    return {"threads": threads, "shared": hist.gen_ops(r, r.randrange(0, 8), {"new": 1}),
            "level": r.choice(["ignore", "warning", "warning", "fatal"]),
            "plan": sched.gen_plan(r), "pint": r.random() < 0.5}


FOCUS = ["units", "units", "units", "check", "subst", "subst", "dump", "copy", "load", "flatten", "thin",
         "eq", "history", "instance", "edge", "measure"]


def focused(r, n, exprs):
    """Few lines of code, so that switches hit every one of them: all threads do one kind of thing."""
    f = r.choice(FOCUS)
    build = [] if f in ("units", "check") else \
        hist.gen_ops(r, r.randrange(1, 4), {"new": 2, "node": 1, "edge": 1})
    if f == "load":
        build = build + [{"op": "dump", "r": r.getrandbits(40)}]
    seed = r.getrandbits(40)
    threads = []
    apart = f == "units" and r.random() < 0.6   # everybody asks something else, and little
    if apart:
        exprs = r.sample([e for e in EXPRS if any(c in "2345" for c in e)], 2 * n)
    for t in range(n):
        mine = []
        for _ in range(1 if apart else r.randrange(1, 3)):
            op = {"op": f, "r": seed if r.random() < 0.6 else r.getrandbits(40)}
            if apart:
                op["qs"] = [[r.choice(["parse", "base", "unit", "bounds"]), e, e]
                            for e in exprs[2 * t:2 * t + r.choice([1, 1, 2])]]
            elif f == "units":
                op["qs"] = [[r.choice(["parse", "base", "convert", "unit", "bounds"]),
                             r.choice(exprs), r.choice(exprs)] for _ in range(r.randrange(1, 4))]
            mine.append(op)
        threads.append({"ops": [dict(o) for o in build] + mine})
    return {"threads": threads, "shared": [], "level": r.choice(["ignore", "warning", "fatal"]),
            "plan": sched.gen_plan(r) if r.random() < 0.3 else sched.gen_points(r),
            "pint": f == "units" and r.random() < 0.3}


def shrinkable(trace):
    return [["plan"], ["shared"]] + [["threads", i, "ops"] for i in range(len(trace["threads"]))]


PINT = os.path.dirname(os.path.realpath(__import__("pint").__file__)) + os.sep


def watched(trace):
    if trace["pint"]:
        return lambda f: f.startswith(sched_root) or f.startswith(PINT)
    return lambda f: f.startswith(sched_root)


sched_root = os.path.join(core.REPO, "gemd") + os.sep


def ask(kind, u, v):
    try:
        if kind == "parse":
            return gu.parse_units(u)
        if kind == "base":
            b = gu.get_base_units(u)
            return [str(b[0]), repr(b[1]), repr(b[2])]
        if kind == "convert":
            return repr(gu.convert_units(2.5, u, v))
        if kind == "unit":
            return str(gu.parse_units(u, return_unit=True))
        b = W.RealBounds(0, 1, u)
        return [b.default_units, b.contains(W.NominalReal(0.5, u))]
    except Exception as e:  # noqa
        return ["raised", type(e).__name__]


def check(w, r):
    """Assignments that are checked against bounds; what was said about them is in the log."""
    b = W.bounds(r)
    t = W.PropertyTemplate("t", bounds=b)
    out = [str(get_validation_level())]
    v = W.value_in(b, r)
    a = W.Property("a", template=t, value=v)
    mt = W.MaterialTemplate("m", properties=[[t, None]])
    m = W.MaterialSpec("m", template=mt)
    for _ in range(r.randrange(1, 4)):
        v = r.choice([W.value_in, W.value_out])(b, r)
        c = r.randrange(3)
        try:
            if c == 0:
                a.value = v
            elif c == 1:
                m.properties.append(W.PropertyAndConditions(W.Property("t", value=v)))
            else:
                i = W.IngredientRun()
                i.mass_fraction = W.NominalReal(r.choice([0.5, 1.5, -1.0]), r.choice(["", "", "g"]))
            out.append("accepted")
        except Exception as x:  # noqa
            out.append(type(x).__name__)
    return out + [len(m.properties)]


def subst(w, r):
    """Records exchanged as links and put together again, into a copy and in place."""
    flat = flatten(w.container(r), "auto")
    recs = [gj.loads(gj.dumps(x)) for x in flat] if r.random() < 0.3 else flat
    known = r.sample(recs, r.randrange(0, len(recs) + 1))
    out = []
    for x in recs[:3]:
        out.append(core.digest(W.graph_snap(substitute_objects(x, make_index(known)))))
    if r.random() < 0.5:
        substitute_objects(recs, make_index(recs), inplace=True)
        out.append(core.digest(W.graph_snap(recs)))
    return out


def step(w, op, docs, mine):
    """One operation of one client; what the client sees, as data."""
    r = core.rng("t", op["r"])
    k = op["op"]
    if k == "units":
        return [k] + [ask(*q) for q in op["qs"]]
    if k in ("dump", "thin", "copy", "flatten", "eq", "reject", "load", "subst", "history") and not w.ents:
        return [k, "skip"]
    if k == "dump":
        root = w.container(r)
        doc = gj.dumps(root) if r.random() < 0.6 else gj.GEMDJson(scope="id").dumps(root)
        docs.append(doc)
        return [k, core.digest(doc), len(doc)]
    if k == "load":
        if not docs:
            return [k, "skip"]
        got = gj.loads(r.choice(docs))
        gs = W.graph_snap(got)
        return [k, len(gs["nodes"]), core.digest(gs)]
    if k == "thin":
        doc = gj.GEMDJson().thin_dumps(w.pick(r))
        return [k, core.digest(doc)]
    if k == "copy":
        e = w.pick(r)
        c = gj.GEMDJson().copy(e)
        gs = W.graph_snap(c)
        return [k, len(gs["nodes"]), core.digest(gs)]
    if k == "flatten":
        flat = flatten(w.container(r), r.choice(["auto", "id"]))
        return [k, [[W.kind_of(e), W.ukey(e)] for e in flat]]
    if k == "eq":
        e = w.pick(r)
        c = gj.GEMDJson().copy(e)
        return [k, e == c]
    if k == "check":
        return [k] + check(w, r)
    if k == "subst":
        return [k] + subst(w, r)
    if k == "history":
        e = w.pick(r)
        return [k, core.digest(complete_material_history(e))]
    if k == "reject":
        e = w.pick(r)
        f, v = r.choice([("name", 3), ("tags", [1]), ("uids", {"a": "1", "A": "2"}), ("nope", 1),
                         ("file_links", ["x"])])
        try:
            if f == "nope":
                e.add_uid("Lab", "1")
                e.add_uid("lab", "2")
            else:
                setattr(e, f, v)
        except Exception as x:  # noqa
            return [k, W.kind_of(e), f, type(x).__name__]
        return [k, W.kind_of(e), f, "accepted"]
    return hist.apply(w, op)


def client(trace, i, shared):
    def body():
        w = W.World()
        for t in shared:
            w.share(t)
        log, docs = [], []
        tap = seams.ACTIVE["tap"]
        for op in trace["threads"][i]["ops"]:
            had = len(w.ents)
            try:
                log.append(step(w, op, docs, i))
            except Exception as e:  # noqa
                log.append([op["op"], "raised", type(e).__name__, core.gemd_frames(e)[-1:]])
            for e in w.ents[had:]:
                e.tags.append("thread %d" % i)  # so that anything of another thread is recognised
            said = tap.take_of(i)
            if said:
                log.append(["log", said])
        set_uuids(w.ents, "auto")
        log.append(["final", core.digest(sorted(core.canon([W.ukey(e), W.entity_snap(e, W.ukey)])
                                                for e in w.ents))])
        log.append(["level", str(get_validation_level())])
        return log
    return body


class Tap(seams.LogTap):
    """Log records by the thread that wrote them."""

    def __init__(self):
        super().__init__()
        self.by = {}

    def emit(self, record):
        s = seams.ACTIVE["sched"]
        self.by.setdefault(s.me() if s else None, []).append(record.levelname)

    def take_of(self, i):
        return self.by.pop(i, None)


def setup(trace):
    env = seams.Env(core.derive(trace["seed"], "env"))
    seams.ACTIVE["tap"] = env.log = Tap()
    env.install()
    set_validation_level({"ignore": WarningLevel.IGNORE, "warning": WarningLevel.WARNING,
                          "fatal": WarningLevel.FATAL}[trace["level"]])
    w = W.World(links=False)
    for op in trace["shared"]:
        r = core.rng("shared", op["r"])
        w.new(r, r.choice([k for k in W.KINDS if k.endswith("Template")]))
    for n, t in enumerate(w.ents):
        if not t.uids:
            t.add_uid("shared", "s%d" % n)
    return w.ents


def alone(trace, i):
    shared = setup(trace)
    s = sched.Scheduler([], 1, watched(trace))
    bodies = [client(trace, j, shared) if j == i else (lambda: None)
              for j in range(len(trace["threads"]))]
    log = s.run(bodies)[i]
    return {"log": log, "steps": s.step, "shared": shared_snap(shared), "table": s.table[i]}


def together(trace, expected, tables):
    shared = setup(trace)
    s = sched.Scheduler(trace["plan"], expected, watched(trace), tables=tables)
    logs = s.run([client(trace, j, shared) for j in range(len(trace["threads"]))])
    return {"logs": logs, "switches": s.switches, "steps": s.step, "shared": shared_snap(shared)}


def shared_snap(shared):
    return W.population_snap(shared)


def execute(trace):
    solo = [fork_call(alone, trace, i) for i in range(len(trace["threads"]))]
    res = fork_call(together, trace, sum(s["steps"] for s in solo),
                    [s["table"] for s in solo])
    stats = core.Stats()
    stats.hit("steps", res["steps"])
    stats.hit("fault:preemption", len([x for x in res["switches"] if x[2] != "lock"]))
    for x in res["switches"]:
        stats.hit("probe:waited for a lock" if x[2] == "lock" else
                  "probe:switch inside pint" if "/pint/" in x[2] else "probe:switch inside gemd")
    for i, s in enumerate(solo):
        for a, b in zip(s["log"], res["logs"][i]):
            if core.canon(a) != core.canon(b):
                raise Violation("disturbed", "thread %d sees %s, alone it sees %s"
                                % (i, core.canon(b)[:500], core.canon(a)[:500]))
        if len(s["log"]) != len(res["logs"][i]):
            raise Violation("disturbed", "thread %d stopped early" % i)
        d = W.diff(s["shared"], res["shared"])
        if d:
            raise Violation("shared-changed", "a shared template differs: %s" % d[0])
    seen = {}
    for i, t in enumerate(trace["threads"]):
        for op in t["ops"]:
            stats.hit("op:" + op["op"])
            for q in op.get("qs", ()):
                stats.hit("probe:scaled units")
                if seen.setdefault(q[1], i) != i:
                    stats.hit("probe:same expression in two threads")
    for log in res["logs"]:
        for x in log:
            if x[0] == "dump" and x[1] != "skip":
                stats.hit("probe:document")
            if x[0] in ("load", "copy") and x[1] != "skip":
                stats.hit("probe:loaded")
            if x[0] == "reject" and x[-1] != "accepted":
                stats.hit("probe:rejected")
            if "raised" in x[1:2]:
                stats.hit("raised")
    log = [res["switches"], res["logs"]]
    return {"digest": core.digest(log), "stats": stats,
            "states": {core.digest(res["switches"])} if res["switches"] else set(),
            "nontrivial": len(res["switches"]) >= 2, "log": res["logs"]}
