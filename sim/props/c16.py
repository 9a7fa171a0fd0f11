"""C16: reading a graph answers from its present state and leaves no trace.

A run edits and reads one graph in turn; some reads are interrupted.  Every answer is compared with
what a process says that made the same edits and never read before.  What a caller does to an answer
must not reach the graph or a later answer.  Finally threads read the graph at the same time, under a
seeded plan of switches and interrupts, and each must see what it sees alone.
"""
import copy
import json
import os
import re

from sim import core, seams, world as W, hist, sched, inject
from sim.core import Violation, fork_call

import gemd.json as gj
from gemd.util import flatten, substitute_links, substitute_objects, make_index, \
    recursive_foreach, recursive_flatmap
from gemd.entity.util import complete_material_history
from gemd.entity.bounds_validation import set_validation_level
from gemd.entity.link_by_uid import LinkByUID

ID = "C16"
RUNS = {"quick": 5000, "thorough": 60000}
RULE = "digest of all answers and of the switch sequence; a run is non-trivial if a question was asked " \
       "again after an edit, or threads were switched in the middle of reading"
STATE_MEASURE = "distinct (question, kind of entity, answered before, edit since) tuples and interleavings"
REAL = ["all of gemd", "pint", "json", "Python threads (switched only by the scheduler)"]
STUB = ["thread scheduling (seeded plan over executed lines)", "locks of gemd (cooperate with the "
        "scheduler)", "entropy", "clock", "asynchronous errors (raised at chosen lines)"]
ASSUMPTIONS = ["every entity has an identifier before it is read (giving one is an edit)",
               "nobody edits while threads read", "answers are compared as values"]
PROBES = ["asked again after an edit", "interrupted", "threads",
          "interrupted thread", "client's classes"]

sched_root = os.path.join(core.REPO, "gemd") + os.sep

READS = ["eq", "eq", "repr", "asdict", "dump", "link", "deps", "deps", "history", "index", "flatten",
         "thin", "doc", "load", "copy", "unlinked", "relinked", "fields", "bounds", "bounds", "walk",
         "part", "eqpart"]
EDITS = {"set": 10, "list": 6, "attr": 5, "uid": 4, "edge": 3, "measure": 2, "value": 2, "new": 4,
         "instance": 1, "relink": 1, "unlink": 1, "addattr": 2}
BUILD = {"new": 10, "node": 3, "edge": 4, "measure": 3, "set": 3, "attr": 2, "addattr": 2}


def gen_read(r):
    return {"op": r.choice(READS), "r": r.getrandbits(40), "i": r.randrange(60), "j": r.randrange(60)}


def gen_tweak(r, on):
    return {"op": "tweak", "r": r.getrandbits(40), "i": on["i"] if r.random() < 0.5 else r.randrange(60),
            "deep": on["op"] in ("bounds", "eqpart", "part") and r.random() < 0.7}


def gen(r, tier):
    build = hist.gen_ops(r, r.choice([1, 2, 4, 8, 14]), BUILD)
    if r.random() < 0.25:
        build.insert(0, {"op": "chain", "r": r.getrandbits(40), "n": r.choice([1, 2, 3])})
    else:
        build.insert(0, {"op": "new", "r": r.getrandbits(40)})
    script = []
    asked = [gen_read(r) for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < 0.3:   # the same question all along
        k = r.choice(READS)
        for q in asked:
            q["op"] = k
    for _ in range(r.randrange(1, 9)):
        q = dict(r.choice(asked)) if r.random() < 0.75 else gen_read(r)
        if r.random() < 0.1:
            q["fault"] = r.choice(["interrupt", "memory"])
        script.append(q)
        if r.random() < 0.7:
            for _ in range(r.choice([1, 1, 2, 4])):
                script.append(gen_tweak(r, q) if r.random() < 0.6 else hist.gen_op(r, EDITS))
    script.append(dict(r.choice(asked)))
    threads, plan, kills = [], [], []
    if r.random() < 0.5:
        few = [gen_read(r) for _ in range(r.choice([1, 1, 2, 4]))]
        for _ in range(r.choice([2, 2, 3])):
            threads.append({"ops": [dict(r.choice(few)) for _ in range(r.choice([1, 1, 2, 3]))]})
        plan = sched.gen_plan(r) if r.random() < 0.3 else sched.gen_points(r)
        if r.random() < 0.3:
            kills = [[r.random(), r.random(), r.random(), r.choice(["interrupt", "memory"])]
                     for _ in range(r.choice([1, 1, 2, 4]))]
        if r.random() < 0.4:
            script = []
    return {"build": build, "script": script, "threads": threads, "plan": plan, "kills": kills,
            "derive": r.getrandbits(40) if r.random() < 0.2 else 0}


def shrinkable(trace):
    return [["script"], ["build"], ["threads"], ["plan"], ["kills"]] + \
        [["threads", i, "ops"] for i in range(len(trace["threads"]))]


# ------------------------------------------------------------------ edits
def name_all(w):
    """Reading needs identifiers; the client gives every entity one."""
    for e in W.reach(w.ents):
        if not len(e.uids):
            n = 1
            while ("sim", "n%d" % n) in w.used:
                n += 1
            w.used.add(("sim", "n%d" % n))
            e.add_uid("sim", "n%d" % n)
    hist.note_uids(w)


def bounds_of(e):
    if W.kind_of(e) in W.ATTR_TMPL.values():
        return [e.bounds]
    if W.kind_of(e).endswith("Template"):
        return [b for f in ("properties", "conditions", "parameters") if f in W.FIELDS[W.kind_of(e)]
                for _, b in getattr(e, f) if b is not None]
    return []


def tweak(w, op):
    """A small edit of one entity, or of something inside it."""
    if not w.ents:
        return ["tweak", "skip"]
    r = core.rng("tweak", op["r"])
    e = w.ents[op["i"] % len(w.ents)]
    kind = W.kind_of(e)
    c = r.randrange(9)
    if op.get("deep"):
        c = 4 if hist.attrs_of(e) else 5
    if c == 0:
        e.tags.append(W.text(r))
    elif c == 1:
        f = r.choice([x for x in ("name", "notes", "description") if x in W.FIELDS[kind]] or ["tags"])
        setattr(e, f, [W.text(r)] if f == "tags" else W.text(r))
    elif c == 2:
        u = w.new_uid(r, dict(e.uids))
        if u is not None:
            e.add_uid(*u)
    elif c == 3:
        s = r.choice(sorted(dict(e.uids)))
        if r.random() < 0.5:
            e.uids.pop(s)
        else:
            n = len(w.used)
            while (s.lower(), "again%d" % n) in w.used:
                n += 1
            w.used.add((s.lower(), "again%d" % n))
            e.uids[s] = "again%d" % n
    elif c == 4:
        for a in hist.attrs_of(e)[:1]:
            v = a.value
            k = W.kind_of(v)
            if k == "NominalReal" or k == "NominalInteger":
                v.nominal = v.nominal + r.choice([1, 2, -1])
            elif k == "NominalCategorical":
                v.category = W.text(r)
            elif k == "NominalComposition":
                v.quantities = {"a": 0.25, "b": 0.75}
            elif k == "NormalReal":
                v.mean = v.mean + 1.0
            elif k == "DiscreteCategorical":
                v.probabilities = {W.text(r): 1.0}
            elif k in ("UniformReal", "UniformInteger"):
                v.upper_bound = v.upper_bound + 1
            else:
                a.notes = W.text(r)
    elif c == 5:
        for b in bounds_of(e)[:1]:
            k = W.kind_of(b)
            if k in ("RealBounds", "IntegerBounds"):
                b.upper_bound = b.upper_bound + r.choice([1, 5])
            elif k == "CategoricalBounds":
                b.categories = set(b.categories) | {W.text(r)}
            elif k == "CompositionBounds":
                b.components = set(b.components) | {W.text(r)}
    elif c == 6:
        fs = [f for f in ("spec", "template", "process", "material", "sample_template") if
              f in W.FIELDS[kind]]
        if fs:
            f = r.choice(fs)
            setattr(e, f, w.content(r, kind, f, e))
    elif c == 7:
        fs = [f for f in hist.LIST_FIELDS if f in W.FIELDS[kind] and
              not (kind == "IngredientRun" and f == "labels")]
        lst = getattr(e, r.choice(fs))
        if len(lst):
            lst.pop()
    else:
        for s in e.file_links[:1] if "file_links" in W.FIELDS[kind] else []:
            s.url = W.text(r)
    return ["tweak", kind, c]


def edit(w, op):
    try:
        out = tweak(w, op) if op["op"] == "tweak" else hist.apply(w, op)
    except Exception as e:  # noqa   (an edit that the present state refuses)
        out = [op["op"], "raised", type(e).__name__]
    name_all(w)
    return out


# ------------------------------------------------------------------ questions
ADDRESS = re.compile(r"0x[0-9a-f]+")


def other(w, op, r, e):
    c = r.randrange(5)
    if c == 0:
        return w.ents[op["j"] % len(w.ents)]
    if c == 1:
        s = r.choice(sorted(dict(e.uids)))
        return LinkByUID(r.choice([s, s.upper(), s.title()]), e.uids[s] if r.random() < 0.7 else "nobody")
    if c == 2:
        s = r.choice(sorted(dict(e.uids)))
        return (s, e.uids[s])
    if c == 3:
        same = [x for x in w.ents if W.kind_of(x) == W.kind_of(e)]
        return same[op["j"] % len(same)]
    return gj.GEMDJson().copy(e)


def around(v):
    """Bounds that hold little more than what the value says now."""
    k = W.kind_of(v)
    if k == "NominalReal":
        return W.RealBounds(v.nominal - 0.5, v.nominal + 0.5, v.units)
    if k == "NormalReal":
        return W.RealBounds(v.mean - 0.5, v.mean + 0.5, v.units)
    if k == "UniformReal":
        return W.RealBounds(v.lower_bound, v.upper_bound, v.units)
    if k == "NominalInteger":
        return W.IntegerBounds(v.nominal, v.nominal)
    if k == "UniformInteger":
        return W.IntegerBounds(v.lower_bound, v.upper_bound)
    if k == "NominalCategorical":
        return W.CategoricalBounds({v.category})
    if k == "DiscreteCategorical":
        return W.CategoricalBounds(set(v.probabilities))
    if k == "NominalComposition":
        return W.CompositionBounds(set(v.quantities))
    return None


def parts_of(w):
    out = []
    for e in w.ents:
        out.extend(hist.attrs_of(e))
        out.extend(a.value for a in hist.attrs_of(e) if a.value is not None)
        out.extend(bounds_of(e))
    return out


def answer(w, op):
    """(the answer as data, the object to vandalise)"""
    r = core.rng("read", op["r"])
    k = op["op"]
    if not w.ents:
        return ["nothing"], None
    e = w.ents[op["i"] % len(w.ents)]
    scope = r.choice(["auto", "sim", "id", "lab", "LAB"])
    enc = gj.GEMDJson() if r.random() < 0.5 else gj
    root = e if r.random() < 0.6 else list(w.ents)
    if k == "eq":
        x = other(w, op, r, e)
        was = W.snap([x], W.ukey)
        out = [e == x, x == e, e != x, isinstance(x, LinkByUID) and hash(x) == hash(x)]
        if W.snap([x], W.ukey) != was:
            raise Violation("graph-changed", "comparing changed %s into %s" % (was, W.snap([x], W.ukey)))
        return out, None
    if k == "eqpart":
        ps = parts_of(w)
        if not ps:
            return ["nothing"], None
        p = ps[op["i"] % len(ps)]
        x = ps[op["j"] % len(ps)] if r.random() < 0.6 else gj.loads(gj.dumps(p))
        return [p == x, x == p], None
    if k == "repr":
        if len(W.reach(e)) > 14:
            return ["large"], None
        return [ADDRESS.sub("@", repr(e))], None
    if k == "asdict":
        d = e.as_dict()
        return [sorted(d), [[f, W.snap(d[f], W.ukey)] for f in sorted(d)]], d
    if k == "dump":
        d = e.dump() if len(W.reach(e)) <= 14 else {}
        return [core.canon(d)], d
    if k == "link":
        out = []
        for s in [None] + sorted(dict(e.uids)) + [scope]:
            try:
                lk = e.to_link(s) if r.random() < 0.5 else LinkByUID.from_entity(e, scope=s)
                out.append([s, lk.scope, lk.id])
                lk.id = "vandal"
            except ValueError:
                out.append([s, "refused"])
        return out, None
    if k == "deps":
        d = e.all_dependencies()
        return sorted(core.canon(W.snap(x, W.ukey)) for x in d), d
    if k == "history":
        if len(W.reach(e)) > 14:
            return ["large"], None
        h = complete_material_history(e)
        return [core.canon(h)], h
    if k == "index":
        ix = make_index(root)
        return sorted([core.canon(list(key) if isinstance(key, tuple) else [key.scope, key.id]),
                       W.ukey(ix[key])] for key in ix), ix
    if k == "flatten":
        flat = flatten(root, scope)
        return [[W.kind_of(x), W.ukey(x)] for x in flat], flat
    if k == "thin":
        return [gj.GEMDJson().thin_dumps(e)], None
    if k == "doc":
        return [core.digest(enc.dumps(root)), ], None
    if k == "load":
        back = enc.loads(enc.dumps(root))
        return [core.digest(W.graph_snap(back))], back
    if k == "copy":
        back = gj.GEMDJson(scope=scope).copy(root)
        return [core.digest(W.graph_snap(back))], back
    if k == "unlinked":
        x = substitute_links(e, r.choice([None, scope]))
        return [W.snap(x, W.ukey) if not isinstance(x, W.BaseEntity) else
                W.entity_snap(x, W.ukey)], x
    if k == "relinked":
        x = substitute_objects(substitute_links(e), make_index(w.ents))
        return [W.entity_snap(x, W.ukey)], x
    if k == "fields":
        out = W.entity_snap(e, W.ukey)
        for f in ("template", "name", "labels", "spec"):
            if hasattr(type(e), f):
                out["now:" + f] = W.snap(getattr(e, f), W.ukey)
        return [out], None
    if k == "bounds":
        bs = [b for x in w.ents for b in bounds_of(x)]
        vs = [a.value for x in [e] + w.ents for a in hist.attrs_of(x) if a.value is not None]
        if vs and r.random() < 0.5:
            v = vs[0]
            b = around(v)
            if b is None:
                return ["nothing"], None
            u = b.union(v)
            return [b.contains(v), W.snap(u, W.ukey)] + [x.contains(v) for x in bs[:5]], u
        bs = bounds_of(e) + bs
        if not bs:
            return ["nothing"], None
        b = bs[0]
        x = (vs or bs)[op["j"] % len(vs or bs)] if r.random() < 0.6 else bs[op["j"] % len(bs)]
        out = [b.contains(x), x.contains(b) if hasattr(x, "contains") else None]
        try:
            u = b.union(x)
            out.append(W.snap(u, W.ukey))
        except (TypeError, ValueError) as err:
            u = None
            out.append(type(err).__name__)
        return out, u
    if k == "walk":
        seen = []
        recursive_foreach(root, lambda x: seen.append(W.ukey(x)) if isinstance(x, W.BaseEntity) else None,
                          apply_first=r.random() < 0.5)
        names = recursive_flatmap(root, lambda x: [W.ukey(x)] if isinstance(x, W.BaseEntity) else [])
        return [seen, names], names
    if k == "part":
        ps = parts_of(w)
        if not ps:
            return ["nothing"], None
        p = ps[op["i"] % len(ps)]
        x = gj.loads(gj.dumps(p))
        return [W.snap(x, W.ukey)], x
    raise core.HarnessError("unknown question %r" % k)


def vandalise(op, x):
    """What a caller may do with an answer, which is its own."""
    if op in ("index", "asdict", "deps", "flatten", "walk"):
        x.clear()          # the container is new, what is in it is the graph
    elif op in ("dump", "history"):
        vandal_json(x)
    elif op == "bounds":
        k = W.kind_of(x)
        if k in ("RealBounds", "IntegerBounds"):
            x.upper_bound = x.upper_bound + 100
        elif k == "CategoricalBounds":
            x.categories = {"vandal"}
        elif k == "CompositionBounds":
            x.components = {"vandal"}
    elif op in ("load", "copy", "unlinked", "relinked"):
        for e in list(W.entities_in(x))[:1] + (W.reach(x) if op in ("load", "copy") else []):
            if W.kind_of(e) != "IngredientRun":
                e.name = "vandal"
            e.tags.append("vandal")
            e.add_uid("vandal", "vandal")
            if hasattr(e, "notes"):
                e.notes = "vandal"
            if op in ("load", "copy"):   # made anew down to the last part
                for a in hist.attrs_of(e):
                    a.name, a.value = "vandal", None
                    a.file_links.clear()
                for b in bounds_of(e):
                    if W.kind_of(b) in ("RealBounds", "IntegerBounds"):
                        b.upper_bound = b.upper_bound + 100


def vandal_json(x):
    for v in list(x.values() if isinstance(x, dict) else x if isinstance(x, list) else ()):
        vandal_json(v)
    if isinstance(x, (dict, list)):
        x.clear()


def ask(w, op):
    try:
        got, obj = answer(w, op)
    except (core.SimInterrupt, MemoryError, Violation):
        raise
    except Exception as e:  # noqa
        return ["raised", type(e).__name__, core.gemd_frames(e)[-1:]]
    got = json.loads(core.canon(got))
    if obj is not None:
        vandalise(op["op"], obj)
    return got


# ------------------------------------------------------------------ runs
def setup(trace):
    seams.Env(core.derive(trace["seed"], "env")).install()
    set_validation_level(0)
    W.derive(trace.get("derive"))
    w = W.World()
    for op in trace["build"]:
        edit(w, op)
    name_all(w)
    return w


def first_time(trace):
    """The answers of processes that never read before."""
    w = setup(trace)
    out = []
    for op in trace["script"]:
        if op["op"] in READS:
            out.append(fork_call(ask, w, op))
        else:
            out.append(edit(w, op))
    return out


def everything(w):
    return W.population_snap(W.reach(w.ents))


def history(trace, want):
    w = setup(trace)
    stats, states = core.Stats(), set()
    log = []
    asked, edited = {}, 0
    for n, op in enumerate(trace["script"]):
        if op["op"] not in READS:
            out = edit(w, op)
            if out != want[n]:
                raise Violation("left-a-trace", "the edit %s gives %s, without reading first it gives %s"
                                % (op["op"], out, want[n]))
            edited += 1
            log.append(out)
            continue
        stats.hit("op:" + op["op"])
        before = everything(w)
        lf = None
        if op.get("fault"):
            r = core.rng("fault", op["r"])
            lf = inject.LineFault(inject.position(r), inject.EXC[op["fault"]]("injected"))
        try:
            if lf is not None:
                with lf:
                    got = ask(w, op)
            else:
                got = ask(w, op)
        except (core.SimInterrupt, MemoryError):
            if lf is None:
                raise
            got = None
            stats.hit("fault:" + op["fault"])
            stats.hit("probe:interrupted")
        d = W.diff(before, everything(w))
        if d:
            raise Violation("graph-changed", "reading (%s%s) changed the graph:\n  %s"
                            % (op["op"], ", interrupted" if got is None else "", "\n  ".join(d)))
        if got is not None and got != want[n]:
            raise Violation("answer", "%s says %s; a process with the same graph that never read before "
                            "says %s" % (op["op"], core.canon(got)[:600], core.canon(want[n])[:600]))
        key = core.canon([op["op"], op["r"], op["i"], op["j"]])
        if key in asked and edited > asked[key]:
            stats.hit("probe:asked again after an edit")
        states.add(core.digest([op["op"], W.kind_of(w.ents[op["i"] % len(w.ents)]) if w.ents else "",
                                key in asked, edited > asked.get(key, edited)]))
        asked[key] = edited
        stats.hit("steps")
        log.append([op["op"], core.digest(got)])
    if trace.get("derive"):
        stats.hit("probe:client's classes")
    return {"log": log, "stats": stats, "states": states}


def present(trace):
    w = setup(trace)
    for op in trace["script"]:
        if op["op"] not in READS:
            edit(w, op)
    return w


def reader(w, s, ops):
    def body():
        log = []
        for op in ops:
            try:
                log.append(ask(w, op))
            except (core.SimInterrupt, MemoryError):
                s().resume()
                log.append(None)
        return log
    return body


def read_together(trace, only, expected, tables):
    w = present(trace)
    before = everything(w)
    kills = [[t, a, b, inject.EXC[x]("injected")] for t, a, b, x in trace["kills"]]
    s = sched.Scheduler(trace["plan"] if only is None else [], expected or 1,
                        lambda f: f.startswith(sched_root), tables=tables,
                        kills=kills if only is None else ())
    logs = s.run([reader(w, lambda: s, t["ops"]) if only in (None, i) else (lambda: None)
                  for i, t in enumerate(trace["threads"])])
    d = W.diff(before, everything(w))
    if d:
        raise Violation("graph-changed", "reading in threads changed the graph:\n  %s" % "\n  ".join(d))
    return {"logs": logs, "switches": s.switches, "steps": s.step, "killed": s.killed,
            "table": s.table[only] if only is not None else None}


def execute(trace):
    stats, states, log = core.Stats(), set(), []
    nontrivial = False
    if trace["script"]:
        want = fork_call(first_time, trace)
        res = fork_call(history, trace, want)
        stats.merge(res["stats"])
        states |= res["states"]
        log.append(res["log"])
        nontrivial = "probe:asked again after an edit" in stats
    if trace["threads"]:
        solo = [fork_call(read_together, trace, i, None, None) for i in range(len(trace["threads"]))]
        res = fork_call(read_together, trace, None, sum(x["steps"] for x in solo),
                        [x["table"] for x in solo])
        stats.hit("probe:threads")
        stats.hit("steps", res["steps"])
        stats.hit("fault:preemption", len(res["switches"]))
        for i, x in enumerate(solo):
            for op, a, b in zip(trace["threads"][i]["ops"], x["logs"][i], res["logs"][i]):
                stats.hit("op:" + op["op"])
                if b is None:
                    stats.hit("probe:interrupted thread")
                    stats.hit("fault:interrupted thread")
                elif a != b:
                    raise Violation("disturbed", "thread %d: %s says %s, alone it says %s"
                                    % (i, op["op"], core.canon(b)[:600], core.canon(a)[:600]))
        if res["switches"]:
            states.add(core.digest(res["switches"]))
        nontrivial = nontrivial or len(res["switches"]) >= 2
        log.append([res["switches"], res["killed"], core.digest(res["logs"])])
    return {"digest": core.digest(log), "stats": stats, "states": states, "nontrivial": nontrivial,
            "log": log}
