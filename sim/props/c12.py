"""C12: the same history gives the same documents in every process.

A run replays one history in several interpreter processes that differ in what must not matter: the
hash seed, the heap layout, and unrelated work done before.  The logs must agree entry by entry.
"""
import json
import os
import struct
import subprocess
import sys

from sim import core, seams, world as W, hist
from sim.core import Violation, fork_call

import gemd.json as gj
import gemd.units as gu
from gemd.util import flatten, substitute_links, set_uuids, make_index, recursive_flatmap, \
    recursive_foreach
from gemd.entity.bounds_validation import set_validation_level, WarningLevel

ID = "C12"
RUNS = {"quick": 4000, "thorough": 60000}
RULE = "digest of the log (document bytes, orders, rejections, unit answers); a run is non-trivial if " \
       "it wrote at least one document with 3 or more entities"
STATE_MEASURE = "distinct documents written (digest of their bytes)"
REAL = ["all of gemd", "pint", "json", "separate Python interpreters"]
STUB = ["entropy (same stream in every process)", "clock"]
ASSUMPTIONS = ["processes run the same Python, pint and gemd",
               "texts of log and error messages are not compared, only the kind of error"]
PROBES = ["document", "loaded", "copy", "flattened", "rejected", "unit answer", "prior work",
          "sets in document", "written after reload"]
SEEDS = {"a": "1", "b": "424242"}     # hash seeds of the helper processes
EXPRS = ["g/2 ml", "g/2.5 ml", "g/25 ml", "m/-2 s", "mol/5 l", "m/.5 s", "kg*3 K", "g/2 l/s", "m/2e3 s",
         "foo", "m**", "degC", "g/ml", "K*s*m*kg*mol", "N*Pa/eV", "mol/(2 l)", "g/33 mm/min"]
SER = {"dump": 5, "load": 2, "copy": 1, "thin": 1, "flatten": 2, "raw": 1, "order": 2, "linkcopy": 1,
       "units": 2, "reject": 2, "instance": 1, "union": 2, "index": 1, "uuids": 1, "deps": 1}


def gen(r, tier):
    ops = hist.gen_ops(r, r.randrange(4, 30))
    for _ in range(r.randrange(2, 9)):
        k = r.choices(list(SER), list(SER.values()))[0]
        ops.insert(r.randrange(len(ops) // 2, len(ops) + 1), {"op": k, "r": r.getrandbits(40)})
    ops.append({"op": "dump", "r": r.getrandbits(40)})
    return {"ops": ops, "prior": hist.gen_ops(r, r.randrange(0, 8)) + [
        {"op": r.choice(["dump", "units", "copy", "flatten"]), "r": r.getrandbits(40)}
        for _ in range(r.randrange(4))]}


def shrinkable(trace):
    return [["ops"], ["prior"]]


def step(w, op, docs, ser):
    r = core.rng("t", op["r"])
    k = op["op"]
    if k == "units":
        out = [k]
        for _ in range(4):
            u, v = r.choice(EXPRS), r.choice(EXPRS)
            for f in (lambda: gu.parse_units(u), lambda: [str(x) for x in gu.get_base_units(u)],
                      lambda: repr(gu.convert_units(1.25, u, v))):
                try:
                    out.append(f())
                except Exception as e:  # noqa
                    out.append(["raised", type(e).__name__])
        return out
    if k not in SER or k == "instance":
        return hist.apply(w, op)
    if k == "union":
        sets = [W.CategoricalBounds(set(r.sample(W.CATS, r.randrange(1, 5)))) for _ in range(2)] \
            if r.random() < 0.5 else \
            [W.CompositionBounds(set(r.sample(W.ELEMENTS, r.randrange(1, 6)))) for _ in range(2)]
        u = sets[0].union(sets[1])
        return [k, gj.dumps(u), gj.dumps(sets)]
    if not w.ents:
        return [k, "skip"]
    if k == "dump":
        root = w.container(r) if r.random() < 0.6 else list(w.ents)
        scope = r.choice(["auto", "id", "X"])
        if ser.get(scope) is None:
            ser[scope] = gj.GEMDJson(scope=scope)
        doc = (ser[scope] if r.random() < 0.5 else gj).dumps(root)
        docs.append(doc)
        return [k, doc.count('"uids"'), core.digest(doc), doc]
    if k == "load":
        if not docs:
            return [k, "skip"]
        got = gj.loads(r.choice(docs))
        gs = W.graph_snap(got)
        if r.random() < 0.5 and len(w.ents) < 40:
            w2 = gj.dumps(got)
            return [k, core.digest(gs), core.digest(w2), w2]
        return [k, core.digest(gs)]
    if k == "copy":
        e = w.pick(r)
        c = gj.GEMDJson().copy(e)
        doc = gj.dumps(c)
        return [k, core.digest(doc), doc]
    if k == "thin":
        return [k, gj.GEMDJson().thin_dumps(w.pick(r))]
    if k == "raw":
        e = w.pick(r)
        set_uuids(e, "auto")
        return [k, gj.GEMDJson().raw_dumps(substitute_links(e))]
    if k == "flatten":
        return [k, [W.ukey(e) for e in flatten(w.container(r), "auto")]]
    if k == "order":
        root = w.container(r)
        set_uuids(root, "auto")
        seen = []
        recursive_foreach(root, lambda e: seen.append(W.ukey(e)))
        return [k, recursive_flatmap(root, lambda e: [W.ukey(e)], unidirectional=r.random() < 0.5),
                sorted(seen)]
    if k == "uuids":
        root = w.container(r)
        set_uuids(root, "auto")
        return [k, sorted(W.ukey(e) for e in W.reach(root))]
    if k == "index":
        set_uuids(w.ents, "auto")
        return [k, [[x.scope, x.id] for x in make_index(list(w.ents))]]
    if k == "deps":
        e = w.pick(r)
        set_uuids(w.ents, "auto")
        return [k, sorted(W.ukey(x) if isinstance(x, W.BaseEntity) else "%s %s" % (x.scope, x.id)
                          for x in e.all_dependencies())]
    if k == "linkcopy":
        set_uuids(w.ents, "auto")
        e = w.pick(r)
        return [k, gj.GEMDJson().raw_dumps(substitute_links(e, r.choice(["auto", "id", "Lab", None])))]
    if k == "reject":
        e = w.pick(r)
        f, v = r.choice([("name", 3), ("tags", [1]), ("uids", {"a": "1", "A": "2"}), ("nope", 1),
                         ("file_links", ["x"]), ("bounds", 3), ("template", "x"), ("process", "x"),
                         ("properties", [1]), ("sample_type", "nope"), ("labels", [2])])
        try:
            if f == "nope":
                e.uids.update({"Lab": "1", "lab": "2"})
            elif f not in W.FIELDS[W.kind_of(e)]:
                return [k, "skip"]
            else:
                setattr(e, f, v)
        except Exception as x:  # noqa
            return [k, W.kind_of(e), f, type(x).__name__]
        return [k, W.kind_of(e), f, "accepted"]
    raise core.HarnessError(k)


def history(trace, prior):
    if prior:
        seams.Env(core.derive(trace["seed"], "prior")).install()
        w, docs, ser = W.World(), [], {}
        for op in trace["prior"]:
            try:
                step(w, op, docs, ser)
            except Exception:  # noqa
                pass
    seams.Env(core.derive(trace["seed"], "env")).install()
    w, docs, ser, log = W.World(), [], {}, []
    for op in trace["ops"]:
        try:
            log.append(step(w, op, docs, ser))
        except Exception as e:  # noqa
            log.append([op["op"], "raised", type(e).__name__, core.gemd_frames(e)[-1:]])
    return log


# ------------------------------------------------------------------ helper processes
def _read(f, n):
    out = b""
    while len(out) < n:
        b = f.read(n - len(out))
        if not b:
            return None
        out += b
    return out


def serve():
    """A helper interpreter: reads traces, answers with logs."""
    keep = []
    if os.environ.get("GEMD_SIM_JUNK"):
        r = core.rng("junk", os.environ["GEMD_SIM_JUNK"])
        keep = [bytearray(r.randrange(16, 3000)) for _ in range(20000)]
        del keep[::2]
    out, inp = os.fdopen(os.dup(1), "wb"), os.fdopen(os.dup(0), "rb")
    os.dup2(2, 1)
    core.freeze_heap()
    while True:
        h = _read(inp, 4)
        if h is None:
            break
        trace = json.loads(_read(inp, struct.unpack("I", h)[0]))
        try:
            ans = ["ok", fork_call(history, trace, bool(keep))]
        except Violation as v:
            ans = ["violation", v.as_dict()]
        except core.HarnessError as e:
            ans = ["harness", str(e)]
        blob = json.dumps(ans).encode()
        out.write(struct.pack("I", len(blob)) + blob)
        out.flush()


_helpers = {}


def helper(name):
    key = (os.getpid(), name)
    if key not in _helpers:
        env = dict(os.environ, PYTHONHASHSEED=SEEDS[name], PYTHONDONTWRITEBYTECODE="1")
        if name == "b":
            env["GEMD_SIM_JUNK"] = "7"
        else:
            env.pop("GEMD_SIM_JUNK", None)
        _helpers[key] = subprocess.Popen(
            [sys.executable, "-c", "from sim.props import c12; c12.serve()"], cwd=core.VERIF, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    return _helpers[key]


def send(p, trace):
    blob = json.dumps(trace).encode()
    p.stdin.write(struct.pack("I", len(blob)) + blob)
    p.stdin.flush()


def receive(p):
    h = _read(p.stdout, 4)
    if h is None:
        raise core.HarnessError("a helper process ended")
    kind, val = json.loads(_read(p.stdout, struct.unpack("I", h)[0]))
    if kind == "harness":
        raise core.HarnessError(val)
    if kind == "violation":
        v = Violation(val["class"], val["detail"])
        v.data = val["data"]
        raise v
    return val


def first_difference(a, b):
    for i in range(min(len(a), len(b))):
        if a[i] != b[i]:
            lo = max(0, i - 60)
            return "...%s  |  ...%s" % (a[lo:i + 60], b[lo:i + 60])
    return "%d and %d characters" % (len(a), len(b))


def execute(trace):
    names = sorted(SEEDS)
    for n in names:
        send(helper(n), trace)
    base = json.loads(json.dumps(fork_call(history, trace, False)))
    others = [receive(helper(n)) for n in names]
    for n, other in zip(names, others):
        for i, (x, y) in enumerate(zip(base, other)):
            if x != y:
                raise Violation("differs", "step %d (%s) gives different results in two processes "
                                "(hash seed%s): %s" % (
                                    i, x[0], ", heap and prior work" if n == "b" else "",
                                    first_difference(core.canon(x), core.canon(y))))
        if len(base) != len(other):
            raise Violation("differs", "one process stopped early")
    stats, states = core.Stats(), set()
    big = 0
    for op, x in zip(trace["ops"], base):
        stats.hit("steps")
        stats.hit("op:" + op["op"])
        probe = {"dump": "document", "load": "loaded", "copy": "copy", "flatten": "flattened",
                 "units": "unit answer"}.get(x[0])
        if probe and x[1] != "skip":
            stats.hit("probe:" + probe)
        if x[0] == "reject" and x[-1] not in ("skip", "accepted"):
            stats.hit("probe:rejected")
        if x[0] == "dump" and x[1] not in ("skip", "raised"):
            big = max(big, x[1])
            states.add(x[2])
            if "categories" in x[3] or "components" in x[3]:
                stats.hit("probe:sets in document")
        if x[0] == "load" and len(x) > 3:
            stats.hit("probe:written after reload")
    if trace["prior"]:
        stats.hit("probe:prior work")
    stats.hit("fault:different hash seed", 2)
    stats.hit("fault:different heap and prior work")
    log = [[y if not isinstance(y, str) or len(y) < 80 else core.digest(y) for y in x] for x in base]
    return {"digest": core.digest(log), "stats": stats, "states": states, "nontrivial": big >= 3,
            "log": log}
