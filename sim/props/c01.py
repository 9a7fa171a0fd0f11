"""C01: an acknowledged document survives a crash with the same graph.

A run is a series of incarnations of one client process over one simulated disk.  Each incarnation
is a fork of the pristine process image: nothing but the disk's durable bytes survives a crash.
"""
from sim import core, seams, world as W, hist
from sim.core import Violation, SimCrash, fork_call
from sim.storage import Disk, DiskFault

import gemd.json as gj

ID = "C01"
RUNS = {"quick": 5000, "thorough": 90000}
RULE = "digest of the event log (operations, their outcomes, document bytes, crash points); a run " \
       "is non-trivial if a document with at least 3 entities was loaded after a crash"
STATE_MEASURE = "distinct shapes of loaded graphs (sorted multiset of entity kinds and of " \
                "(kind, field, kind) edges)"
REAL = ["all of gemd (entities, builders, util, json)", "pint", "json", "io text and buffer layers"]
STUB = ["raw file I/O (in-memory disk with a durable and a volatile state)", "entropy", "clock",
        "process crash (fork of a pristine image keeps only durable bytes)"]
ASSUMPTIONS = [
    "rename is atomic and fsync makes a file durable",
    "identifiers are unique within a document",
    "plain dictionaries in a document have string keys and no key 'type'",
    "a process is the process of at most one material of the document"]
PROBES = ["crash in another write", "link in document resolved", "link outside kept",
          "shared entity", "deep chain", "client's own class", "class registered late", "empty graph", "third generation", "torn tmp file seen"]

CRASH = ["plain", "crash_in_write", "crash_before_sync", "crash_before_rename"]


def gen(r, tier):
    segs = []
    n_seg = r.choice([1, 1, 2, 2, 3, 4]) + 1
    big = r.random() < 0.15
    for s in range(n_seg):
        n = r.randrange(0, 30 if big else 14) + (4 if s == 0 else 0)
        ops = hist.gen_ops(r, n)
        if r.random() < 0.006:
            ops.insert(r.randrange(len(ops) + 1),
                       {"op": "chain", "r": r.getrandbits(40), "n": r.choice([40, 250, 400])})
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            ops.insert(r.randrange(len(ops) // 2, len(ops) + 1),
                       {"op": "dump", "r": r.getrandbits(40), "doc": r.choice("abc")})
        if r.random() < 0.06:
            at = r.randrange(len(ops) + 1)
            ops[at:at] = [{"op": "register", "r": r.getrandbits(40)},
                          {"op": "loose", "r": r.getrandbits(40)},
                          {"op": "loose", "r": r.getrandbits(40)}]
        for _ in range(r.choice([0, 0, 1])):
            ops.insert(r.randrange(len(ops) + 1), {"op": "load", "r": r.getrandbits(40)})
        ops.append({"op": "crash", "r": r.getrandbits(40), "fault": r.choice(CRASH)})
        segs.append({"ops": ops, "r": r.getrandbits(40)})
    return {"segs": segs, "derive": r.getrandbits(40) if r.random() < 0.2 else 0}


def shrinkable(trace):
    return [["segs"]] + [["segs", i, "ops"] for i in range(len(trace["segs"]))]


_pool = {}


def encoder(r):
    """The module-level default, a new serialiser, or one that this process has used before."""
    c = r.random()
    if c < 0.5:
        return gj
    scope = r.choice(["auto", "id", "My Scope"])
    if c < 0.7:
        return gj.GEMDJson(scope=scope)
    if scope not in _pool:
        _pool[scope] = gj.GEMDJson(scope=scope)
    return _pool[scope]


def write_doc(disk, name, root, r, enc, buffered=None):
    """The client's write protocol: temporary file, flush, fsync, rename = acknowledged."""
    tmp = name + ".tmp"
    draw = r.random() < 0.7
    fp = disk.open_write(tmp, r, buffered=draw if buffered is None else buffered)
    try:
        kw = {"indent": r.choice([1, 2])} if r.random() < 0.2 else {}
        enc.dump(root, fp, **kw)
        fp.flush()
    finally:
        try:
            fp.detach()
        except BaseException:  # noqa
            pass
    disk.fsync(tmp)
    disk.rename(tmp, name)


def pick_root(w, r):
    c = r.random()
    if c < 0.55 or not w.ents:
        return w.container(r)
    if c < 0.85:
        out = list(w.ents)
        r.shuffle(out)
        return out if c < 0.75 else tuple(out)
    out = list(w.ents)
    r.shuffle(out)
    return {"k%d" % i: e for i, e in enumerate(out)}


def shape(gs):
    kinds, edges = {}, {}
    for k, n in gs["nodes"].items():
        kinds[n["kind"]] = kinds.get(n["kind"], 0) + 1
        for f, v in n.items():
            if isinstance(v, list) and len(v) == 2 and v[0] == "ref" and v[1] in gs["nodes"]:
                key = (n["kind"], f, gs["nodes"][v[1]]["kind"])
                edges[key] = edges.get(key, 0) + 1
    return core.digest([sorted(kinds.items()), sorted(map(list, edges.items()), key=str)])


def check_doc(disk, name, expect, r, stats, states, log):
    fp = disk.open_read(name, r)
    enc = encoder(r)
    got = enc.load(fp) if r.random() < 0.7 else enc.loads(disk.read_bytes(name).decode())
    gs = W.graph_snap(got)
    d = W.diff(expect, gs)
    if d:
        raise Violation("round-trip", "document %s differs after the restart:\n  %s"
                        % (name, "\n  ".join(d)))
    states.add(shape(gs))
    log.append(["loaded", name, len(gs["nodes"]), core.digest(gs)])
    if not gs["nodes"]:
        stats.hit("probe:empty graph")
    return got, len(gs["nodes"])


def incarnation(seg, state, k, seed, derive=None):
    env = seams.Env(core.derive(seed, "inc", k, seg["r"])).install()
    W.derive(derive)
    r = core.rng("inc", seg["r"])
    stats, states, log = core.Stats(), set(), []
    disk = Disk(state["disk"])
    w = W.World()
    w.used = {tuple(x) for x in state["used"]}
    w.n_outside = state["n_outside"]
    acked = dict(state["acked"])
    # recover: everything that was acknowledged must be there
    biggest = 0
    loaded = []
    for name in sorted(acked):
        if w.late is None and '"Late"' in core.canon(acked[name]):
            w.late = W.late_class()
        got, n = check_doc(disk, name, acked[name], r, stats, states, log)
        loaded.append(got)
        biggest = max(biggest, n)
    if any(x.endswith(".tmp") for x in disk.durable):
        stats.hit("probe:torn tmp file seen")
    if k >= 2 and loaded:
        stats.hit("probe:third generation")
    if loaded and r.random() < 0.85:
        w.add_all(r.choice(loaded))
    for op in seg["ops"]:
        stats.hit("steps")
        env.clock.now += 0.5
        o = core.rng("o", op["r"])
        if op["op"] == "dump":
            stats.hit("op:dump")
            root = pick_root(w, o)
            write_doc(disk, op["doc"], root, o, encoder(o))
            hist.note_uids(w)
            gs = W.graph_snap(root)
            acked[op["doc"]] = ex = W.expected_after_load(gs)
            log.append(["acked", op["doc"], len(gs["nodes"]), core.digest(disk.durable[op["doc"]])])
            probe(gs, ex, stats)
        elif op["op"] == "register":
            if w.late is None:
                w.late = W.late_class()
        elif op["op"] == "load":
            if acked:
                name = o.choice(sorted(acked))
                got, _ = check_doc(disk, name, acked[name], o, stats, states, log)
        elif op["op"] == "crash":
            kind = op.get("fault") or "plain"
            stats.hit("fault:crash " + kind)
            if kind != "plain" and w.ents:
                root = pick_root(w, o)
                name = o.choice("abc")
                disk.arm = {"kind": kind, "at": o.choice([0, 30, o.randrange(2000), o.randrange(99999)])}
                try:
                    write_doc(disk, name, root, o, encoder(o))
                    # too short a document for the fault: it was acknowledged before the crash
                    acked[name] = W.expected_after_load(W.graph_snap(root))
                    hist.note_uids(w)
                except SimCrash:
                    stats.hit("probe:crash in another write")
            break
        else:
            log.append(hist.apply(w, op, stats))
    stats.hit("simtime", disk.simtime)
    return {"disk": disk.crash(r), "acked": acked, "used": sorted(w.used),
            "n_outside": w.n_outside, "stats": stats, "states": states, "log": log,
            "biggest": biggest}


def probe(gs, ex, stats):
    a, b = core.canon(gs), core.canon(ex)
    if a.count('["link", ') > b.count('["link", '):
        stats.hit("probe:link in document resolved")
    if '["link", ' in b:
        stats.hit("probe:link outside kept")
    refs = {}
    for n in ex["nodes"].values():
        for v in n.values():
            if isinstance(v, list) and len(v) == 2 and v[0] == "ref":
                refs[v[1]] = refs.get(v[1], 0) + 1
    if '"Late"' in b:
        stats.hit("probe:class registered late")
    if '"Note"' in b:
        stats.hit("probe:client's own class")
    if any(x > 1 for x in refs.values()):
        stats.hit("probe:shared entity")
    if len(gs["nodes"]) > 500:
        stats.hit("probe:deep chain")


def execute(trace):
    stats, states, log = core.Stats(), set(), []
    state = {"disk": {}, "acked": {}, "used": [], "n_outside": 0}
    biggest = 0
    segs = trace["segs"] + [{"ops": [], "r": 7}]   # a last restart that checks what survived
    for k, seg in enumerate(segs):
        state = fork_call(incarnation, seg, state, k, trace["seed"], trace.get("derive"))
        stats.merge(state.pop("stats"))
        states |= state.pop("states")
        biggest = max(biggest, state.pop("biggest"))
        log.append(state.pop("log"))
    return {"digest": core.digest(log), "stats": stats, "states": states,
            "nontrivial": biggest >= 3, "log": [x for seg in log for x in seg]}
