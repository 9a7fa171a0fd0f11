"""C11: threads serialising the same graph agree on every identity.

A run builds one graph, then starts two or three real threads that serialise, copy, flatten and link
into it, switched by a seeded plan.  Afterwards the documents, the links and the live identifiers are
checked against each other and against the graph.
"""
import json
import os

from sim import core, seams, world as W, hist, sched
from sim.core import Violation, fork_call

import gemd.json as gj
from gemd.util import flatten, substitute_links, set_uuids, make_index
from gemd.entity.link_by_uid import LinkByUID

ID = "C11"
RUNS = {"quick": 4000, "thorough": 50000}
RULE = "digest of the switch sequence and of all results; a run is non-trivial if control passed at " \
       "least twice between threads and at least one entity had no identifier at the start"
STATE_MEASURE = "distinct interleavings (digest of the sequence of (from, to, source line) switches)"
REAL = ["all of gemd", "json", "Python threads (switched only by the scheduler)"]
STUB = ["thread scheduling (seeded plan over executed lines)", "locks of gemd (cooperate with the "
        "scheduler)", "entropy (one stream per thread)", "clock"]
ASSUMPTIONS = ["threads are switched between source lines of gemd",
               "nobody edits the graph while it is serialised"]
PROBES = ["named while others watch", "two scopes", "waited for a lock", "document", "copy", "thin",
          "link made", "flatten", "all named at the start"]

OPS = ["dump", "dump", "dump", "copy", "thin", "flatten", "uuids", "link", "link", "linkcopy", "dumps1",
       "tolink", "index"]
sched_root = os.path.join(core.REPO, "gemd") + os.sep


def gen(r, tier):
    n = r.choice([2, 2, 2, 3])
    build = hist.gen_ops(r, r.choice([1, 2, 3, 6, 12]), {"new": 10, "node": 3, "edge": 3, "measure": 2,
                                                         "set": 3, "attr": 2, "loose": 1, "addattr": 1})
    threads = [{"ops": [{"op": r.choice(OPS), "r": r.getrandbits(40),
                         "scope": r.choice(["auto", "auto", "auto", "id", "AUTO"])}
                        for _ in range(r.choice([1, 1, 2, 3]))]} for _ in range(n)]
    if r.random() < 0.4:
        for t in threads[1:]:
            t["ops"] = [dict(o) for o in threads[0]["ops"]]
    return {"build": build, "threads": threads, "named": r.choice([0, 0, 0, 0.3, 1]),
            "plan": sched.gen_plan(r)}


def shrinkable(trace):
    return [["plan"], ["build"]] + [["threads", i, "ops"] for i in range(len(trace["threads"]))]


def names_in(x, out):
    """Every [scope, id] used in parsed JSON: identifiers of entities and targets of links."""
    if isinstance(x, dict):
        if x.get("type") == "link_by_uid":
            out["links"].append((x["scope"], x["id"]))
        elif isinstance(x.get("uids"), dict) and "type" in x:
            out["entities"].append(x["uids"])
        for v in x.values():
            names_in(v, out)
    elif isinstance(x, list):
        for v in x:
            names_in(v, out)
    return out


def pick_root(w, r):
    c = r.random()
    if c < 0.5:
        return list(w.ents)
    if c < 0.8:
        return w.pick(r)
    return {"a": w.pick(r), "b": list(w.ents)}


def step(w, op, index_of):
    """Returns [kind, scope, ...]; documents are judged after the run."""
    r = core.rng("t", op["r"])
    k, scope = op["op"], op["scope"]
    root = pick_root(w, r)
    e = w.pick(r)
    if k == "dump":
        return [k, scope, root, gj.GEMDJson(scope=scope).dumps(root)]
    if k == "dumps1":
        return ["dump", "auto", root, gj.dumps(root)]
    if k == "copy":
        c = gj.GEMDJson(scope=scope).copy(root)
        return [k, scope, root, W.graph_snap(c)]
    if k == "thin":
        return [k, scope, e, gj.GEMDJson(scope=scope).thin_dumps(e)]
    if k == "flatten":
        flat = flatten(root, scope)
        return [k, scope, root, [W.ukey(x) for x in flat]]
    if k == "uuids":
        set_uuids(root, scope)
        return [k, scope, root, [dict(x.uids) for x in W.reach(root)]]
    if k == "link":
        lk = LinkByUID.from_entity(e, scope=r.choice([scope, None]))
        return [k, scope, e, (lk.scope, lk.id)]
    if k == "tolink":
        set_uuids(e, scope)
        lk = e.to_link(r.choice([scope, None]), allow_fallback=True)
        return ["link", scope, e, (lk.scope, lk.id)]
    if k == "linkcopy":
        set_uuids(root, scope)
        c = substitute_links(root, r.choice([None, scope]))
        return [k, scope, root, json.loads(gj.GEMDJson(scope=scope).raw_dumps(c))]
    if k == "index":
        set_uuids(root, scope)
        ix = make_index(root)
        return [k, scope, root, sorted([str(a.scope), a.id] for a in ix)
                if all(hasattr(a, "scope") for a in ix) else len(ix)]
    raise core.HarnessError(k)


def build(trace):
    seams.Env(core.derive(trace["seed"], "env")).install()
    w = W.World(links=False)
    for op in trace["build"]:
        hist.apply(w, op)
    r = core.rng("named", trace["seed"])
    for e in w.ents:
        for s in list(dict(e.uids)):
            if r.random() >= trace["named"]:
                e.uids.pop(s)
    return w


def plain(e, index):
    s = W.entity_snap(e, lambda x: index.get(id(x), "outside"))
    s.pop("uids")
    return s


def together(trace, expected, tables):
    w = build(trace)
    stats = core.Stats()
    index = {id(e): i for i, e in enumerate(w.ents)}
    before = [plain(e, index) for e in w.ents]
    had = [dict(e.uids) for e in w.ents]
    if not w.ents:
        return {"log": [], "switches": [], "steps": 1, "stats": stats, "anon": 0,
                "tables": None}
    plan = trace["plan"] if expected is not None else []
    s = sched.Scheduler(plan, expected or 1, lambda f: f.startswith(sched_root), tables=tables)

    def body(ops):
        def go():
            out = []
            for op in ops:
                try:
                    out.append(step(w, op, index))
                except Exception as e:  # noqa
                    out.append(["raised", op["op"], core.short_exc(e)[:300],
                                core.gemd_frames(e)[-1:]])
            return out
        return go
    results = s.run([body(t["ops"]) for t in trace["threads"]])
    # ---- judge
    log = []
    anon = sum(1 for h in had if not h)
    live = [dict(e.uids) for e in w.ents]
    for i, (h, u) in enumerate(zip(had, live)):
        if h and h != u:
            raise Violation("renamed", "an entity that had the identifiers %s now has %s" % (h, u))
        if len(u) > max(1, len(h)):
            raise Violation("two-identities", "an entity without identifiers got %s" % u)
    after = [plain(e, index) for e in w.ents]
    for i, (a, b) in enumerate(zip(before, after)):
        if a != b:
            raise Violation("graph-changed", "\n".join(W.diff(a, b)))
    owner = {}
    for i, u in enumerate(live):
        for sc, x in u.items():
            owner[(sc.lower(), x)] = i
    scopes = set()
    for t, res in enumerate(results):
        for x in res:
            stats.hit("op:" + x[0])
            if x[0] == "raised":
                raise Violation("raised", "thread %d: %s raised %s at %s" % (t, x[1], x[2], x[3]))
            kind, scope, root, got = x
            scopes.add(scope)
            reach = [index[id(e)] for e in W.reach(root)]
            if kind == "dump":
                stats.hit("probe:document")
                names = names_in(json.loads(got), {"links": [], "entities": []})
                check_names(names, live, owner, set(reach), t, whole=True)
                back = W.graph_snap(gj.loads(got))
                want = W.expected_after_load(W.graph_snap(root))
                d = W.diff(want, back)
                if d:
                    raise Violation("document", "thread %d wrote a document that loads to a different "
                                    "graph:\n  %s" % (t, "\n  ".join(d)))
                log.append(["dump", core.digest(got)])
            elif kind == "copy":
                stats.hit("probe:copy")
                d = W.diff(W.expected_after_load(W.graph_snap(root)), got)
                if d:
                    raise Violation("copy", "thread %d made a copy that differs:\n  %s"
                                    % (t, "\n  ".join(d)))
                log.append(["copy", core.digest(got)])
            elif kind in ("thin", "linkcopy"):
                stats.hit("probe:thin")
                names = names_in(json.loads(got) if kind == "thin" else got,
                                 {"links": [], "entities": []})
                check_names(names, live, owner, set(reach), t, whole=False)
                log.append([kind, core.digest(got)])
            elif kind == "flatten":
                stats.hit("probe:flatten")
                want = sorted(W.ukey(w.ents[i]) for i in reach)
                if sorted(got) != want:
                    raise Violation("flatten", "thread %d flattened to %s, the graph is %s"
                                    % (t, sorted(got), want))
                log.append([kind, got])
            elif kind == "link":
                stats.hit("probe:link made")
                i = owner.get((got[0].lower(), got[1]))
                if i != index[id(root)]:
                    raise Violation("link", "thread %d made the link %s to an entity that has the "
                                    "identifiers %s" % (t, list(got), live[index[id(root)]]))
                log.append([kind, list(got)])
            elif kind == "uuids":
                want = [live[i] for i in reach]
                if got != want:
                    raise Violation("renamed", "identifiers %s seen by thread %d are %s at the end"
                                    % (got, t, want))
                log.append([kind, got])
            else:
                log.append([kind, got])
    if anon and s.switches:
        stats.hit("probe:named while others watch")
    if not anon:
        stats.hit("probe:all named at the start")
    if len({x.lower() for x in scopes}) > 1:
        stats.hit("probe:two scopes")
    return {"log": log, "switches": s.switches, "steps": s.step, "stats": stats, "anon": anon,
            "tables": [s.table[i] for i in range(len(results))] if expected is None else None}


def check_names(names, live, owner, reach, t, whole):
    seen = set()
    for u in names["entities"]:
        ids = {owner.get((sc.lower(), x)) for sc, x in u.items()}
        if not u:
            raise Violation("document", "thread %d wrote an entity without identifiers" % t)
        if len(ids) != 1 or None in ids:
            raise Violation("document", "thread %d wrote an entity with the identifiers %s, which no "
                            "live entity has" % (t, u))
        i = ids.pop()
        if u != live[i]:
            raise Violation("document", "thread %d wrote %s for an entity with %s" % (t, u, live[i]))
        if whole and i in seen:
            raise Violation("document", "thread %d wrote an entity twice" % t)
        seen.add(i)
    if whole and seen != reach:
        raise Violation("document", "thread %d wrote %d of %d entities" % (t, len(seen), len(reach)))
    for sc, x in names["links"]:
        if owner.get((sc.lower(), x)) is None:
            raise Violation("document", "thread %d wrote the link (%s, %s), which no live entity "
                            "answers to" % (t, sc, x))


def execute(trace):
    try:
        first = fork_call(together, trace, None, None)
    except Violation as v:
        v.detail = "without any switch: " + v.detail
        raise
    res = fork_call(together, trace, first["steps"], first["tables"])
    stats = res["stats"]
    stats.hit("steps", res["steps"])
    n = len([x for x in res["switches"] if x[2] != "lock"])
    if n:
        stats.hit("fault:preemption", n)
    for x in res["switches"]:
        if x[2] == "lock":
            stats.hit("probe:waited for a lock")
    log = [res["switches"], res["log"]]
    return {"digest": core.digest(log), "stats": stats,
            "states": {core.digest(res["switches"])} if res["switches"] else set(),
            "nontrivial": len(res["switches"]) >= 2 and res["anon"] > 0, "log": res["log"]}
