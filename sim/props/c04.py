"""C04: entities exchanged as linked records converge to the sender's graph."""
from sim import core, seams, world as W, hist
from sim.core import Violation, fork_call

import gemd.json as gj
from gemd.util import flatten, substitute_links, substitute_objects, make_index, set_uuids

ID = "C04"
RUNS = {"quick": 9000, "thorough": 150000}
RULE = "digest of the event log (build, every network event, every substitution and the resulting " \
       "receiver state); a run is non-trivial if at least 4 records were exchanged with a " \
       "substitution before the last one arrived"
STATE_MEASURE = "distinct partial receiver states (kinds arrived, number of dangling links, mode)"
REAL = ["all of gemd (entities, util, json)", "pint", "json"]
STUB = ["network between sender and receivers (loss, duplication, reordering, delay)",
        "receiver restart (keeps a checkpoint document or the raw records)", "entropy", "clock"]
ASSUMPTIONS = [
    "identifiers are unique across the exchanged entities",
    "a process is the process of at most one material",
    "the receiver drops duplicates by identifier",
    "substituting into a copy resolves the same references but duplicates shared entities"]
PROBES = ["dangling link resolved later", "duplicate delivered", "record lost", "receiver restart",
          "second hop", "substitution with missing records", "copy-mode substitution"]

BUILD = dict(hist.OPS, unlink=1, relink=0)
NET = {"deliver": 14, "dup": 3, "drop": 3, "subst": 6, "subst_one": 3, "subst_copy": 2, "restart": 1,
       "resend": 2}


def gen(r, tier):
    ops = hist.gen_ops(r, r.randrange(3, 18), BUILD)
    hops = []
    for h in range(r.choice([1, 1, 2, 3])):
        n = r.randrange(3, 50)
        hops.append({"how": r.choice(["thin", "flatten", "links", "inplace", "asis"]),
                     "scope": r.choice([None, "auto", "lab", "id"]),
                     "r": r.getrandbits(40),
                     "net": [{"op": k, "r": r.getrandbits(30)} for k in
                             r.choices(list(NET), list(NET.values()), k=n)]})
    return {"ops": ops, "hops": hops, 
            "derive": r.getrandbits(40) if r.random() < 0.2 else 0}


def shrinkable(trace):
    return [["ops"], ["hops"]] + [["hops", i, "net"] for i in range(len(trace["hops"]))]


def records_of(ents, hop, r):
    """The sender's side: one text per entity, pointers replaced by links."""
    how, scope = hop["how"], hop["scope"]
    enc = gj.GEMDJson(scope=scope or "auto")
    for e in ents:
        set_uuids(e, enc.scope)
    if how == "thin":
        return [enc.thin_dumps(e) for e in ents]
    if how == "flatten":
        return [enc.raw_dumps(x) for x in flatten(list(ents), enc.scope)]
    if how == "links":
        return [enc.raw_dumps(substitute_links(e, scope)) for e in ents]
    if how == "inplace":
        mine = gj.GEMDJson().copy(list(ents))
        for e in mine:
            substitute_links(e, scope, inplace=True)
        left = [x for e in mine for x in W.reach(e) if x is not e]
        if left:
            raise Violation("not-linked", "substituting links in place left a pointer to a %s"
                            % W.kind_of(left[0]))
        return [enc.raw_dumps(e) for e in mine]
    if how == "asis":
        return [enc.thin_dumps(e) for e in ents]
    raise core.HarnessError(how)


def by_key(ents):
    out = {}
    for e in ents:
        k = W.ukey(e)
        if k in out:
            raise core.HarnessError("duplicate key " + k)
        out[k] = W.entity_snap(e, W.ukey)
    return out


class Receiver:
    def __init__(self):
        self.store = []
        self.seen = {}       # ukey -> record text
        self.log = []        # durable: raw records as they arrived
        self.checkpoint = None

    def arrive(self, text, enc):
        e = enc.raw_loads(text)
        if not isinstance(e, W.BaseEntity):
            raise Violation("bad-record", "a record did not load as an entity: %r" % type(e))
        k = W.ukey(e)
        if k in self.seen:
            return k, False
        self.store.append(e)
        self.seen[k] = text
        self.log.append(text)
        return k, True


def expected(recs, arrived):
    """Links to what has arrived are pointers, all others are the links of the record."""
    index = {}
    for k in arrived:
        for s, i in recs[k]["uids"]["dict"]:
            index[(s.lower(), i)] = k
    nodes = {}
    for k in arrived:
        nodes[k] = {f: (v if f == "uids" else W._map_links(v, index))
                    for f, v in recs[k].items() if not f.startswith("back:")}
    W.derive_back(nodes)
    return nodes


def forward(n):
    return {f: v for f, v in n.items() if not f.startswith("back:")}


def run(trace):
    env = seams.Env(core.derive(trace["seed"], "env")).install()
    W.derive(trace.get("derive"))
    stats, states, log = core.Stats(), set(), []
    w = W.World()
    for op in trace["ops"]:
        stats.hit("steps")
        log.append(hist.apply(w, op, stats))
    if not w.ents:
        return {"digest": core.digest(log), "stats": stats, "states": states, "nontrivial": False,
                "log": log}
    enc = gj.GEMDJson()
    ents = list(w.ents)
    for e in ents:
        set_uuids(e, "auto")
    goal = expected(by_key(ents), [W.ukey(e) for e in ents])
    live = W.diff
    nontrivial = False
    for h, hop in enumerate(trace["hops"]):
        r = core.rng("hop", hop["r"])
        if h:
            stats.hit("probe:second hop")
        before = by_key(ents)
        texts = records_of(ents, hop, r)
        d = W.diff(before, by_key(ents))
        if d:
            raise Violation("sender-changed", "making records changed the sender's graph:\n  %s"
                            % "\n  ".join(d))
        recs = {}
        for t in texts:
            e = enc.raw_loads(t)
            recs[W.ukey(e)] = W.entity_snap(e, W.ukey)
        if sorted(recs) != sorted(goal):
            raise Violation("records", "records do not match the entities: %s"
                            % (W.diff(sorted(goal), sorted(recs)),))
        rx, early = exchange(texts, recs, hop, env, enc, stats, states, log)
        got = by_key(rx.store)
        d = W.diff(goal, got)
        if d:
            raise Violation("not-converged", "after all records arrived the receiver's graph differs "
                            "from the sender's (hop %d, %s):\n  %s" % (h, hop["how"], "\n  ".join(d)))
        outside = [x for x in W.reach(rx.store) if not any(x is y for y in rx.store)]
        if outside:
            raise Violation("not-converged", "the receiver's graph reaches a %s that is not the one "
                            "that arrived" % W.kind_of(outside[0]))
        log.append(["converged", core.digest(got)])
        nontrivial = nontrivial or (len(texts) >= 4 and early)
        ents = rx.store
    return {"digest": core.digest(log), "stats": stats, "states": states, "nontrivial": nontrivial,
            "log": log}


def check(rx, recs, what):
    got = by_key(rx.store)
    want = expected(recs, list(got))
    d = W.diff(want, got)
    if d:
        raise Violation("partial-state", "after %s with %d of %d records:\n  %s"
                        % (what, len(got), len(recs), "\n  ".join(d)))
    return got


def substitute(rx, recs, r, stats, states, how):
    idx = make_index(rx.store)
    if how == "list":
        substitute_objects(rx.store, idx, inplace=True)
    else:
        order = list(rx.store)
        r.shuffle(order)
        for e in order:
            substitute_objects(e, idx, inplace=True)
    got = check(rx, recs, "substituting objects in place")
    dangling = core.canon(got).count('["link", ')
    states.add(core.digest([sorted(n["kind"] for n in got.values()), dangling, how]))
    if len(got) < len(recs):
        stats.hit("probe:substitution with missing records")
    return got, dangling


def exchange(texts, recs, hop, env, enc, stats, states, log):
    flight = list(range(len(texts)))     # in the network
    lost = []
    rx = Receiver()
    early = False
    last_dangling = None
    for ev in hop["net"]:
        stats.hit("steps")
        env.clock.now += 0.05
        stats.hit("simtime", 0.05)
        r = core.rng("net", ev["r"])
        k = ev["op"]
        if k in ("deliver", "dup", "drop") and flight:
            i = flight[r.randrange(len(flight))]      # any message may be next: reordering, delay
            if flight[0] != i:
                stats.hit("fault:reordered")
            if k == "drop":
                flight.remove(i)
                lost.append(i)
                stats.hit("fault:lost")
                stats.hit("probe:record lost")
            else:
                if k == "deliver":
                    flight.remove(i)
                else:
                    stats.hit("fault:duplicated")
                _, new = rx.arrive(texts[i], enc)
                if not new:
                    stats.hit("probe:duplicate delivered")
                log.append([k, i, new])
        elif k == "resend" and lost:
            flight.append(lost.pop(r.randrange(len(lost))))
        elif k == "subst" and rx.store:
            got, dangling = substitute(rx, recs, r, stats, states, r.choice(["list", "each"]))
            if len(got) < len(recs):
                early = True
            if last_dangling is not None and dangling < last_dangling:
                stats.hit("probe:dangling link resolved later")
            last_dangling = dangling
            log.append(["subst", len(got), dangling])
        elif k == "subst_one" and rx.store:
            # connects one entity (and what it leads to); must not disturb anything that is arrived
            before = by_key(rx.store)
            e = r.choice(rx.store)
            substitute_objects(e, make_index(rx.store), inplace=True)
            after = by_key(rx.store)
            want = expected(recs, list(after))
            n = forward(after[W.ukey(e)])
            d = W.diff(forward(want[W.ukey(e)]), n)
            if d:
                raise Violation("partial-state", "substituting in one entity:\n  %s" % "\n  ".join(d))
            for key, b in before.items():
                # every other entity either reads as before or is more connected, never less
                for f, v in forward(b).items():
                    if after[key][f] != v and after[key][f] != want[key][f]:
                        raise Violation("partial-state", "substituting in one entity changed %s of "
                                        "another: %s" % (f, W.diff(v, after[key][f])))
            check_back(rx, after)
        elif k == "subst_copy" and rx.store:
            before = by_key(rx.store)
            idx = make_index(rx.store)
            e = r.choice(rx.store)
            cp = substitute_objects(e, idx) if r.random() < 0.7 else substitute_objects([e], idx)[0]
            d = W.diff(before, by_key(rx.store))
            if d:
                raise Violation("copy-changed-original", "substituting into a copy changed the "
                                "original:\n  %s" % "\n  ".join(d))
            want = expected(recs, list(before))
            for x in W.reach(cp, back=False):
                key = W.ukey(x)
                d = W.diff(forward(want[key]), forward(W.entity_snap(x, W.ukey)))
                if d:
                    raise Violation("partial-state", "substituting into a copy:\n  %s" % "\n  ".join(d))
            stats.hit("probe:copy-mode substitution")
        elif k == "restart" and rx.store:
            stats.hit("fault:receiver restart")
            stats.hit("probe:receiver restart")
            if r.random() < 0.5:
                doc = gj.dumps(rx.store)
                store = gj.loads(doc)
                new = Receiver()
                new.store, new.seen, new.log = list(store), dict(rx.seen), list(rx.log)
                check(new, recs, "restarting from a checkpoint document")
                rx = new
            else:
                new = Receiver()
                old = list(rx.log)
                r.shuffle(old)
                for t in old:
                    new.arrive(t, enc)
                rx = new
            log.append(["restart", len(rx.store)])
    # the faults stop: whatever is missing is sent again, and one substitution has to be enough
    r = core.rng("rest", hop["r"])
    rest = flight + lost
    r.shuffle(rest)
    for i in rest:
        rx.arrive(texts[i], enc)
    substitute(rx, recs, r, stats, states, r.choice(["list", "each"]))
    return rx, early


def check_back(rx, snaps):
    """Two-way links agree in a partly connected store."""
    for key, n in snaps.items():
        kind = n["kind"]
        if kind in ("IngredientSpec", "IngredientRun"):
            p = n["process"]
            if p and p[0] == "ref" and ["ref", key] not in snaps[p[1]]["back:ingredients"]:
                raise Violation("two-way", "an ingredient is missing from its process")
        if kind == "MeasurementRun":
            m = n["material"]
            if m and m[0] == "ref" and ["ref", key] not in snaps[m[1]]["back:measurements"]:
                raise Violation("two-way", "a measurement is missing from its material")
        if kind in ("MaterialSpec", "MaterialRun"):
            p = n["process"]
            if p and p[0] == "ref" and ["ref", key] != snaps[p[1]]["back:output_material"]:
                raise Violation("two-way", "a material is not the output of its process")


def execute(trace):
    return fork_call(run, trace)
