"""C03: serialising leaves the live graph alone and names each entity once."""
from sim import core, seams, world as W, hist, inject
from sim.core import Violation, fork_call
from sim.props.c01 import encoder, pick_root
from sim.props.c02 import bad_root

import gemd.json as gj
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.util import complete_material_history
from gemd.util import flatten, substitute_links, substitute_objects, make_index, set_uuids, \
    recursive_foreach, recursive_flatmap

ID = "C03"
RUNS = {"quick": 12000, "thorough": 150000}
RULE = "digest of the event log (operations, faults, outcomes, document bytes); a run is " \
       "non-trivial if it compared the live graph over at least 3 serialisations and re-dumped one"
STATE_MEASURE = "distinct (operation, kind of root, fault and line where it fired, outcome) tuples"
REAL = ["all of gemd (entities, util, json)", "pint", "json"]
STUB = ["entropy", "clock", "interrupts and failing allocations (raised at a chosen line)"]
ASSUMPTIONS = ["no interrupts inside finally blocks and exception handlers",
               "only one thread (threads are C10 and C11)"]
PROBES = ["uid generated", "no uid needed", "re-dump identical", "interrupted half-way",
          "re-dump after failure", "copy disconnected"]

SER = ["dumps", "dumps", "dumps", "dump", "thin", "thin", "raw", "copy", "copy", "flatten",
       "flatten", "flatten_noscope", "links", "links", "links_bad", "objects", "index", "history",
       "selfdump", "repr", "link", "bad", "set_uuids", "eq", "walk", "thin"]


def gen(r, tier):
    ops = hist.gen_ops(r, r.randrange(3, 14), dict(hist.OPS, loose=5))
    for _ in range(r.randrange(4, 12)):
        if r.random() < 0.25:
            ops.append(hist.gen_op(r))
        else:
            ops.append({"op": "ser", "what": r.choice(SER), "r": r.getrandbits(40),
                        "fault": r.choice(["interrupt", "memory"]) if r.random() < 0.35 else None})
    return {"ops": ops, "derive": r.getrandbits(40) if r.random() < 0.2 else 0}


def shrinkable(trace):
    return [["ops"]]


class Sink:
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)


def serialise(what, w, r, enc, note):
    """Perform one read-only operation; returns (root, result, scope it may use for new uids)."""
    scope = getattr(enc, "scope", "auto")
    root = pick_root(w, r)
    if w.loose and r.random() < 0.3:
        parts = r.sample(w.loose, r.randrange(1, len(w.loose) + 1)) + \
            r.sample(w.ents, r.randrange(0, min(3, len(w.ents)) + 1))
        r.shuffle(parts)
        root = r.choice([tuple, list, lambda x: {"a": x}, lambda x: (x, {"b": x[0]}),
                         lambda x: x[0]])(parts)
    note(root)
    if what == "dumps":
        return root, enc.dumps(root), scope
    if what == "dump":
        s = Sink()
        enc.dump(root, s)
        return root, "".join(s.parts), scope
    e = w.pick(r)
    if what == "thin":
        enc = enc if hasattr(enc, "thin_dumps") else gj.GEMDJson()
        return e, enc.thin_dumps(e if r.random() < 0.4 else root), enc.scope
    if what == "raw":
        enc = enc if hasattr(enc, "raw_dumps") else gj.GEMDJson()
        return e, enc.raw_dumps(e), None
    if what == "copy":
        enc = enc if hasattr(enc, "copy") else gj.GEMDJson()
        return root, enc.copy(root), enc.scope
    if what == "flatten":
        return root, flatten(root, scope), scope
    if what == "flatten_noscope":
        return root, flatten(root), None
    if what == "links":
        return root, substitute_links(root, r.choice([None, "auto", "lab", "LAB"])), None
    if what == "links_bad":
        return root, substitute_links(root, "no such scope", allow_fallback=False), None
    if what == "objects":
        idx = make_index(list(w.ents))
        return e, substitute_objects(e, idx), None
    if what == "index":
        return root, make_index(root), None
    if what == "history":
        if len(W.reach(e)) > 25:
            return e, None, None
        return e, complete_material_history(e), "auto"
    if what == "selfdump":
        return e, e.dump(), None
    if what == "repr":
        return e, (repr(e), str(e)), None
    if what == "link":
        s = r.choice([None, "auto", "lab", "zz"])
        return e, LinkByUID.from_entity(e, scope=s), s or "auto"
    if what == "bad":
        b = bad_root(w, r)
        return b, enc.dumps(b), scope
    if what == "set_uuids":
        s = r.choice(["auto", "lab"])
        set_uuids(root, s)
        return root, None, s
    if what == "eq":
        return e, [e == x for x in r.sample(w.ents, min(3, len(w.ents)))], None
    if what == "walk":
        out = []
        recursive_foreach(root, out.append, apply_first=r.random() < 0.5)
        return root, [len(out), len(recursive_flatmap(root, lambda x: [x],
                                                      unidirectional=r.random() < 0.5)),
                      [len(x.all_dependencies()) for x in w.ents[:5]]], None
    raise core.HarnessError(what)


def picture(w, index):
    out = W.population_snap(w.ents, index)

    def ref(e):
        return index.get(id(e), "outside:" + W.kind_of(e))
    for k, a in enumerate(w.loose):
        out["loose%d" % k] = {"kind": type(a).__name__, "uids": None, "all": W.snap(a, ref)}
    return out


def compare(before, after, allowed, what, failed):
    """Nothing but a first identifier under the allowed scope may be new."""
    gained = []
    for i, n in before.items():
        m = after[i]
        if n == m:
            continue
        if n["uids"] is not None and n["uids"]["dict"] == [] and len(m["uids"]["dict"]) == 1 and allowed is not None:
            s, u = m["uids"]["dict"][0]
            if allowed != "?" and s != allowed:
                raise Violation("uid-scope", "%s gave %s an identifier under %r instead of %r"
                                % (what, n["kind"], s, allowed))
            gained.append((s, u))
            m = dict(m, uids=n["uids"])
            if n == m:
                continue
        d = W.diff(n, m, "%s#%s" % (n["kind"], i))
        raise Violation("live-graph-changed", "%s%s changed the live graph:\n  %s"
                        % (what, " (failed)" if failed else "", "\n  ".join(d)))
    return gained


def run(trace):
    env = seams.Env(core.derive(trace["seed"], "env")).install()
    W.derive(trace.get("derive"))
    stats, states, log = core.Stats(), set(), []
    w = W.World()
    memo = []          # (root, bytes) dumps since the last edit
    compared = redumped = 0
    for op in trace["ops"]:
        stats.hit("steps")
        env.clock.now += 0.5
        if op["op"] != "ser":
            memo = []
            log.append(hist.apply(w, op, stats))
            continue
        if not w.ents:
            continue
        r = core.rng("o", op["r"])
        what, fault = op["what"], op.get("fault")
        stats.hit("op:" + what)
        enc = encoder(r)
        index = {id(e): i for i, e in enumerate(w.ents)}
        before = picture(w, index)
        failed = res = None
        where = None
        allowed = None
        root = None
        given = []

        def note(x):
            given.append((x, W.snap(x, ref)))

        def ref(e):
            return index.get(id(e), "outside:" + W.kind_of(e))

        def container(when):
            for x, was in given:
                d = W.diff(was, W.snap(x, ref), "container")
                if d:
                    raise Violation("live-graph-changed", "%s %s changed the container it was given:"
                                    "\n  %s" % (what, when, "\n  ".join(d)))
        try:
            if fault:
                lf = inject.LineFault(inject.position(r), inject.EXC[fault]("injected"))
                try:
                    with lf:
                        root, res, allowed = serialise(what, w, r, enc, note)
                finally:
                    where = lf.fired
                    if where:
                        stats.hit("fault:" + fault)
            else:
                root, res, allowed = serialise(what, w, r, enc, note)
        except (core.SimInterrupt, MemoryError) as e:
            if where is None:
                raise
            failed = "injected"
        except (ValueError, TypeError) as e:
            if what in ("flatten_noscope", "links", "links_bad"):
                if what == "links" and not any(n["uids"] is not None and n["uids"]["dict"] == [] for n in before.values()):
                    raise
            elif what != "bad":
                raise
            failed = type(e).__name__
        after = picture(w, index)
        if failed is not None:
            # which scope applied is a function of the operation alone
            s = getattr(enc, "scope", "auto")
            allowed = {"dumps": s, "dump": s, "bad": s, "thin": s, "copy": s, "flatten": s,
                       "history": "auto"}.get(what)
            if what in ("link", "set_uuids"):
                allowed = "?"
        container("itself")
        gained = compare(before, after, allowed, what, failed)
        compared += 1
        used = set(w.used)
        for s, u in gained:
            stats.hit("probe:uid generated")
            if (s.lower(), u) in used:
                raise Violation("uid-reused", "%s generated an identifier that is taken: %s" % (what, u))
            used.add((s.lower(), u))
        if not gained:
            stats.hit("probe:no uid needed")
        if failed == "injected":
            stats.hit("probe:interrupted half-way")
        hist.note_uids(w)
        states.add("%s|%s|%s|%s" % (what, type(root).__name__, where, failed))
        if failed is None:
            outcome = core.digest(res) if isinstance(res, str) else "ok"
            if what in ("dumps", "dump"):
                for e in W.reach(root):
                    if len(dict(e.uids)) == 0:
                        raise Violation("uid-missing", "%s left a %s without identifier"
                                        % (what, W.kind_of(e)))
                memo.append((root, res))
            if what in ("copy", "objects", "links", "flatten") and res is not None:
                # what comes back shares nothing with the live graph that an edit could reach
                live = set(index)
                mine = [x for x in W.reach(res) if id(x) in live]
                if what in ("copy", "flatten") and mine:
                    raise Violation("copy-shares", "%s returned a live %s" % (
                        what, W.kind_of(mine[0])))
                scramble(res, live)
                again = picture(w, index)
                d = W.diff(after, again)
                container("by editing its result")
                if d:
                    raise Violation("copy-shares", "editing the result of %s changed the live graph:"
                                    "\n  %s" % (what, "\n  ".join(d)))
                stats.hit("probe:copy disconnected")
        else:
            outcome = failed
        log.append([what, fault, where, outcome])
        # a document written before from an unchanged graph comes out the same again
        if memo:
            root, text = r.choice(memo)
            if encoder(r).dumps(root) != text:
                raise Violation("re-dump", "the same unchanged graph gave different documents "
                                           "before and after %s" % what)
            redumped += 1
            stats.hit("probe:re-dump identical")
            if failed:
                stats.hit("probe:re-dump after failure")
            final = picture(w, index)
            d = W.diff(after, final)
            if d:
                raise Violation("live-graph-changed", "re-dumping changed the live graph:\n  %s"
                                % "\n  ".join(d))
    return {"digest": core.digest(log), "stats": stats, "states": states,
            "nontrivial": compared >= 3 and redumped >= 1, "log": log}


def scramble(res, live):
    """Edit everything in a copy: every attribute, value, bounds, list, dictionary and set."""
    seen, parts, boxes = set(live), [], []

    def go(x):
        if id(x) in seen or x is None or isinstance(x, (str, int, float, W.enum.Enum)):
            return
        if isinstance(x, W.BaseEntity):
            seen.add(id(x))
            parts.append(x)
            k = W.kind_of(x)
            for f in W.FIELDS[k]:
                if not (k == "IngredientRun" and f in ("name", "labels")):
                    go(W.read(x, f))
        elif isinstance(x, LinkByUID):
            pass
        elif isinstance(x, W.DictSerializable):
            seen.add(id(x))
            parts.append(x)
            for n in W.PARTS.get(type(x).__name__, ()):
                go(W.read(x, n))
        elif isinstance(x, (list, dict, set)) or hasattr(x, "keys"):
            seen.add(id(x))
            boxes.append(x)
            for y in (list(x.values()) if hasattr(x, "keys") else list(x)):
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(res)
    keep = [seen, parts, boxes]  # nothing is freed meanwhile, so no id is used twice
    for x in parts:
        kind = type(x).__name__
        if isinstance(x, W.BaseEntity):
            if kind != "IngredientRun":
                x.name = "scrambled"
            if kind in ("MaterialRun", "IngredientRun", "MaterialSpec", "IngredientSpec"):
                x.process = None
            if kind == "MeasurementRun":
                x.material = None
            if "notes" in W.FIELDS[kind]:
                x.notes = "scrambled"
            x.tags.append("scrambled")
            x.uids["scrambled"] = "x"
            continue
        for attr, v in (("notes", "scrambled"), ("name", "scrambled"), ("units", "eV"),
                        ("default_units", "eV"), ("nominal", 77), ("mean", 77.5), ("std", 78.5),
                        ("category", "scrambled"), ("formula", "He77"), ("smiles", "N"),
                        ("inchi", "InChI=1S/N"), ("performed_by", "scrambled"),
                        ("filename", "scrambled"), ("url", "scrambled")):
            if attr in W.PARTS.get(kind, ()):
                setattr(x, attr, v)
        if "upper_bound" in W.PARTS.get(kind, ()):
            x.upper_bound = x.upper_bound + 1
    for x in boxes:
        try:
            x.clear()
            x.append("scrambled")
        except (AttributeError, TypeError, ValueError):
            pass
    return keep


def execute(trace):
    return fork_call(run, trace)
