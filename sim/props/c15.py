"""C15: classes that a client registers take part like the library's own, whenever it does so.

A run is a series of processes over one disk.  Each defines classes derived from the library's (or
from each other), in its own order and at its own time, some of which must be refused; in between it
builds, edits, writes and reads documents with serialisers made earlier or later.  A reference model
holds which class stands for which type, and what each class makes of a document.
"""
import json

from sim import core, seams, inject, world as W, hist
from sim.core import Violation, fork_call
from sim.props import c03

import gemd.json as gj
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.bounds_validation import set_validation_level
from gemd.util import flatten, substitute_links, make_index, substitute_objects
from gemd.entity.util import complete_material_history

ID = "C15"
RUNS = {"quick": 6000, "thorough": 90000}
RULE = "digest of the event log (operations, outcomes, documents); a run is non-trivial if a document " \
       "with objects of the client's classes was loaded"
STATE_MEASURE = "distinct (types that client classes stand for, operation, outcome) tuples"
REAL = ["all of gemd", "pint", "json", "Python's class machinery"]
STUB = ["storage (an in-memory disk of documents)", "entropy", "clock", "process restart (fork of a "
        "pristine image)", "the client's own constructors (fail on request)"]
ASSUMPTIONS = ["derived classes keep the constructor arguments of what they derive from",
               "entities keep the type names of the library; other classes may have new ones",
               "what a class keeps is named like an argument of its constructor"]
PROBES = ["refused", "class replaces another", "new type", "unknown type", "field dropped",
          "older serialiser", "older document", "constructor fails", "unregistered class", "restart",
          "in place", "interrupted"]

PARTS = [n for n in W._DERIVABLE if n not in W.KINDS]
NARROW = ("LinkByUID", "CategoricalBounds", "CompositionBounds", "MolecularStructureBounds")
LIB_TYPES = sorted(DictSerializable.class_mapping)


class ClientError(Exception):
    """The client's own constructor failed."""


# ------------------------------------------------------------------ traces
def gen(r, tier):
    pool = []
    for i in range(r.choice([1, 2, 3, 4, 6, 9])):
        c = r.random()
        if pool and c < 0.4:
            on = r.randrange(len(pool))
        else:
            on = r.choice(W.KINDS) if c < 0.73 else r.choice(PARTS) if c < 0.97 else "LinkByUID"
        c = r.random()
        root = on
        while not isinstance(root, str):
            root = pool[root]["on"]
        typ = None
        if c < 0.15:
            typ = r.choice(LIB_TYPES)
        elif c < 0.4 and root in PARTS:
            typ = "client_%s_%d" % (root.lower(), r.randrange(3))
        elif c < 0.47:
            typ = ""      # not registered
        pool.append({"on": on, "typ": typ, "extra": r.choice(W.EXTRAS),
                     "style": "bare" if root in NARROW else
                     r.choice(["bare", "field", "property", "skipped", "readonly", "picky", "picky"])})
    procs = []
    for p in range(r.choice([1, 2, 2, 3])):
        ops = []
        order = list(range(len(pool)))
        if r.random() < 0.3:
            r.shuffle(order)
        early = r.choice([0, 0.3, 0.8, 1])
        defs = [i for i in order if r.random() < 0.85]
        for i in [i for i in defs if r.random() < early]:
            ops.append({"op": "define", "c": i, "r": r.getrandbits(40)})
        ops += hist.gen_ops(r, r.randrange(0, 3))
        for _ in range(r.randrange(1, 5)):
            ops.insert(r.randrange(len(ops) + 1), {"op": "make", "r": r.getrandbits(40)})
        if p:
            for _ in range(r.choice([1, 1, 2, 3])):
                ops.insert(r.randrange(len(ops) + 1), {"op": "load", "r": r.getrandbits(40)})
        for _ in range(r.randrange(3, 14)):
            c = r.random()
            if c < 0.20:
                ops.append(hist.gen_op(r))
            else:
                k = r.choice(["use", "dump", "dump", "dump", "load", "load", "copy", "raw", "part",
                              "extra", "extra", "inplace", "mapping", "flatten", "history", "make", "make", "make"])
                ops.append({"op": k, "r": r.getrandbits(40)})
                if k in ("dump", "load", "copy", "raw") and r.random() < 0.12:
                    ops[-1]["fault"] = r.choice(["ctor", "ctor", "interrupt", "memory"])
        for i in defs:
            if not any(o.get("c") == i for o in ops):
                ops.insert(r.randrange(len(ops) + 1),
                           {"op": "define", "c": i, "r": r.getrandbits(40)})
        if r.random() < 0.3:
            ops.insert(r.randrange(len(ops) + 1), {"op": "define", "c": r.randrange(len(pool)),
                                                   "r": r.getrandbits(40)})
        ops.append({"op": "dump", "r": r.getrandbits(40)})
        procs.append({"ops": ops, "r": r.getrandbits(40)})
    return {"pool": pool, "procs": procs}


def shrinkable(trace):
    return [["procs"]] + [["procs", i, "ops"] for i in range(len(trace["procs"]))]


# ------------------------------------------------------------------ one client process
class ClientWorld(W.World):
    """Builds with whichever of its classes the client currently uses for each kind."""

    def settable(self, kind):
        return [f for f in super().settable(kind) if f not in W.EXTRAS]

    def kwargs(self, r, kind):
        kw = super().kwargs(r, kind)
        for x in sorted(extras_of(W.CLASSES[kind])):
            if r.random() < 0.7:
                kw[x] = self.content(r, kind, x)
        return kw


def extras_of(cls):
    return set(cls.__dict__.get("sim_extras", ()))


class Process:
    def __init__(self, trace, proc, state, k):
        self.env = seams.Env(core.derive(trace["seed"], "proc", k, proc["r"])).install()
        self.trace, self.proc = trace, proc
        self.stats, self.states, self.log = core.Stats(), set(), []
        W.SHOW["class"] = True
        set_validation_level(0)   # its warnings quote whole values
        for n in W.KINDS:
            W.FIELDS[n].extend(W.EXTRAS)
        for n in PARTS:
            W.PARTS[n].extend(W.EXTRAS)
        self.mapping = dict(DictSerializable.class_mapping)   # the model: type -> class
        self.defined = {}
        self.by_name = {n: [W.CLASSES.get(n) or getattr(W, n)] for n in W._DERIVABLE + ["LinkByUID"]}
        self.docs = state["docs"]
        self.w = ClientWorld()
        self.w.used = {tuple(x) for x in state["used"]}
        self.w.n_outside = state["n_outside"]
        self.serialisers = [gj, gj.GEMDJson(), gj.GEMDJson(scope="id")]
        self.fail = None
        self.loaded_before = False
        self.nontrivial = False
        self.k = k

    def on_init(self):
        if self.fail is not None:
            self.fail -= 1
            if self.fail < 0:
                self.fail = None
                raise ClientError("the client's constructor failed")

    # -------------------------------------------------- the model
    def project(self, gs):
        """What a graph is once every object was built anew by the class that stands for its type."""
        def part(x):
            if isinstance(x, list):
                if len(x) == 2 and isinstance(x[1], dict) and "class" in x[1]:
                    return [x[0], again(x[1])]
                return [part(y) for y in x]
            if isinstance(x, dict):
                return {k: part(v) for k, v in x.items()}
            return x

        def again(n):
            cls = self.mapping[n["class"][0]]
            out = {f: part(v) for f, v in n.items() if f != "class"}
            for f in W.EXTRAS:
                if f in out and f not in extras_of(cls):
                    out[f] = None
            out["class"] = [n["class"][0], cls.__dict__.get("sim_id", "lib")]
            return out
        root, nodes = part(gs["root"]), {k: again(n) for k, n in gs["nodes"].items()}
        # what only a dropped field led to is not part of the graph any more
        seen, todo = set(), [root]
        while todo:
            x = todo.pop()
            if isinstance(x, list) and len(x) == 2 and x[0] == "ref" and isinstance(x[1], str):
                if x[1] in nodes and x[1] not in seen:
                    seen.add(x[1])
                    todo.append(nodes[x[1]])
            elif isinstance(x, list):
                todo.extend(x)
            elif isinstance(x, dict):
                todo.extend(x.values())
        return {"root": root, "nodes": {k: n for k, n in nodes.items() if k in seen}}

    def types_in(self, x, out):
        if isinstance(x, dict):
            if "class" in x:
                out.add(x["class"][0])
            for v in x.values():
                self.types_in(v, out)
        elif isinstance(x, list):
            for v in x:
                self.types_in(v, out)
        return out

    def check_mapping(self, what):
        got = DictSerializable.class_mapping
        if got != self.mapping:
            bad = sorted(t for t in set(got) | set(self.mapping) if got.get(t) is not self.mapping.get(t))
            raise Violation("mapping", "after %s: type %s stands for %r, expected %r"
                            % (what, bad[0], describe(got.get(bad[0])),
                               describe(self.mapping.get(bad[0]))))

    # -------------------------------------------------- operations
    def define(self, op):
        c = self.trace["pool"][op["c"]]
        r = core.rng("define", op["r"])
        if isinstance(c["on"], str):
            base = self.by_name[c["on"]][0]
        elif c["on"] in self.defined:
            base = self.defined[c["on"]]
        else:
            return ["define", "skip"]
        registered = c["typ"] != ""
        typ = c["typ"] or base.typ
        holder = self.mapping.get(typ)
        ok = not registered or holder is None or issubclass(base, holder)
        before = DictSerializable.class_mapping
        try:
            cls = W.derived_class(base, c["style"], typ=typ, extra=c["extra"],
                                  sim_id="%d.%d" % (op["c"], op["r"] % 1000), registered=registered,
                                  on_init=self.on_init)
        except ValueError:
            if ok:
                raise Violation("refused", "a class derived from %s was refused type %s"
                                % (describe(base), typ))
            self.stats.hit("probe:refused")
            self.stats.hit("fault:refused class")
            if DictSerializable.class_mapping != before:
                raise Violation("mapping", "a refused class changed what the types stand for")
            return ["define", op["c"], "refused"]
        if not ok:
            raise Violation("accepted", "a class derived from %s took type %s, which stands for %s"
                            % (describe(base), typ, describe(holder)))
        extras = extras_of(base) | ({c["extra"]} if c["style"] != "bare" else set())
        cls.sim_extras = extras
        if registered:
            if self.loaded_before:
                self.stats.hit("probe:class defined late")
            if holder is not None:
                self.stats.hit("probe:class replaces another")
            if typ not in LIB_TYPES:
                self.stats.hit("probe:new type")
            self.mapping[typ] = cls
        self.defined[op["c"]] = cls
        name = base.__name__
        self.by_name[name].append(cls)
        if r.random() < 0.8:
            self.put(name, cls)
        return ["define", op["c"], "ok", typ, registered]

    def put(self, name, cls):
        if name == "LinkByUID":
            return   # the library makes the links
        setattr(W, name, cls)
        if name in W.CLASSES:
            W.CLASSES[name] = cls
        if name in W.ATTR_CLS:
            W.ATTR_CLS[name] = cls

    def use(self, r):
        names = sorted(n for n in self.by_name if len(self.by_name[n]) > 1)
        for n in names:
            cls = r.choice(self.by_name[n])
            self.put(n, cls)
        return ["use", len(names)]

    def serialiser(self, r):
        c = r.random()
        if c < 0.3:
            return gj
        if c < 0.5:
            e = gj.GEMDJson(scope=r.choice(["auto", "id"]))
            self.serialisers.append(e)
            return e
        self.stats.hit("probe:older serialiser")
        return r.choice(self.serialisers)

    def new_object(self, r, before):
        """Extra fields for what was built, as a client sets them."""
        for e in self.w.ents[before:]:
            self.extra(r, e)

    def extra(self, r, e):
        pool = [e] + hist.attrs_of(e)
        for x in pool:
            for f in W.EXTRAS:
                if f in extras_of(type(x)) and W.writable(x, f) and r.random() < 0.5:
                    setattr(x, f, self.w.content(r, W.kind_of(e), f))
                elif type(x).__module__ != "client" and r.random() < 0.05:
                    setattr(x, f, "an attribute of one object")

    def make(self, r):
        """An object of one of the client's classes, where documents will have it."""
        if not self.defined:
            return ["make", "skip"]
        cls = self.defined[r.choice(sorted(self.defined))]
        name = cls.__name__
        if name == "LinkByUID":
            return ["make", "skip"]
        self.put(name, cls)
        before = len(self.w.ents)
        if name in W.KINDS:
            self.w.new(r, name)
            self.new_object(r, before)
            return ["make", name]
        x = None
        for _ in range(80):
            if name in W.ATTR_CLS:
                x = self.w.attribute(r, name)
            elif name == "PropertyAndConditions":
                x = W.PropertyAndConditions(self.w.attribute(r, "Property"),
                                            self.w.attributes(r, "Condition"))
            elif name == "FileLink":
                x = W.FileLink(W.text(r), W.text(r))
            elif name == "PerformedSource":
                x = W.PerformedSource(W.maybe_text(r), W.maybe_text(r))
            else:
                x = (W.bounds if name.endswith("Bounds") else W.value)(r)
            if W.kind_of(x) == name:
                break
        for f in W.EXTRAS:
            if f in extras_of(type(x)) and W.writable(x, f):
                setattr(x, f, r.choice([None, "some", ["a", 1], {"b": 2.5}, W.value(r)]))
        if name.endswith("Bounds"):
            e = W.PropertyTemplate("bounded", bounds=x)
        elif name == "FileLink":
            e = W.ProcessRun("linked", file_links=[x])
        elif name == "PerformedSource":
            e = W.ProcessRun("performed", source=x)
        elif name == "PropertyAndConditions":
            e = W.MaterialSpec("with", properties=[x])
        elif name in W.ATTR_CLS:
            e = W.MeasurementRun("with", properties=[x] if name == "Property" else [],
                                 conditions=[x] if name == "Condition" else [],
                                 parameters=[x] if name == "Parameter" else [])
        else:
            e = W.ProcessRun("with", parameters=[W.Parameter("p", value=x)])
        self.w.add(e)
        if r.random() < 0.3:
            self.w.loose.append(x)
        return ["make", name]

    def faulted(self, op, r, call):
        """Run call with the fault; returns (result, error)."""
        kind = op.get("fault")
        live = W.population_snap(self.w.ents)
        lf = None
        self.env.log.take()
        try:
            if kind == "ctor":
                self.fail = r.choice([0, 0, 1, 2, 5, 20])
                res = call()
            elif kind:
                lf = inject.LineFault(inject.position(r), inject.EXC[kind]("injected"))
                with lf:
                    res = call()
            else:
                res = call()
            err = None
        except (ClientError, core.SimInterrupt, MemoryError) as e:
            if not kind:
                raise
            res, err = None, e
            self.stats.hit("probe:constructor fails" if kind == "ctor" else "probe:interrupted")
            self.stats.hit("fault:" + kind)
        except Exception as e:  # noqa
            res, err = None, e
        finally:
            self.fail = None
        if lf is not None and lf.fired is not None and err is None:
            raise Violation("swallowed", "an injected %s was swallowed" % kind)
        self.said = self.warnings()
        c03.compare(live, W.population_snap(self.w.ents), "?", op["op"], err is not None)
        self.w.used.update((s.lower(), i) for e in self.w.ents for s, i in dict(e.uids).items())
        return res, err

    def warnings(self):
        """What the log said since the last look; only the client's own fields can get lost."""
        said = [m for level, m in self.env.log.take() if level == "WARNING"]
        odd = [m for m in said if not any(f in m for f in W.EXTRAS)]
        if odd:
            raise Violation("warning", "nothing but fields of the client's classes can be left out, "
                            "the log says %s" % odd[:3])
        return said

    def root(self, r):
        if self.w.ents and r.random() < 0.6:
            return list(self.w.ents) + list(self.w.loose)
        return self.w.container(r)

    def check_graph(self, want, got, what):
        d = W.diff(want, got)
        if d:
            raise Violation("wrong-graph", "%s: expected != actual:\n  %s" % (what, "\n  ".join(d)))

    def dump(self, op, r):
        enc = self.serialiser(r)
        root = self.root(r)
        res, err = self.faulted(op, r, lambda: enc.dumps(root))
        if err is not None:
            if not op.get("fault"):
                raise err
            if r.random() < 0.5:
                return ["dump", type(err).__name__]
            res = enc.dumps(root)
        want = self.project(W.expected_after_load(W.graph_snap(root)))
        name = r.choice("abcd")
        self.docs[name] = {"text": res, "want": want, "k": self.k,
                           "keys": {t: sorted(extras_of(self.mapping[t]))
                                    for t in self.types_in([want["root"], want["nodes"]], set())}}
        return ["dump", name, core.digest(res), len(want["nodes"])]

    def load(self, op, r):
        if not self.docs:
            return ["load", "skip"]
        enc = self.serialiser(r)
        name = r.choice(sorted(self.docs))
        doc = self.docs[name]
        missing = sorted(t for t in doc["keys"] if t not in self.mapping)
        res, err = self.faulted(op, r, lambda: enc.loads(doc["text"]))
        said = self.said
        if missing:
            self.stats.hit("probe:unknown type")
            self.stats.hit("fault:unknown type")
            if err is None or not (isinstance(err, TypeError) or op.get("fault")):
                raise Violation("unknown-type", "a document with the unregistered type %s gave %s"
                                % (missing[0], core.short_exc(err) if err else "a result"))
            return ["load", name, "unknown type"]
        if err is not None:
            if not op.get("fault"):
                raise err
            self.env.log.take()
            res = enc.loads(doc["text"])
            said = self.warnings()
        self.check_graph(self.project(doc["want"]), W.graph_snap(res), "document %s" % name)
        lost = {f for t, fs in doc["keys"].items() for f in fs
                if f not in extras_of(self.mapping[t])}
        told = {f for f in W.EXTRAS if any(f in m for m in said)}
        if lost:
            self.stats.hit("probe:field dropped")
        if lost != told:
            raise Violation("warning", "fields %s were left out of what document %s says, the log says "
                            "%s" % (sorted(lost), name, said[:3]))
        if doc["k"] != self.k:
            self.stats.hit("probe:older document")
        self.loaded_before = True
        ids = {x for x in _classes(self.project(doc["want"])) if x != "lib"}
        if ids:
            self.nontrivial = True
        if r.random() < 0.5:
            # the client goes on with what it loaded
            w, self.w = self.w, ClientWorld()
            self.w.used, self.w.n_outside = w.used, w.n_outside
            self.w.add_all(res)
        return ["load", name, len(doc["want"]["nodes"]), bool(said)]

    def copy(self, op, r):
        enc = self.serialiser(r)
        root = self.root(r)
        res, err = self.faulted(op, r, lambda: copier(enc).copy(root))
        if err is not None:
            if not op.get("fault"):
                raise err
            res = copier(enc).copy(root)
        want = self.project(W.expected_after_load(W.graph_snap(root)))
        self.check_graph(want, W.graph_snap(res), "a copy")
        return ["copy", len(want["nodes"])]

    def raw(self, op, r):
        """One record as a client stores it, read back on its own."""
        if not self.w.ents:
            return ["raw", "skip"]
        enc = gj.GEMDJson() if r.random() < 0.5 else r.choice(self.serialisers[1:])
        e = self.w.pick(r)
        text, err = self.faulted(op, r, lambda: enc.thin_dumps(e))
        if err is not None:
            if not op.get("fault"):
                raise err
            text = enc.thin_dumps(e)
        got = enc.raw_loads(text)
        want = self.project({"root": ["ref", "x"], "nodes": {"x": W.entity_snap(e, lambda x: 0)}})["nodes"]["x"]
        have = W.entity_snap(got, lambda x: 0)
        for f in ("class", "kind", "tags") + W.EXTRAS:
            a, b = want.get(f), have.get(f)
            if isinstance(a, list) and a[:1] == ["ref"] and isinstance(b, list) and b[:1] == ["link"]:
                continue
            if a != b:
                raise Violation("wrong-graph", "a record read back has %s %s instead of %s"
                                % (f, core.canon(b), core.canon(a)))
        return ["raw", W.kind_of(e)]

    def part(self, op, r):
        """Values, bounds, attributes and sources on their own."""
        x = r.choice([W.value, W.bounds, lambda r: W.FileLink("a", "b"),
                      lambda r: W.PerformedSource("me", "now"),
                      lambda r: self.w.attribute(r, "Property", None)])(r)
        for f in W.EXTRAS:
            if f in extras_of(type(x)) and W.writable(x, f):
                setattr(x, f, r.choice([None, "some", ["a"], {"b": 2.5}]))
        enc = r.choice(self.serialisers)
        c = r.randrange(3)
        if any(W.kind_of(e) for e in W.entities_in(x)):
            c = 0
        got = copier(enc).copy(x) if c == 0 else DictSerializable.build(x.as_dict()) if c == 1 else \
            DictSerializable.build(x.dump())
        want = self.project(W.expected_after_load(W.graph_snap([x])))
        self.check_graph(want["root"][0], W.graph_snap([got])["root"][0],
                         "a %s on its own" % type(x).__name__)
        return ["part", type(x).__name__, c]

    def inplace(self, op, r):
        """Pointers become links and links become pointers again, in the live objects."""
        if not self.w.ents:
            return ["inplace", "skip"]
        self.stats.hit("probe:in place")
        if r.random() < 0.5:
            mine = gj.GEMDJson().copy(list(self.w.ents))
        else:   # the live objects, of classes old and new
            mine = W.reach(list(self.w.ents))
            r.shuffle(mine)
            gj.GEMDJson().dumps(mine)   # gives them identifiers
        want = W.graph_snap(mine)
        for e in mine:
            substitute_links(e, r.choice([None, "auto"]), inplace=True)
        left = [x for e in mine for x in W.reach(e) if x is not e]
        if left:
            raise Violation("in-place", "substituting links left a pointer to a %s" % describe(type(left[0])))
        idx = make_index(mine)
        if r.random() < 0.5:
            substitute_objects(mine, idx, inplace=True)
        else:
            for e in r.sample(mine, len(mine)):
                substitute_objects(e, idx, inplace=True)
        self.check_graph(W.expected_after_load(want), W.graph_snap(mine), "links put back in place")
        return ["inplace", len(mine)]

    def step(self, op):
        r = core.rng("o", op["r"])
        k = op["op"]
        self.stats.hit("op:" + k)
        self.stats.hit("steps")
        if k == "define":
            return self.define(op)
        if k == "make":
            return self.make(r)
        if k == "use":
            return self.use(r)
        if k in ("dump", "load", "copy", "raw", "part", "inplace"):
            return getattr(self, k)(op, r)
        if k == "extra":
            if self.w.ents:
                self.extra(r, self.w.pick(r))
            return [k]
        if k == "mapping":
            m = DictSerializable.class_mapping
            if r.random() < 0.5:
                m.clear()
            else:
                m[r.choice(sorted(m))] = dict
            return [k]
        if k == "flatten":
            flat = flatten(self.root(r), "auto")
            for x in flat:
                want = self.mapping[x.typ]
                if type(x) is not want:
                    raise Violation("wrong-graph", "flatten gave a %s for type %s, which stands for %s"
                                    % (describe(type(x)), x.typ, describe(want)))
            return [k, len(flat)]
        if k == "history":
            e = self.w.pick(r)
            if e is None or len(W.reach(e)) > 15:
                return [k, "skip"]
            return [k, sorted(x["type"] for x in complete_material_history(e))]
        before = len(self.w.ents)
        out = hist.apply(self.w, op)
        self.new_object(r, before)
        return out

    def run(self):
        if self.k:
            self.stats.hit("probe:restart")
        for op in self.proc["ops"]:
            out = self.step(op)
            self.check_mapping(op["op"])
            self.log.append(out)
            stand = sorted(t for t, c in self.mapping.items() if "sim_id" in c.__dict__)
            self.states.add(core.digest([stand, [x for x in out if isinstance(x, str)]]))
        for n in ("unregistered class",):
            if any(self.trace["pool"][i]["typ"] == "" for i in self.defined):
                self.stats.hit("probe:" + n)
        return {"docs": self.docs, "used": sorted(self.w.used), "n_outside": self.w.n_outside,
                "stats": self.stats, "states": self.states, "log": self.log,
                "nontrivial": self.nontrivial}


def _classes(gs):
    out = set()

    def go(x):
        if isinstance(x, dict):
            if "class" in x:
                out.add(x["class"][1])
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    go([gs["root"], gs["nodes"]])
    return out


def describe(cls):
    if cls is None:
        return "nothing"
    return "%s %s" % (cls.__name__, cls.__dict__.get("sim_id", "of the library"))


def process(trace, k, state):
    return Process(trace, trace["procs"][k], state, k).run()


def execute(trace):
    stats, states, log = core.Stats(), set(), []
    state = {"docs": {}, "used": [], "n_outside": 0}
    nontrivial = False
    for k in range(len(trace["procs"])):
        state = fork_call(process, trace, k, state)
        stats.merge(state.pop("stats"))
        states |= state.pop("states")
        nontrivial = state.pop("nontrivial") or nontrivial
        log.append(state.pop("log"))
    return {"digest": core.digest(log), "stats": stats, "states": states, "nontrivial": nontrivial,
            "log": [x for p in log for x in p]}


def copier(enc):
    return gj.GEMDJson() if enc is gj else enc
