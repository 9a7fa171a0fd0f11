"""Histories of accepted, rejected and faulted edits against a reference model (C05 and C06).

The model is a picture of the whole population: per entity its writable fields, plus a ledger of
which material was assigned last to each process.  The read-only sides of two-way links are
computed from these, never read from the library.  After every operation the whole population is
compared with the model.

An operation is {"op", "r"}; its choices are a pure function of the seed and of the population.
"""
import copy
from math import isfinite

from sim import core, world as W, hist
from sim.core import Violation

import gemd.json as gj
from gemd.builders import make_node, add_edge, add_measurement, add_attribute
from gemd.entity.bounds_validation import set_validation_level
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.util import make_instance
from gemd.units import parse_units
from gemd.util import set_uuids, substitute_links, substitute_objects, make_index

CAP = 45


class InputFailed(Exception):
    """The caller's own iterator or mapping failed."""


def mixed(r, good, bad):
    """Some good and at least one bad argument in any order."""
    out = r.sample(good, r.randrange(0, len(good) + 1)) + [r.choice(bad)]
    r.shuffle(out)
    return out


def failing(items, exc=InputFailed):
    yield from items
    raise exc("the input failed")


class FailingDict(dict):
    def keys(self):
        return failing(list(dict.keys(self)))

    def items(self):
        return failing(list(dict.items(self)))

    def __iter__(self):
        return failing(list(dict.keys(self)))


TWO_WAY = {"IngredientSpec": "process", "IngredientRun": "process", "MaterialSpec": "process",
           "MaterialRun": "process", "MeasurementRun": "material"}
LINK_FIELDS = {k: [f] for k, f in TWO_WAY.items()}
STR_LISTS = ("tags", "labels", "allowed_names", "allowed_labels")
ATTR_OF = {"properties": "Property", "conditions": "Condition", "parameters": "Parameter"}
READ_ONLY = {"ProcessSpec": ["ingredients", "output_material"],
             "ProcessRun": ["ingredients", "output_material", "template"],
             "MaterialRun": ["measurements", "template"], "MeasurementRun": ["template"],
             "IngredientRun": ["name", "labels"]}


class Plan:
    """One operation: what to call, how the model changes if it is accepted, whether it must be."""

    def __init__(self, label, call, ok=None, strict=False, touched=(), after=None, new=False,
                 gains=False, mirror=False, partial=False):
        self.label, self.call, self.ok, self.strict = label, call, ok, strict
        self.touched = touched      # (entity index, field) re-read from the library when accepted
        self.after = after          # pokes at the caller's own containers afterwards
        self.new = new              # the result may bring new entities
        self.gains = gains          # entities without identifiers may gain one
        self.partial = partial      # a bulk operation, whose single steps may have been accepted
        self.mirror = mirror        # new entities mirror existing ones (deepcopy)


class Engine:
    def __init__(self, stats, link_only=False):
        self.w = W.World()
        self.stats = stats
        self.link_only = link_only
        self.index = {}
        self.model = {}
        self.owner = {}
        self.level = 1
        self.names = 0
        self.rejected = self.accepted = 0

    # ------------------------------------------------------------ snapshots
    def ref(self, e):
        return self.index.get(id(e), "outside:" + W.kind_of(e))

    def snap(self, x):
        return W.snap(x, self.ref)

    def adopt(self, root):
        """Take new entities reachable from root into the population; returns their positions."""
        before = len(self.w.ents)
        self.w.add_all(root)
        new = range(before, len(self.w.ents))
        for i in new:
            self.index[id(self.w.ents[i])] = i
        for i in new:
            self.model[i] = W.entity_snap(self.w.ents[i], self.ref)
        return list(new)

    def claim(self, new, mirror):
        """Owners of processes after new materials appeared."""
        claims = {}
        for i in new:
            n = self.model[i]
            if n["kind"] in ("MaterialSpec", "MaterialRun"):
                p = n["process"]
                if isinstance(p, list) and p[0] == "ref":
                    claims.setdefault(p[1], []).append(i)
        for p, ms in claims.items():
            if len(ms) == 1 and not mirror:
                self.owner[p] = ms[0]
                continue
            got = getattr(self.w.ents[p], "output_material")
            j = self.ref(got) if got is not None else None
            if j in ms:
                self.owner[p] = j
            elif mirror and j is None and p in new:
                self.owner.pop(p, None)
            else:
                self.owner[p] = ms[-1]

    def assign(self, i, field, value):
        n = self.model[i]
        if field == "process" and n["kind"] in ("MaterialSpec", "MaterialRun"):
            old = n["process"]
            if isinstance(old, list) and old[0] == "ref" and self.owner.get(old[1]) == i:
                del self.owner[old[1]]
            if isinstance(value, list) and value[0] == "ref":
                self.owner[value[1]] = i
        n[field] = value

    def derive(self):
        m = self.model
        for n in m.values():
            for f in W.BACK.get(n["kind"], ()):
                n["back:" + f] = None if f == "output_material" else []
        for i, n in m.items():
            k = n["kind"]
            f = TWO_WAY.get(k)
            if f and k[0] == "I" or k == "MeasurementRun":
                p = n[f]
                if isinstance(p, list) and p[0] == "ref" and p[1] in m:
                    b = "back:ingredients" if f == "process" else "back:measurements"
                    m[p[1]].setdefault(b, []).append(["ref", i])
            if k == "IngredientRun":
                s = n["spec"]
                if isinstance(s, list) and s[0] == "ref" and s[1] in m:
                    n["name"] = m[s[1]]["name"]
                    n["labels"] = copy.deepcopy(m[s[1]]["labels"])
        for p, i in self.owner.items():
            m[p]["back:output_material"] = ["ref", i]
        for n in m.values():
            for f in ("back:ingredients", "back:measurements"):
                if f in n:
                    n[f].sort(key=core.canon)

    def check(self, label, outcome, gains):
        got = W.population_snap(self.w.ents, self.index)
        self.derive()
        if gains:
            for i, n in got.items():
                if self.model[i]["uids"] == {"dict": []} and len(n["uids"]["dict"]) == 1:
                    self.model[i]["uids"] = n["uids"]
        if self.link_only:
            for i, n in got.items():
                k = n["kind"]
                keep = set(LINK_FIELDS.get(k, ())) | {"back:" + f for f in W.BACK.get(k, ())} \
                    | {"kind"}
                if k == "IngredientRun":
                    keep |= {"spec"}
                for f in n:
                    if f not in keep:
                        self.model[i][f] = n[f]
        if got != self.model:
            d = W.diff(self.model, got)
            cls = "trace-left" if outcome != "accepted" else "wrong-effect"
            if any(".back:" in x for x in d):
                cls = "two-way-link"
            raise Violation(cls, "after %s (%s): expected != actual: %s" % (
                core.canon(label), outcome, "; ".join(d)))

    # ------------------------------------------------------------ running
    def step(self, op):
        r = core.rng("edit", op["r"])
        set_validation_level(0)
        try:
            plan = getattr(self, "op_" + op["op"])(r, op)
        finally:
            set_validation_level(self.level)
        if plan is None:
            self.stats.hit("op:%s:skip" % op["op"])
            return [op["op"], "skip"]
        self.stats.hit("op:" + op["op"])
        self.stats.hit("steps")
        label = [op["op"]] + plan.label
        try:
            res = plan.call()
            outcome = "accepted"
        except Exception as e:  # noqa
            outcome = "rejected: " + type(e).__name__
            if isinstance(e, (InputFailed, Violation)):
                if isinstance(e, Violation):
                    raise
                self.stats.hit("fault:input-fails")
            if plan.strict and self.level != 2:
                raise Violation("valid-rejected", "%s raised %s" % (core.canon(label),
                                                                    core.short_exc(e)))
        if outcome == "accepted":
            self.accepted += 1
            if plan.new:
                new = self.adopt(res)
                self.claim(new, plan.mirror)
            if plan.ok is not None:
                plan.ok(res)
            for i, f in plan.touched:
                self.assign(i, f, self.snap(W.read(self.w.ents[i], f)))
        else:
            self.rejected += 1
            if plan.partial:
                plan.ok(None)
            self.stats.hit("fault:rejected-edit")
        if plan.after is not None:
            plan.after()
        self.check(label, outcome, plan.gains)
        return label + [outcome]

    # ------------------------------------------------------------ contents
    def norm(self, kind, field, content):
        """What a field must read after being given this content."""
        if field == "uids":
            return self.snap(dict(content or {}))
        if field in hist.LIST_FIELDS:
            out = []
            for x in content or []:
                if kind.endswith("Template") and field in ATTR_OF:
                    t, b = (x[0], x[1]) if isinstance(x, (list, tuple)) else (x, None)
                    out.append([self.snap(t), self.snap(b)])
                else:
                    out.append(self.snap(x))
            return out
        return self.snap(content)

    def form(self, r, kind, field, content):
        """One of the ways a caller can hand over this content; returns (given, poke or None)."""
        if field in hist.LIST_FIELDS:
            c = r.random()
            content = list(content)
            if not content and c < 0.3:
                return None, None
            if len(content) == 1 and c < 0.2 and not isinstance(content[0], (list, tuple)) \
                    and field not in ("allowed_names", "allowed_labels"):
                return content[0], None
            if c < 0.45:
                return (x for x in content), None
            if c < 0.55:
                return iter(content), None
            if c < 0.65:
                return tuple(content), None
            given = list(content)

            def poke():
                given.clear() if r.random() < 0.5 else given.append("poked")
                for x in content:
                    if isinstance(x, list):
                        x[1] = "poked"
            return given, poke
        if field == "uids":
            given = dict(content)

            def poke():
                given["poked"] = "1"
            return given, poke
        if field == "sample_type" and r.random() < 0.5:
            s = content.value
            return r.choice([s, s.upper(), " " + s]), None
        return content, None

    def alias(self, r, i, field):
        """The very container another entity holds, for the same field."""
        if field not in ("tags", "uids"):
            return None
        j = r.randrange(len(self.w.ents))
        if j == i:
            return None
        return getattr(self.w.ents[j], field), copy.deepcopy(self.model[j][field])

    def bad(self, r, kind, field):
        """Content that the field should not accept (if it does, nothing else may change)."""
        w = self.w
        junk = r.choice([5, 2.5, object, "text", b"x", W.NominalInteger(3), W.FileLink("a", "b")])
        if field in STR_LISTS or field in ("file_links",) or field in ATTR_OF:
            for _ in range(4):
                good = list(w.content(r, kind, field))
                if good:
                    break
            c = r.random()
            if field in ATTR_OF and kind.endswith("Template") and c < 0.35:
                t = w.pick(r, W.ATTR_TMPL[ATTR_OF[field]])
                wrong = W.IntegerBounds(0, 1) if t is None or \
                    W.kind_of(t.bounds) != "IntegerBounds" else W.CategoricalBounds({"q"})
                if t is not None:
                    pos = r.randrange(len(good) + 1)
                    good.insert(pos, r.choice([(t, wrong), [t, wrong], (t,), (t, None, None),
                                               [t, "x"], (None, None)]))
                    return good if r.random() < 0.5 else iter(good)
            if c < 0.35:
                pos = r.randrange(len(good) + 1)
                return failing(good[:pos])
            pos = r.randrange(len(good) + 1)
            if field in STR_LISTS and isinstance(junk, str):
                junk = 7
            good.insert(pos, junk)
            return r.choice([good, tuple(good), iter(good)])
        if field == "uids":
            u = w.uids(r)
            c = r.random()
            if c < 0.4:
                return dict(u, zz="1", ZZ="2")
            if c < 0.6:
                return FailingDict(dict(u, zz="1"))
            return r.choice([5, {5: "a"}, {None: "a"}, object()])
        if field in W.REFS.get(kind, {}):
            c = r.random()
            target = W.REFS[kind][field]
            if c < 0.7:
                other = r.choice([k for k in W.KINDS if k != target])
                e = w.pick(r, other)
                if e is not None:
                    return e
            return junk
        if field == "bounds":
            return r.choice([None, 5, W.value(r), object])
        if field in W.QUANT:
            return r.choice([5, W.NominalInteger(1), "x", W.NominalReal(2.5, ""),
                             W.NominalReal(-1.0, "kg"), W.UniformReal(0.5, 1.5, ""),
                             W.NominalReal(0.5, "kg")])
        if field == "sample_type":
            return r.choice([None, "bogus", 5, W.Origin.MEASURED])
        if field == "source":
            return r.choice([5, "x", W.FileLink("a", "b")])
        if field == "name" and kind.endswith("Template"):
            return "text"  # names of templates are not checked
        return junk

    def finding(self, i, field, value):
        """Whether this edit is one of the known findings (see known_findings.txt)."""
        e = self.w.ents[i]
        kind = W.kind_of(e)
        if field != "process" or kind not in ("MaterialSpec", "IngredientSpec"):
            return False
        old = self.model[i]["process"]
        if not (isinstance(old, list) and old[0] == "ref"):
            return False
        if value is not None and W.kind_of(value) not in ("ProcessSpec", "LinkByUID"):
            return True
        return kind == "MaterialSpec" and self.owner.get(old[1]) != i

    # ------------------------------------------------------------ operations: whole fields
    def pick(self, r, kinds=None):
        pool = [i for i, e in enumerate(self.w.ents) if kinds is None or W.kind_of(e) in kinds]
        return r.choice(pool) if pool else None

    def room(self, n=1):
        return len(self.w.ents) + n <= CAP

    def op_new(self, r, op, bad=False):
        if not self.room():
            return None
        kind = op.get("kind") or r.choices(hist._KINDS, hist._KW)[0]
        kw = self.w.kwargs(r, kind)
        if kind in ("MaterialSpec", "MaterialRun") and r.random() < 0.4:
            p = self.w.pick(r, W.REFS[kind]["process"])
            if p is not None:
                kw["process"] = p
        given, pokes, expect = {}, [], {}
        for f, c in kw.items():
            expect[f] = self.norm(kind, f, c)
            given[f], poke = self.form(r, kind, f, c)
            if poke:
                pokes.append(poke)
        which = None
        if bad:
            which = r.choice(self.w.settable(kind))
            given[which] = self.bad(r, kind, which)
            expect.pop(which, None)
        cls = W.CLASSES[kind]
        n = len(self.w.ents)

        def ok(res):
            for f, v in expect.items():
                self.model[n][f] = v

        def after():
            for p in pokes:
                p()
        return Plan([kind, which], lambda: cls(**given), ok, strict=not bad, after=after, new=True)

    def op_new_bad(self, r, op):
        return self.op_new(r, op, bad=True)

    def op_set(self, r, op):
        i = self.pick(r)
        if i is None:
            return None
        e = self.w.ents[i]
        kind = W.kind_of(e)
        f = r.choice(self.w.settable(kind))
        al = self.alias(r, i, f) if r.random() < 0.3 else None
        poke = None
        if al is not None:
            given, expect = al
        else:
            c = self.w.content(r, kind, f, e)
            expect = self.norm(kind, f, c)
            given, poke = self.form(r, kind, f, c)
        if self.finding(i, f, given):
            return None
        return Plan([kind, f, type(given).__name__, al is not None],
                    lambda: setattr(e, f, given), lambda _: self.assign(i, f, expect),
                    strict=True, after=poke)

    def op_set_bad(self, r, op):
        i = self.pick(r)
        if i is None:
            return None
        e = self.w.ents[i]
        kind = W.kind_of(e)
        f = r.choice(self.w.settable(kind))
        if self.link_only and kind in TWO_WAY and r.random() < 0.7:
            f = TWO_WAY[kind]
        given = self.bad(r, kind, f)
        if self.finding(i, f, given):
            return None
        return Plan([kind, f, type(given).__name__], lambda: setattr(e, f, given),
                    touched=[(i, f)])

    def op_read_only(self, r, op):
        i = self.pick(r, READ_ONLY)
        if i is None:
            return None
        e = self.w.ents[i]
        kind = W.kind_of(e)
        f = r.choice(READ_ONLY[kind])
        given = r.choice([None, [], "x", [self.w.pick(r)], self.w.pick(r)])
        if hasattr(getattr(type(e), f, None), "fset") and getattr(type(e), f).fset is not None:
            return None
        return Plan([kind, f], lambda: setattr(e, f, given))

    def op_link(self, r, op):
        """Move one side of a two-way link."""
        i = self.pick(r, TWO_WAY)
        if i is None:
            return None
        e = self.w.ents[i]
        kind = W.kind_of(e)
        f = TWO_WAY[kind]
        target = W.REFS[kind][f]
        c = r.random()
        given = None
        if c < 0.60:
            given = self.w.pick(r, target)
        elif c < 0.70:
            given = getattr(e, f)
        elif c < 0.80:
            t = self.w.pick(r, target)
            given = self.w.link_to(t, r) if t is not None else None
        elif c < 0.85:
            given = self.w.outside_link(r)
        if self.finding(i, f, given):
            return None
        expect = self.snap(given)
        return Plan([kind, f, expect], lambda: setattr(e, f, given),
                    lambda _: self.assign(i, f, expect), strict=True)

    def op_pair(self, r, op):
        """An entity equal in every field to another one (a twin attached to the same place)."""
        if not self.room(2):
            return None
        kind = r.choice(["IngredientRun", "IngredientSpec", "MeasurementRun", "MaterialRun"])
        kw = {}
        f = TWO_WAY[kind]
        kw[f] = self.w.pick(r, W.REFS[kind][f])
        if kind != "IngredientRun":
            kw["name"] = "twin"
        elif r.random() < 0.5:
            kw["spec"] = self.w.pick(r, "IngredientSpec")
        cls = W.CLASSES[kind]
        return Plan([kind], lambda: [cls(**kw), cls(**kw)], strict=True, new=True)

    # ------------------------------------------------------------ operations: lists
    def op_list(self, r, op, bad=False):
        spots = []
        for i, e in enumerate(self.w.ents):
            k = W.kind_of(e)
            for f in W.FIELDS[k]:
                if f in hist.LIST_FIELDS and not (k == "IngredientRun" and f == "labels"):
                    spots.append((i, f, [f], k))
            for f in ATTR_OF:
                if f in W.FIELDS[k] and not k.endswith("Template"):
                    for j, a in enumerate(getattr(e, f)):
                        if W.kind_of(a) == "PropertyAndConditions":
                            spots.append((i, "conditions", [f, j, "conditions"], "attr"))
                        else:
                            spots.append((i, "file_links", [f, j, "file_links"], "attr"))
        if not spots:
            return None
        i, f, path, k = r.choice(spots)
        e = self.w.ents[i]
        kind = {"attr": "ProcessRun"}.get(k, k)  # a kind whose field f holds such elements
        live = self.live(i, path)
        cur = self.get(i, path)
        elems = []
        for _ in range(5):
            elems = list(self.w.content(r, kind, f))
            if elems:
                break
        n = len(live)
        c = r.randrange(16)
        at = r.randrange(-n - 1, n + 2)
        a = r.randrange(n + 1)
        b = r.randrange(a, n + 1)
        step = r.choice([1, 1, 1, 2, -1])
        junk = None
        if bad:
            junk = self.bad(r, kind, f)
            if not hasattr(junk, "__iter__") or isinstance(junk, (str, bytes)):
                junk = [junk]
        exp_elems = self.norm(kind, f, elems)
        wrap = r.choice([list, tuple, iter])
        name, do = self.list_op(c, at, a, b, step, f in STR_LISTS, elems, bad)
        if name is None:
            return None
        if name == "iadd":
            if len(path) != 1:
                return None

            def call():
                x = getattr(e, f)
                x += junk if bad else wrap(elems)
                if f in STR_LISTS:  # other lists are checked again, which is an edit of its own
                    setattr(e, f, x)
        else:
            def call():
                do(live, junk if bad else wrap(elems), None if bad else (elems or [None])[0])
        if bad:
            if name in ("append", "insert", "setitem"):
                single = r.choice([5, None, object(), ["a", "b"], (1, 2, 3)])

                def call():  # noqa: F811
                    do(live, None, single)
            return Plan([W.kind_of(e), path, name], call, touched=[(i, path[0])])
        new = list(cur)
        try:
            if name == "iadd":
                new.extend(exp_elems)
            else:
                do(new, exp_elems, (exp_elems or [None])[0])
            strict = True
        except (IndexError, ValueError):
            strict = False
            new = None

        def ok(_):
            if new is None:
                raise Violation("wrong-effect", "%s was accepted, a plain list rejects it" % name)
            self.put(i, path, new)
        return Plan([W.kind_of(e), path, name], call, ok, strict=strict)

    def op_list_bad(self, r, op):
        return self.op_list(r, op, bad=True)

    @staticmethod
    def list_op(c, at, a, b, step, strings, elems, bad):
        if not elems and c in (0, 3, 4) and not bad:
            return None, None
        if c == 0:
            return "append", lambda l, xs, x: l.append(x)
        if c == 1 or c == 2:
            return "extend", lambda l, xs, x: l.extend(xs)
        if c == 3:
            return "insert", lambda l, xs, x: l.insert(at, x)
        if c == 4:
            return "setitem", lambda l, xs, x: l.__setitem__(at, x)
        if c == 5:
            return "slice", lambda l, xs, x: l.__setitem__(slice(a, b), xs)
        if c == 6:
            return "stepslice", lambda l, xs, x: l.__setitem__(slice(None, None, step), xs)
        if c == 7:
            return "iadd", None
        if bad:
            return "extend", lambda l, xs, x: l.extend(xs)
        if c == 8:
            return "pop", lambda l, xs, x: l.pop(at)
        if c == 9:
            return "del", lambda l, xs, x: l.__delitem__(at)
        if c == 10:
            return "delslice", lambda l, xs, x: l.__delitem__(slice(a, b))
        if c == 11:
            return "reverse", lambda l, xs, x: l.reverse()
        if c == 12:
            return "clear", lambda l, xs, x: l.clear()
        if c == 13 and strings:
            return "sort", lambda l, xs, x: l.sort()
        if c == 14 and strings:
            return "remove", lambda l, xs, x: l.remove(x)
        if c == 15 and strings:
            return "imul", lambda l, xs, x: l.__imul__(2)
        return None, None

    # ------------------------------------------------------------ operations: identifiers
    def op_uids(self, r, op, bad=False):
        i = self.pick(r)
        if i is None:
            return None
        e = self.w.ents[i]
        have = {k: v for k, v in self.model[i]["uids"]["dict"]}
        new = dict(have)
        u = self.w.new_uid(r, have)
        c = r.randrange(9)
        strict = True
        if bad:
            if not have:
                return None
            s = r.choice(sorted(have))
            t = s.swapcase()
            if t == s:
                return None
            extra = {u[0]: u[1]} if u else {}
            call = r.choice([
                lambda: e.add_uid(t, "other"),
                lambda: e.uids.__setitem__(t, "other"),
                lambda: e.uids.update(dict(extra, **{t: "other"})),
                lambda: e.uids.update({"qq": "1", "QQ": "2"}),
                lambda: e.uids.update(FailingDict(extra, qq="1")),
                lambda: e.uids.pop("no such scope"),
                lambda: e.uids.__delitem__("no such scope"),
                lambda: e.uids.__getitem__("no such scope"),
                lambda: e.add_uid(None, "x"),
                lambda: e.add_uid(5, "x"),
                lambda: e.to_link("no such scope"),
            ])
            return Plan([W.kind_of(e)], call, touched=[(i, "uids")])
        if c <= 1 and u:
            new[u[0]] = u[1]
            call = lambda: e.add_uid(*u)  # noqa: E731
        elif c == 2 and u:
            new[u[0]] = u[1]
            call = lambda: e.uids.update({u[0]: u[1]})  # noqa: E731
        elif c == 3 and u:
            new[u[0]] = u[1]
            call = lambda: e.uids.setdefault(*u)  # noqa: E731
        elif c == 4 and have:
            s = r.choice(sorted(have))
            new[s] = "changed"
            call = lambda: e.uids.__setitem__(s, "changed")  # noqa: E731
        elif c == 5 and have:
            s = r.choice(sorted(have))
            del new[s]
            call = lambda: e.uids.pop(s.swapcase())  # noqa: E731
        elif c == 6 and have:
            s = r.choice(sorted(have))
            del new[s]
            call = lambda: e.uids.__delitem__(s.upper())  # noqa: E731
        elif c == 7:
            new = {}
            call = lambda: e.uids.clear()  # noqa: E731
        elif c == 8 and u:
            new[u[0]] = u[1]

            def call():
                e.uids |= {u[0]: u[1]}
        else:
            return None
        expect = self.snap(new)
        return Plan([W.kind_of(e), c], call, lambda _: self.assign(i, "uids", expect),
                    strict=strict)

    def op_uids_bad(self, r, op):
        return self.op_uids(r, op, bad=True)

    # ------------------------------------------------------------ operations: parts
    def live(self, i, path):
        x = self.w.ents[i]
        for p in path:
            x = x[p] if isinstance(p, int) else W.read(x, p)
        return x

    def get(self, i, path):
        x = self.model[i]
        for n, p in enumerate(path):
            x = x[p] if n == 0 or isinstance(p, int) else x[1][p]
        return x

    def put(self, i, path, value):
        if len(path) == 1:
            return self.assign(i, path[0], value)
        x = self.model[i]
        for n, p in enumerate(path[:-1]):
            x = x[p] if n == 0 or isinstance(p, int) else x[1][p]
        if isinstance(path[-1], int):
            x[path[-1]] = value
        else:
            x[1][path[-1]] = value

    def parts(self, i):
        """(path, object) of every attribute, value, bounds, source and file link of an entity."""
        e = self.w.ents[i]
        k = W.kind_of(e)
        out = []

        def go(path, x):
            if isinstance(x, (W.BaseEntity, LinkByUID)) or x is None:
                return
            if isinstance(x, DictSerializable):
                out.append((path, x))
                for n in W.PARTS.get(type(x).__name__, ()):
                    go(path + [n], W.read(x, n))
            elif isinstance(x, (list, tuple)):
                for j, y in enumerate(x):
                    go(path + [j], y)
        for f in W.FIELDS[k]:
            if f != "uids" and not (k == "IngredientRun" and f == "labels"):
                go([f], W.read(e, f))
        return out

    def op_part(self, r, op, bad=False):
        spots = []
        for i in range(len(self.w.ents)):
            spots.extend((i, p, x) for p, x in self.parts(i))
        if not spots:
            return None
        by = {}
        for s in spots:
            by.setdefault(type(s[2]).__name__, []).append(s)
        cls = r.choice(sorted(by))
        i, path, x = r.choice(by[cls])
        got = self.part_edit(r, x, cls, bad)
        if got is None:
            return None
        attr, call, expect, poke = got
        if bad:
            return Plan([cls, path, attr], call, touched=[(i, path[0])], after=poke)
        if attr == "update":  # changes several attributes at once

            def ok(_):
                for a, v in expect.items():
                    self.put(i, path + [a], v)
            return Plan([cls, path, attr], call, ok, strict=True, after=poke)
        return Plan([cls, path, attr], call, lambda _: self.put(i, path + [attr], expect),
                    strict=True, after=poke)

    def op_part_bad(self, r, op):
        return self.op_part(r, op, bad=True)

    def part_edit(self, r, x, cls, bad):
        """(attribute, call, expected snapshot, poke) of one edit inside a part."""
        def put(attr, given, expect=None, poke=None):
            return attr, (lambda: setattr(x, attr, given)), \
                self.snap(given) if expect is None else expect, poke
        if cls in ATTR_OF.values():
            f = r.choice(["value", "notes", "origin", "template", "file_links", "name"])
            if bad:
                f = r.choice(["value", "origin", "template", "file_links"])
                given = {"value": r.choice([5, "x", W.FileLink("a", "b")]),
                         "origin": r.choice([None, "bogus", 5]),
                         "template": r.choice([5, "x", self.w.pick(r, "MaterialTemplate"),
                                               self.w.pick(r, "PropertyTemplate" if cls != "Property"
                                                           else "ConditionTemplate")]),
                         "file_links": self.bad(r, "ProcessRun", "file_links")}[f]
                return put(f, given)
            if f == "value":
                t = x.template
                if isinstance(t, W.BaseEntity):
                    return put(f, r.choice([W.value_in, W.value_out])(t.bounds, r), None)
                return put(f, W.value(r))
            if f == "origin":
                o = r.choice(list(W.Origin))
                return put(f, r.choice([o, o.value, o.value.upper()]), self.snap(o))
            if f == "template":
                return put(f, self.w.ref(r, W.ATTR_TMPL[cls]))
            if f == "file_links":
                c = W.file_links(r)
                exp = self.snap(c)
                given, poke = self.form(r, "ProcessRun", f, c)
                return put(f, given, exp, poke)
            return put(f, W.text(r))
        if cls == "PropertyAndConditions":
            if bad:
                return put("property", r.choice([None, 5, self.w.attribute(r, "Condition")])) \
                    if r.random() < 0.5 else put("conditions", self.bad(r, "ProcessRun", "conditions"))
            if r.random() < 0.5:
                return put("property", self.w.attribute(r, "Property"))
            c = self.w.attributes(r, "Condition")
            exp = self.snap(c)
            given, poke = self.form(r, "ProcessRun", "conditions", c)
            return put("conditions", given, exp, poke)
        if cls in ("NominalReal", "NormalReal", "UniformReal", "RealBounds"):
            u = "default_units" if cls == "RealBounds" else "units"
            if bad:
                if cls != "RealBounds" or r.random() < 0.5:
                    return put(u, r.choice([None, "flurbs", "m//s", 5]))
                a = r.choice(["lower_bound", "upper_bound", "update", "update"])
                if a == "update":
                    wider = [W.RealBounds(-1e30, 0, x.default_units), W.RealBounds(0, 1e30, x.default_units),
                             W.NominalReal(-1e31, x.default_units)]
                    others = mixed(r, wider, [W.IntegerBounds(0, 1), W.NominalInteger(3), 5, None,
                                              W.RealBounds(0, 1, "mol**7")])
                    return "update", lambda: x.update(*others), None, None
                return put(a, r.choice([None, float("nan"), float("inf"), "x",
                                        1e306 * 10 if a == "lower_bound" else -1e307]))
            if r.random() < 0.5:
                given = W.unit(r)
                return put(u, given, self.snap(parse_units(given)))
            if cls == "NominalReal":
                return put("nominal", W.number(r))
            if cls == "NormalReal":
                return put(r.choice(["mean", "std"]), W.number(r))
            if cls == "UniformReal":
                if r.random() < 0.5:
                    return put("lower_bound", min(W.number(r), x.upper_bound))
                return put("upper_bound", max(W.number(r), x.lower_bound))
            lo, hi = x.lower_bound, x.upper_bound
            if r.random() < 0.3:
                los = [lo - abs(W.number(r)) for _ in range(r.randrange(0, 3))]
                his = [hi + abs(W.number(r)) for _ in range(r.randrange(0, 3))]
                if all(map(isfinite, los + his)):
                    others = [W.RealBounds(v, hi, x.default_units) for v in los] \
                        + [W.RealBounds(lo, v, x.default_units) if r.random() < 0.5
                           else W.NominalReal(v, x.default_units) for v in his]
                    r.shuffle(others)
                    return "update", lambda: x.update(*others), \
                        {"lower_bound": self.snap(min(los + [lo])), "upper_bound": self.snap(max(his + [hi]))}, None
            if r.random() < 0.5:
                v = r.choice([lo, hi, min(max(lo / 2 + hi / 2, lo), hi)])
                return put("lower_bound", v, self.snap(float(v)))
            v = r.choice([lo, hi, min(max(lo / 2 + hi / 2, lo), hi)])
            return put("upper_bound", v, self.snap(float(v)))
        if cls == "NominalInteger":
            return put("nominal", r.choice([1.5, "a", None, [1]])) if bad \
                else put("nominal", r.randrange(-9, 9))
        if cls in ("UniformInteger", "IntegerBounds"):
            lo, hi = x.lower_bound, x.upper_bound
            if cls == "IntegerBounds" and r.random() < 0.3:
                others = [r.choice([W.NominalInteger(v), W.IntegerBounds(v, v + r.choice([0, 1, 30]))])
                          for v in (r.randrange(-20, 20) for _ in range(r.randrange(0, 3)))]
                if bad:
                    others = mixed(r, others + [W.IntegerBounds(lo - 7, hi + 7)],
                                   [W.RealBounds(0, 1, ""), W.CategoricalBounds(["a"]), 5, None])
                got = [(o.lower_bound, o.upper_bound) if hasattr(o, "lower_bound")
                       else (o.nominal, o.nominal) for o in ([] if bad else others)]
                return "update", lambda: x.update(*others), \
                    {"lower_bound": self.snap(min([lo] + [g[0] for g in got])),
                     "upper_bound": self.snap(max([hi] + [g[1] for g in got]))}, None
            if bad:
                return r.choice([put("lower_bound", hi + 1), put("upper_bound", lo - 1),
                                 put("lower_bound", 0.5), put("upper_bound", 0.5),
                                 put("lower_bound", "x"), put("upper_bound", None)])
            return put("lower_bound", r.randint(lo, hi)) if r.random() < 0.5 \
                else put("upper_bound", r.randint(lo, hi))
        if cls == "NominalCategorical":
            return put("category", r.choice([5, ["a"]])) if bad else put("category", W.text(r))
        if cls == "DiscreteCategorical":
            if bad:
                return put("probabilities", r.choice([{"a": 0.4}, {5: 1.0}, {"a": 0.5, 5: 0.5}, 5,
                                                      {"a": "x"}]))
            d = {"a": 0.25, W.text(r) + "b": 0.75}
            if r.random() < 0.4:
                d["zero"] = r.choice([0, 0.0])
            if r.random() < 0.3:
                d = dict(reversed(list(d.items())))
            exp = self.snap(dict(d))

            def poke():
                d["poked"] = 1.0
            return put("probabilities", d, exp, poke)
        if cls == "NominalComposition":
            if bad:
                return put("quantities", r.choice([5, [1, 2], "x", [("a",)]]))
            c = r.random()
            d = {k: r.choice([0, 0.0, 1.0, abs(W.number(r))])
                 for k in r.sample(W.ELEMENTS, r.randrange(0, 4))}
            exp = self.snap(dict(d))
            if c < 0.2:
                return put("quantities", [list(kv) for kv in d.items()], exp)
            if c < 0.4:
                exp = self.snap(dict(x.quantities, Xy=2.0))
                return "quantities", lambda: x.quantities.__setitem__("Xy", 2.0), exp, None

            def poke():  # noqa: F811
                d["poked"] = 1.0
            return put("quantities", d, exp, poke)
        if cls == "EmpiricalFormula":
            return put("formula", r.choice(["Xx2", 5, "MgQq"])) if bad \
                else put("formula", r.choice(["Mg2Si", "H2O", "Al2O3"]))
        if cls == "Smiles":
            return put("smiles", 5) if bad else put("smiles", W.text(r))
        if cls == "InChI":
            return put("inchi", 5) if bad else put("inchi", "InChI=1S/CH4/h1H%d" % r.randrange(9))
        if cls in ("CategoricalBounds", "CompositionBounds"):
            f = "categories" if cls[1] == "a" else "components"
            if bad:
                if r.random() < 0.3:
                    others = mixed(r, [type(x)(["new1"]), type(x)(["new2"])],
                                   [W.IntegerBounds(0, 1), W.NominalInteger(1), 5, None])
                    return f, lambda: x.update(*others), None, None
                return put(f, r.choice([[1], {"a", 2}, 5, ["a", None], "ab", failing(["a"])]))
            c = r.random()
            s = set(r.sample(W.CATS, r.randrange(0, 4)))
            if c < 0.2:
                exp = self.snap(set(getattr(x, f)) | {"added"})
                return f, lambda: getattr(x, f).add("added"), exp, None
            if c < 0.35:
                exp = self.snap(set(getattr(x, f)) | s)
                other = type(x)(s)
                return f, lambda: x.update(other), exp, lambda: getattr(other, f).add("poked")
            if c < 0.6:
                return put(f, sorted(s), self.snap(s))
            exp = self.snap(set(s))
            return put(f, s, exp, lambda: s.add("poked"))
        if cls == "PerformedSource":
            f = r.choice(["performed_by", "performed_date"])
            return put(f, 5) if bad else put(f, W.maybe_text(r))
        if cls == "FileLink" and not bad:
            return put(r.choice(["filename", "url"]), W.text(r))
        return None

    def op_ctor(self, r, op):
        """A value, bounds, source or file link built from given content reads back as given."""
        lo, hi = sorted([W.number(r), W.number(r)])
        a = r.randrange(-50, 50)
        b = a + r.choice([0, 1, 30])
        if r.random() < 0.2:
            hi = lo
        u = W.unit(r)
        probs = {W.text(r): r.choice([0, 0.25, 1e-12]) for _ in range(r.randrange(0, 3))}
        probs["rest"] = 1.0 - sum(probs.values())
        comp = {k: r.choice([0, 0.0, 1, W.number(r)]) for k in r.sample(W.ELEMENTS, r.randrange(0, 4))}
        cats = r.sample(W.CATS, r.randrange(0, 5))
        t1, t2 = W.maybe_text(r), W.maybe_text(r)
        cls, kw, expect = r.choice([
            (W.NominalReal, {"nominal": lo, "units": u}, {"nominal": float(lo)}),
            (W.NormalReal, {"mean": lo, "std": abs(hi), "units": u}, {}),
            (W.UniformReal, {"lower_bound": lo, "upper_bound": hi, "units": u}, {}),
            (W.RealBounds, {"lower_bound": lo, "upper_bound": hi, "default_units": u},
             {"lower_bound": float(lo), "upper_bound": float(hi)}),
            (W.NominalInteger, {"nominal": a}, {}),
            (W.NominalInteger, {"nominal": float(a)}, {"nominal": a}),
            (W.UniformInteger, {"lower_bound": a, "upper_bound": b}, {}),
            (W.IntegerBounds, {"lower_bound": a, "upper_bound": b}, {}),
            (W.NominalCategorical, {"category": t1}, {}),
            (W.DiscreteCategorical, {"probabilities": probs}, {}),
            (W.DiscreteCategorical, {"probabilities": t1 or "x"},
             {"probabilities": {t1 or "x": 1.0}}),
            (W.NominalComposition, {"quantities": comp}, {}),
            (W.NominalComposition, {"quantities": list(comp.items())}, {"quantities": comp}),
            (W.NominalComposition, {"quantities": None}, {"quantities": {}}),
            (W.EmpiricalFormula, {"formula": r.choice(["Al2O3", "C6H12O6", "H", ""])}, {}),
            (W.Smiles, {"smiles": W.text(r)}, {}),
            (W.InChI, {"inchi": "InChI=1S/CH4/h1H%d" % a}, {}),
            (W.CategoricalBounds, {"categories": set(cats)}, {}),
            (W.CategoricalBounds, {"categories": tuple(cats)}, {"categories": set(cats)}),
            (W.CompositionBounds, {"components": cats}, {"components": set(cats)}),
            (W.PerformedSource, {"performed_by": t1, "performed_date": t2}, {}),
            (W.FileLink, {"filename": W.text(r), "url": W.text(r)}, {}),
            (LinkByUID, {"scope": W.text(r), "id": W.text(r)}, {})])
        want = {k: self.snap(expect.get(k, v)) for k, v in kw.items()}
        for k in ("units", "default_units"):
            if k in kw:
                want[k] = self.snap(parse_units(kw[k]))
        poke = [v for v in kw.values() if isinstance(v, (dict, list, set))]

        def ok(x):
            for _ in range(2):
                got = {k: self.snap(W.read(x, k)) for k in kw}
                if got != want:
                    raise Violation("wrong-effect", "%s(**%r) reads back %s" % (
                        cls.__name__, kw, core.canon(got)))
                for c in poke:  # what the caller does with his container later has no effect
                    c.clear()
        return Plan([cls.__name__], lambda: cls(**kw), ok, strict=True)

    # ------------------------------------------------------------ operations: builders
    def op_node(self, r, op, bad=False):
        if not self.room(4):
            return None
        kw = {}
        t = self.w.pick(r, "ProcessTemplate")
        if t is not None and r.random() < 0.6:
            kw["process_template"] = t
        t = self.w.pick(r, "MaterialTemplate")
        if t is not None and r.random() < 0.6:
            kw["material_template"] = t
        name = W.text(r)
        if bad:
            if r.random() < 0.4:
                name = 5
                kw["process_name"] = "p"
            else:
                kw[r.choice(["process_template", "material_template"])] = \
                    self.w.pick(r, "MeasurementTemplate") or self.w.pick(r, "MaterialSpec") or 5
        elif r.random() < 0.3:
            kw["process_name"] = W.text(r)

        def ok(m):
            if not bad:
                i = self.ref(m)
                self.model[i]["name"] = name
        return Plan([], lambda: make_node(name, **kw), ok, strict=not bad, new=True)

    def op_node_bad(self, r, op):
        return self.op_node(r, op, bad=True)

    def op_edge(self, r, op, bad=False):
        if not self.room(2):
            return None
        runs = self.w.by_kind["MaterialRun"]
        outs = [m for m in runs if W.kind_of(m.spec) == "MaterialSpec"
                and m.spec.process is not None and m.process is not None]
        ins = [m for m in runs if m.spec is not None]
        if bad and r.random() < 0.3:
            outs, ins = runs, runs
        if not outs or not ins:
            return None
        a, b = r.choice(ins), r.choice(outs)
        kw = {}
        if r.random() < 0.5:
            kw["name"] = W.text(r)
        expect = {"material": self.snap(a), "process": self.snap(b.process)}
        if r.random() < 0.5:
            f = r.choice(["mass_fraction", "number_fraction", "volume_fraction"])
            if r.random() < 0.5:
                kw[f] = 0.5
                expect[f] = self.snap(W.NominalReal(0.5, ""))
            else:
                kw[f] = W.quantity(r)
                expect[f] = self.snap(kw[f])
        if r.random() < 0.4:
            kw["absolute_quantity"] = W.abs_quantity(r)
            expect["absolute_quantity"] = self.snap(kw["absolute_quantity"])
        if bad:
            kw.update(r.choice([{"name": 5}, {"mass_fraction": "x"}, {"number_fraction": 5},
                                {"volume_fraction": W.NominalInteger(1)},
                                {"absolute_quantity": 2.5}, {"absolute_units": "kg"},
                                {"absolute_quantity": 2.5, "absolute_units": "flurbs"},
                                {"mass_fraction": 1.5},
                                {"absolute_quantity": W.NominalReal(-1.0, "kg")}, {}]))
            expect = {}

        def ok(run):
            i = self.ref(run)
            for f, v in expect.items():
                self.model[i][f] = v
        return Plan([sorted(kw)], lambda: add_edge(a, b, **kw), ok, strict=not bad, new=True)

    def op_edge_bad(self, r, op):
        return self.op_edge(r, op, bad=True)

    def op_measure(self, r, op, bad=False):
        if not self.room(2):
            return None
        m = self.w.pick(r, "MaterialRun")
        if m is None:
            return None
        t = self.w.pick(r, "MeasurementTemplate") if r.random() < 0.5 else None
        attrs = [self.w.attribute(r, r.choice(["Property", "Condition", "Parameter"]))
                 for _ in range(r.randrange(4))]
        name = W.text(r)
        expect = {"material": self.snap(m), "name": name}
        for f, cls in ATTR_OF.items():
            expect[f] = [self.snap(a) for a in attrs if type(a).__name__ == cls]
        if bad:
            c = r.randrange(5)
            if c == 0:
                name, t = None, None
            elif c == 1:
                name = 5
            elif c == 2:
                t = self.w.pick(r, "MaterialTemplate") or 5
            elif c == 3:
                attrs.insert(r.randrange(len(attrs) + 1), r.choice([5, "x", W.value(r)]))
            else:
                attrs = failing(attrs)
            expect = {}
        given = attrs if isinstance(attrs, list) and r.random() < 0.5 else iter(attrs)

        def ok(run):
            i = self.ref(run)
            for f, v in expect.items():
                self.model[i][f] = v
        return Plan([], lambda: add_measurement(m, name=name, template=t, attributes=given), ok,
                    strict=not bad, new=True)

    def op_measure_bad(self, r, op):
        return self.op_measure(r, op, bad=True)

    def op_addattr(self, r, op, bad=False):
        i = self.pick(r)
        if i is None:
            return None
        e = self.w.ents[i]
        kind = W.kind_of(e)
        cls = r.choice(list(W.ATTR_TMPL))
        t = self.w.pick(r, W.ATTR_TMPL[cls])
        if t is None:
            return None
        v = W.value_in(t.bounds, r)
        if v is None:
            return None
        if bad:
            c = r.randrange(4)
            if c == 0:
                t = self.w.pick(r)
            elif c == 1:
                v = object()
            elif c == 2:
                v = W.value_out(t.bounds, r)
            fs = [(i, f) for f in ATTR_OF if f in W.FIELDS[kind]]
            return Plan([kind, cls], lambda: add_attribute(e, t, v), touched=fs)
        f = {v: k for k, v in ATTR_OF.items()}[cls]
        if kind.endswith("Template"):
            return None
        if kind == "MaterialSpec":
            if cls == "Property":
                path, wrap = ["properties"], True
            elif cls == "Condition" and len(e.properties):
                path, wrap = ["properties", len(e.properties) - 1, "conditions"], False
            else:
                return None
        elif f in W.FIELDS[kind]:
            path, wrap = [f], False
        else:
            return None

        def ok(a):
            s = self.snap(a)
            if s[1]["template"] != self.snap(t) or s[1]["value"] != self.snap(v):
                raise Violation("wrong-effect", "add_attribute made %s" % core.canon(s))
            if wrap:  # the library makes it, so an extra field of a client's class stays unset
                d = dict.fromkeys(W.PARTS["PropertyAndConditions"])
                d.update(property=s, conditions=[])
                s = ["PropertyAndConditions", d]
            self.put(i, path, self.get(i, path) + [s])
        return Plan([kind, cls], lambda: add_attribute(e, t, v), ok, strict=True)

    def op_addattr_bad(self, r, op):
        return self.op_addattr(r, op, bad=True)

    def op_instance(self, r, op):
        if r.random() < 0.15:
            i = self.pick(r)
            if i is None or W.kind_of(self.w.ents[i]).endswith("Spec"):
                return None
            e = self.w.ents[i]
            return Plan([W.kind_of(e)], lambda: make_instance(e), new=True)
        i = self.pick(r, ("MaterialSpec", "ProcessSpec", "IngredientSpec", "MeasurementSpec"))
        if i is None or len(self.w.ents) > CAP - 10:
            return None
        s = self.w.ents[i]
        closed = hist._closed(s)
        return Plan([W.kind_of(s), closed], lambda: make_instance(s), strict=closed, new=True)

    # ------------------------------------------------------------ operations: whole graphs
    def op_copy(self, r, op):
        i = self.pick(r)
        if i is None:
            return None
        e = self.w.ents[i]
        if len(W.reach(e)) + len(self.w.ents) > CAP + 15:
            return None
        how = r.choice(["copy", "loads", "deepcopy", "substitute"])
        if how == "deepcopy":
            return Plan([how], lambda: copy.deepcopy(e), new=True, mirror=True)
        if how == "copy":
            return Plan([how], lambda: gj.GEMDJson().copy(e), new=True, gains=True)
        if how == "loads":
            return Plan([how], lambda: gj.loads(gj.dumps(e)), new=True, gains=True)

        def call():
            x = substitute_links(e)
            return substitute_objects(x, {}) if r.random() < 0.5 else x
        return Plan([how], call, new=True)

    def compatible(self, exp, got):
        """Whether got is exp with some pointers and links exchanged for each other."""
        def ids(j):
            return {(s.lower(), u) for s, u in self.model[j]["uids"]["dict"]}
        if exp == got:
            return True
        if isinstance(exp, list) and isinstance(got, list):
            if len(exp) >= 2 and len(got) >= 2 and exp[0] in ("ref", "link") and \
                    got[0] in ("ref", "link") and isinstance(exp[1], (int, str)):
                if exp[0] == "ref" and got[0] == "link":
                    return (got[1].lower(), got[2]) in ids(exp[1])
                if exp[0] == "link" and got[0] == "ref" and isinstance(got[1], int):
                    return (exp[1].lower(), exp[2]) in ids(got[1])
                return False
            return len(exp) == len(got) and all(map(self.compatible, exp, got))
        if isinstance(exp, dict) and isinstance(got, dict):
            return exp.keys() == got.keys() and all(self.compatible(exp[k], got[k]) for k in exp)
        return False

    def exchanged(self, i, label):
        """Adopt the fields of an entity whose pointers and links were exchanged in place."""
        e = self.w.ents[i]
        for f in W.FIELDS[W.kind_of(e)]:
            got = self.snap(W.read(e, f))
            exp = self.model[i][f]
            if got == exp or (W.kind_of(e) == "IngredientRun" and f in ("name", "labels")):
                continue
            if not self.compatible(exp, got):
                raise Violation("wrong-effect", "%s turned %s of %d from %s into %s" % (
                    label, f, i, core.canon(exp)[:300], core.canon(got)[:300]))
            self.assign(i, f, got)

    def op_unlink(self, r, op):
        i = self.pick(r)
        if i is None or self.finding(i, "process", None):
            return None
        e = self.w.ents[i]
        scope = r.choice([None, "auto", "lab"])

        def call():
            for n in W.entities_in([W.read(e, f) for f in W.FIELDS[W.kind_of(e)]]):
                if not n.uids:
                    n.add_uid("auto", "un-%d" % self.ref(n))
            return substitute_links(e, scope, inplace=True)

        def ok(_):
            for n in W.entities_in([self.w.ents[j] for j in range(len(self.w.ents))]):
                j = self.ref(n)
                if self.model[j]["uids"] == {"dict": []}:
                    self.model[j]["uids"] = self.snap(dict(n.uids))
            self.exchanged(i, "substitute_links")
        return Plan([W.kind_of(e), scope], call, ok, strict=True, gains=True,
                    partial=True)

    def op_relink(self, r, op):
        i = self.pick(r)
        if i is None:
            return None
        e = self.w.ents[i]
        idx = make_index(list(self.w.ents) if r.random() < 0.6 else [self.w.pick(r)])

        def ok(_):
            # substitution goes on through the objects it finds
            claims = {}
            near = {self.ref(x) for x in W.reach(e, back=False)}
            for j in sorted(near):
                n = self.model[j]
                old = n.get("process")
                self.exchanged(j, "substitute_objects")
                new = n.get("process")
                if n["kind"] in ("MaterialSpec", "MaterialRun") and old != new:
                    claims.setdefault(new[1], []).append(j)
            for p, ms in claims.items():
                got = self.w.ents[p].output_material
                if got is not None and self.ref(got) in ms:
                    self.owner[p] = self.ref(got)
        return Plan([W.kind_of(e)], lambda: substitute_objects(e, idx, inplace=True), ok,
                    partial=True)

    # ------------------------------------------------------------ operations: process-wide
    def op_level(self, r, op):
        self.level = r.choice([0, 1, 2, 2])
        return Plan([self.level], lambda: None)

    def op_register(self, r, op):
        before = DictSerializable.class_mapping
        typ = r.choice(["material_run", "real_bounds", "link_by_uid", "property", "sim_%d" % self.names])
        self.names += 1
        base = r.choice([DictSerializable, W.BaseEntity])
        fresh = typ not in before

        def call():
            return type(base)("Sim", (base,), {}, typ=typ)

        def after():
            now = DictSerializable.class_mapping
            changed = [k for k in set(before) | set(now) if before.get(k) is not now.get(k)]
            if changed and changed != [typ] or (changed and not fresh):
                raise Violation("registration", "registering %s changed the mapping of %s"
                                % (typ, sorted(changed)))
        return Plan([typ if not fresh else "new"], call, strict=fresh, after=after)


C06_OPS = {"new": 12, "new_bad": 7, "set": 10, "set_bad": 10, "read_only": 1, "link": 5, "pair": 1,
           "list": 8, "list_bad": 6, "uids": 4, "uids_bad": 3, "part": 9, "part_bad": 7, "node": 2,
           "node_bad": 2, "edge": 3, "edge_bad": 3, "measure": 2, "measure_bad": 3, "addattr": 3,
           "addattr_bad": 3, "instance": 1, "copy": 1, "unlink": 1, "relink": 1, "level": 3,
           "register": 1, "ctor": 5}
C05_OPS = {"new": 10, "new_bad": 8, "set_bad": 8, "read_only": 1, "link": 30, "pair": 8, "node": 4,
           "node_bad": 2, "edge": 8, "edge_bad": 4, "measure": 4, "measure_bad": 3, "instance": 4,
           "copy": 4, "unlink": 4, "relink": 4, "level": 1}
LINK_KINDS = ["MaterialSpec", "ProcessSpec", "IngredientSpec", "MaterialRun", "ProcessRun",
              "IngredientRun", "MeasurementRun"]


def gen(r, ops, n, kinds=None):
    # swarm: each run uses a random subset of the operations
    on = [o for o in ops if r.random() < 0.75] or list(ops)
    wt = [ops[o] for o in on]
    out = []
    for k in range(n):
        o = r.choices(on, wt)[0] if k >= 6 else "new"
        d = {"op": o, "r": r.getrandbits(40)}
        if o in ("new", "new_bad") and kinds:
            d["kind"] = r.choice(kinds)
        out.append(d)
    return out
