"""C14: checked lists hold only checked elements and otherwise act as lists.

A run is a history of list operations on one checked list (a bare one with a check that can transform
or fail, or one that belongs to an object), fed by good and bad elements, one-shot iterators and
sources that fail midway, against a plain-list reference model.
"""
import copy

from sim import core, seams, world as W
from sim.core import Violation, fork_call

from gemd.entity.valid_list import ValidList
from gemd.entity.setters import validate_list
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.bounds_validation import set_validation_level, WarningLevel

ID = "C14"
RUNS = {"quick": 36000, "thorough": 300000}
RULE = "digest of the event log; a run is non-trivial if at least one operation was rejected, one was " \
       "accepted, and the list held two or more elements at some point"
STATE_MEASURE = "distinct (kind of list, operation, outcome, length before and after)"
REAL = ["gemd checked lists and the setters and checks of the objects that own them"]
STUB = ["sources of elements (iterators that fail at a chosen position)",
        "element checks of bare lists (fail or transform by element)"]
ASSUMPTIONS = ["remove takes out the very element it is given if that is in the list, and otherwise the "
               "first equal one",
               "sorting with a failing key is not exercised (a plain list does not survive it either)"]
PROBES = ["rejected element", "source failed", "check failed", "transformed", "one-shot iterator",
          "slice", "extended slice", "aliased input", "index out of range", "removed equal", "copied",
          "reassigned", "rejected midway", "empty input"]

KINDS = ["bare", "bare-trigger", "bare-two", "tags", "file_links", "labels", "allowed_names",
         "conditions", "parameters", "properties", "pac", "tmpl_properties", "tmpl_conditions",
         "tmpl_parameters", "pac_conditions", "attr_file_links"]


class SourceError(Exception):
    """The source of the elements failed."""


class Failing(Exception):
    """The check failed on an element."""


def gen(r, tier):
    kind = r.choice(KINDS)
    ops = []
    for _ in range(r.randrange(4, 36)):
        k = r.choice(["append", "append", "extend", "extend", "extend", "iadd", "insert", "setitem",
                      "slice", "slice", "del", "delslice", "pop", "remove", "remove", "reverse",
                      "clear", "imul", "copy", "assign", "assign", "init", "read", "sort"])
        o = {"op": k, "r": r.getrandbits(32),
             "elems": [r.randrange(12) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))],
             "how": r.choice(["list", "list", "tuple", "iter", "gen", "self", "set"])}
        if r.random() < 0.35:
            o["bad"] = r.randrange(6)
        if r.random() < 0.2:
            o["fail"] = r.randrange(6)
        ops.append(o)
    return {"kind": kind, "ops": ops, "level": r.choice(["fatal", "fatal", "warning", "ignore"])}


def shrinkable(trace):
    return [["ops"]] + [["ops", i, "elems"] for i in range(len(trace["ops"]))]


class Item(object):
    """An element of a bare list; equal by value, different by identity."""

    def __init__(self, n, twin=False):
        self.n, self.twin = n, twin

    def __eq__(self, o):
        return isinstance(o, Item) and o.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __lt__(self, o):
        return self.n < o.n

    def __repr__(self):
        return "Item(%d)" % self.n


class Setup:
    """The list under test: its owner, good and bad elements, and what its check does to them."""

    def __init__(self, kind, level):
        self.kind = kind
        self.owner = self.field = None
        self.checked = {}        # id(stored) -> stored, everything that went through the check
        self.bad = [3.5, None, object(), ["x"], {"a": 1}, b"bytes"]
        self.rejects = lambda x: False
        self.stored = lambda x: x
        self.same = lambda a, b: a is b
        self.single = None
        fatal = level == "fatal"
        if kind.startswith("bare"):
            self.good = [Item(i // 2) for i in range(12)]
            self.types = Item if kind != "bare-two" else [Item, str]
            self.bad = [3, "x" if kind != "bare-two" else 4, None, object(), [1], 2.5]
            self.trigger = None
            if kind != "bare":
                wrapped = {}

                def trigger(x):
                    if isinstance(x, Item) and x.n == 5:
                        raise Failing("element 5")
                    if isinstance(x, Item) and x.n in (1, 3):
                        return wrapped.setdefault(id(x), Item(x.n + 20))
                    return None
                self.trigger = trigger
                self.rejects = lambda x: isinstance(x, Item) and x.n == 5
                self.stored = lambda x: wrapped.get(id(x), x) if isinstance(x, Item) and \
                    x.n in (1, 3) else x
                if kind == "bare-two":
                    self.good[7] = "text"
            self.lst = ValidList([], self.types, self.trigger)
        elif kind in ("tags", "labels", "allowed_names"):
            self.good = ["t%d" % (i // 2) for i in range(11)] + [""]
            self.same = lambda a, b: type(a) is type(b) and a == b
            self.bad = [3, None, b"x", ["x"], object(), ("a",)]
            self.owner, self.field = {
                "tags": (W.MaterialRun("m"), "tags"), "labels": (W.IngredientSpec("i"), "labels"),
                "allowed_names": (W.ProcessTemplate("p", allowed_names=[]), "allowed_names")}[kind]
        elif kind in ("file_links", "attr_file_links"):
            self.good = [W.FileLink("f%d" % (i // 2), "u") for i in range(12)]
            self.bad[0] = "name"
            self.owner = W.ProcessRun("p") if kind == "file_links" else W.Property("p")
            self.field = "file_links"
        elif kind in ("conditions", "parameters", "properties", "pac", "pac_conditions"):
            cls = {"conditions": "Condition", "parameters": "Parameter", "properties": "Property",
                   "pac": "Property", "pac_conditions": "Condition"}[kind]
            tc = W.CLASSES[W.ATTR_TMPL[cls]]
            tmpl = tc("t", bounds=W.RealBounds(0, 10, "m"))
            narrow = W.RealBounds(0, 5, "m")
            mk = lambda v: W.ATTR_CLS[cls]("a", template=tmpl, value=W.NominalReal(v, "m"))  # noqa
            vals = [1.0, 1.0, 2.0, 3.0, 7.0, 8.0, 1.0, 4.0, 9.0, 2.0, 5.0, 6.0]
            items = [mk(v) for v in vals]
            outside = {id(x) for x, v in zip(items, vals) if v > 5}
            if kind == "conditions":
                self.owner = W.ProcessSpec("p", template=W.ProcessTemplate(
                    "pt", conditions=[[tmpl, narrow]]))
            elif kind == "parameters":
                self.owner = W.MeasurementSpec("p", template=W.MeasurementTemplate(
                    "pt", parameters=[[tmpl, narrow]]))
            elif kind == "properties":
                self.owner = W.MeasurementRun("r", spec=W.MeasurementSpec(
                    "p", template=W.MeasurementTemplate("pt", properties=[[tmpl, narrow]])))
            elif kind == "pac":
                items = [W.PropertyAndConditions(x) for x in items]
                outside = {id(x) for x, v in zip(items, vals) if v > 5}
                self.owner = W.MaterialSpec("p", template=W.MaterialTemplate(
                    "pt", properties=[[tmpl, narrow]]))
            else:
                self.owner = W.PropertyAndConditions(W.Property("p"))
                outside = set()
            self.field = {"pac": "properties", "pac_conditions": "conditions"}.get(kind, kind)
            self.good = items
            if fatal:
                self.rejects = lambda x: id(x) in outside
            self.bad = [3, "x", None, W.FileLink("a", "b"),
                        W.ATTR_CLS["Parameter" if cls != "Parameter" else "Condition"]("x"), ["x"]]
        else:
            cls = {"tmpl_properties": "PropertyTemplate", "tmpl_conditions": "ConditionTemplate",
                   "tmpl_parameters": "ParameterTemplate"}[kind]
            ts = [W.CLASSES[cls]("t%d" % i, bounds=W.RealBounds(0, 10, "m")) for i in range(3)]
            nb = W.RealBounds(1, 2, "m")
            wide = W.RealBounds(-5, 50, "m")
            lk = LinkByUID("id", "x")
            self.good = [ts[0], ts[1], lk, [ts[0], nb], (ts[1], nb), [ts[2], None], (lk, nb), [lk, None],
                         [ts[0], wide], ts[2], (ts[2], wide), (ts[0], None)]
            bad_ids = {id(self.good[8]), id(self.good[10])}
            self.rejects = lambda x: id(x) in bad_ids
            self.stored = lambda x: x
            self.same = self.same_range
            self.bad = [3, "x", None, nb, {"a": 1}, 2.5]
            self.owner = {"tmpl_properties": W.MaterialTemplate, "tmpl_conditions": W.ProcessTemplate,
                          "tmpl_parameters": W.MeasurementTemplate}[kind]("owner")
            self.field = kind[5:]
        if self.owner is not None:
            self.lst = None

    @staticmethod
    def pair(x):
        return (x[0], x[1]) if isinstance(x, (list, tuple)) else (x, None)

    def same_range(self, a, b):
        a, b = self.pair(a), self.pair(b)
        return a[0] is b[0] and (a[1] is b[1] or a[1] == b[1])

    def get(self):
        return self.lst if self.owner is None else getattr(self.owner, self.field)


def source(op, elems, lst):
    """The elements as the chosen kind of input (after `bad` and `fail` were applied)."""
    how, fail = op["how"], op.get("fail")

    def g():
        for i, x in enumerate(elems):
            if fail is not None and i >= fail:
                raise SourceError("source failed")
            yield x
        if fail is not None and fail >= len(elems):
            raise SourceError("source failed")
    if fail is not None:
        return g()
    if how == "tuple":
        return tuple(elems)
    if how == "iter":
        return iter(elems)
    if how == "gen":
        return g()
    if how == "self":
        return lst
    return list(elems)


def run(trace):
    seams.Env(core.derive(trace["seed"], "env")).install()
    set_validation_level({"ignore": WarningLevel.IGNORE, "warning": WarningLevel.WARNING,
                          "fatal": WarningLevel.FATAL}[trace["level"]])
    s = Setup(trace["kind"], trace["level"])
    model = []
    stats, states, log = core.Stats(), set(), []
    accepted = rejected = big = 0
    for op in trace["ops"]:
        k = op["op"]
        r = core.rng("l", op["r"])
        stats.hit("steps")
        stats.hit("op:" + k)
        lst = s.get()
        n = len(model)
        elems = [s.good[i] for i in op["elems"]]
        bad_at = op.get("bad")
        if bad_at is not None and elems:
            elems[bad_at % len(elems)] = s.bad[bad_at % len(s.bad)]
        else:
            bad_at = None
        fail = op.get("fail")
        if op["how"] == "self" and fail is None:
            elems, bad_at = list(model), None
        one = elems[0] if elems else s.good[op["r"] % 12]
        is_bad = lambda x: any(x is b for b in s.bad)  # noqa
        batch_bad = any(is_bad(x) for x in elems)
        batch_rej = any((not is_bad(x)) and s.rejects(x) for x in elems)
        new = [s.stored(x) for x in elems]
        want, expect = list(model), None  # expected content; expected outcome (True, False)
        what = k

        def one_ok():
            return not is_bad(one) and not s.rejects(one)

        before_ids = list(model)
        try:
            if k == "append":
                expect = one_ok()
                want.append(one)
                lst.append(one)
            elif k in ("extend", "iadd"):
                expect = not batch_bad and not batch_rej and fail is None
                src = source(op, elems, lst)
                want.extend(elems)
                if k == "extend":
                    lst.extend(src)
                else:
                    same = lst
                    same += src
                    if same is not lst:
                        raise Violation("identity", "+= made a new list")
            elif k == "insert":
                i = r.randrange(-n - 2, n + 3)
                expect = one_ok()
                want.insert(i, one)
                lst.insert(i, one)
            elif k == "setitem":
                i = r.randrange(-n - 1, n + 1) if n else 0
                ok = -n <= i < n
                expect = one_ok() and ok
                if ok:
                    want[i] = one
                else:
                    stats.hit("probe:index out of range")
                lst[i] = one
            elif k == "slice":
                a, b = r.randrange(-n - 1, n + 2), r.randrange(-n - 1, n + 2)
                st = r.choice([None, None, None, 1, 2, -1])
                sl = slice(r.choice([a, None]), r.choice([b, None]), st)
                fits = True
                try:
                    want[sl] = list(elems)
                except ValueError:
                    fits = False
                expect = fits and not batch_bad and not batch_rej and fail is None
                stats.hit("probe:extended slice" if st not in (None, 1) else "probe:slice")
                lst[sl] = source(op, elems, lst)
            elif k == "del":
                i = r.randrange(-n - 1, n + 1) if n else 0
                expect = -n <= i < n
                if expect:
                    del want[i]
                del lst[i]
            elif k == "delslice":
                a, b = sorted([r.randrange(0, n + 1), r.randrange(0, n + 1)])
                st = r.choice([None, 2])
                expect = True
                del want[a:b:st]
                del lst[a:b:st]
            elif k == "pop":
                i = r.randrange(-n - 1, n + 1) if n else 0
                expect = -n <= i < n
                if expect:
                    x = want.pop(i)
                got = lst.pop(i)
                if expect and not s.same(got, x):
                    raise Violation("pop", "pop(%d) returned something else" % i)
            elif k == "remove":
                x = r.choice(model) if model and r.random() < 0.7 else one
                if s.kind.startswith("tmpl_"):
                    x = r.choice(list(lst)) if len(lst) else x
                    pos = next((j for j, y in enumerate(lst) if y is x), None)
                else:
                    pos = next((j for j, y in enumerate(model) if y is x and not isinstance(x, str)),
                               None)
                if pos is None:
                    pos = next((j for j, y in enumerate(list(lst)) if y == x), None)
                    if pos is not None:
                        stats.hit("probe:removed equal")
                expect = pos is not None
                if expect:
                    del want[pos]
                lst.remove(x)
            elif k == "reverse":
                expect = True
                want.reverse()
                lst.reverse()
            elif k == "clear":
                expect = True
                want.clear()
                lst.clear()
            elif k == "imul":
                m = r.choice([0, 1, 2, 2])
                expect = True
                if n * m > 40:
                    m = 1
                want *= m
                lst *= m
            elif k == "sort":
                if s.kind not in ("bare", "bare-trigger", "tags", "labels", "allowed_names"):
                    log.append([k, "skip"])
                    continue
                expect = True
                want.sort()
                lst.sort()
            elif k == "copy":
                stats.hit("probe:copied")
                expect = True
                c = copy.copy(lst) if r.random() < 0.5 else lst.copy()
                if len(c) != n or not all(s.same(x, y) for x, y in zip(c, lst)):
                    raise Violation("copy", "a copy of the list differs")
                c.append(s.good[0]) if not s.rejects(s.good[0]) else c.clear()
            elif k == "assign":
                if s.owner is None:
                    log.append([k, "skip"])
                    continue
                stats.hit("probe:reassigned")
                if op["how"] == "set" and fail is None and len(elems) == 1 and \
                        not (isinstance(elems[0], (list, tuple, dict, bytes)) or elems[0] is None):
                    src = elems[0]      # a single element stands for a list of one
                    if s.kind.startswith("tmpl_"):
                        src = elems
                elif op["how"] == "self" and fail is None:
                    src = lst
                else:
                    src = source(op, elems, lst)
                if s.kind.startswith("tmpl_") and any(isinstance(x, W.RealBounds) for x in elems):
                    log.append([k, "skip"])   # a bare [template, bounds] pair is also accepted there
                    continue
                expect = not batch_bad and not batch_rej and fail is None
                want = list(elems)
                setattr(s.owner, s.field, src)
            elif k == "init":
                if s.owner is not None:
                    log.append([k, "skip"])
                    continue
                expect = not batch_bad and not batch_rej and fail is None
                want = list(elems)
                s.lst = ValidList(source(op, elems, lst), s.types, s.trigger)
            elif k == "read":
                expect = True
                if list(lst) != [x for x in lst] or len(lst) != n:
                    raise Violation("contents", "listing and length disagree")
            out = "ok"
        except Violation:
            raise
        except SourceError:
            out = "source"
            stats.hit("probe:source failed")
            stats.hit("fault:source failed")
        except Failing:
            out = "check"
            stats.hit("probe:check failed")
            stats.hit("fault:check failed")
        except Exception as e:  # noqa
            out = type(e).__name__
        if k in ("append", "insert", "setitem"):
            pass
        if expect and out != "ok":
            raise Violation("refused", "%s on a %s list was refused: %s" % (what, s.kind, out))
        if not expect and out == "ok":
            raise Violation("accepted", "%s of %s on a %s list was accepted" % (
                what, [type(x).__name__ for x in (elems or [one])], s.kind))
        if out == "ok":
            accepted += 1
            if k in ("append", "extend", "iadd", "insert", "setitem", "slice", "assign", "init"):
                want = [x if any(x is y for y in model) else s.stored(x) for x in want]
            model = want
        else:
            rejected += 1
            model = before_ids
            if is_bad(one) or batch_bad:
                stats.hit("probe:rejected element")
            if len(elems) > 1:
                stats.hit("probe:rejected midway")
        if op["how"] in ("iter", "gen"):
            stats.hit("probe:one-shot iterator")
        if op["how"] == "self":
            stats.hit("probe:aliased input")
        if not elems and k in ("extend", "iadd", "slice", "assign"):
            stats.hit("probe:empty input")
        now = list(s.get())
        if len(now) != len(model) or not all(s.same(a, b) for a, b in zip(now, model)):
            raise Violation("contents", "after %s (%s, input %s%s) a %s list holds %s, a plain list "
                            "would hold %s" % (what, out, op["how"], ", failing source" if fail is not
                                               None else "", s.kind, show(now), show(model)))
        for x in now:
            if is_bad(x):
                raise Violation("unchecked", "%s let a %s into a %s list" % (what, type(x).__name__,
                                                                             s.kind))
        if any(s.stored(x) is not x for x in now if any(x is g for g in s.good)):
            raise Violation("unchecked", "%s stored an element that the check replaces" % what)
        if any(x is not g and isinstance(x, Item) and x.n > 19 for x in now for g in s.good[:1]):
            stats.hit("probe:transformed")
        if s.kind.startswith("tmpl_") and not all(isinstance(x, (list, tuple)) and len(x) == 2
                                                  for x in now):
            raise Violation("unchecked", "%s stored a template without its range: %s" % (what, show(now)))
        big = max(big, len(model))
        states.add(core.digest([s.kind, k, out, n, len(model)]))
        log.append([k, out, n, len(model)])
    return {"digest": core.digest([trace["kind"], log]), "stats": stats, "states": states, "log": log,
            "nontrivial": bool(accepted and rejected and big >= 2)}


def show(xs):
    return [x if isinstance(x, str) else type(x).__name__ + (str(x.n) if isinstance(x, Item) else "")
            for x in xs]


def execute(trace):
    return fork_call(run, trace)
