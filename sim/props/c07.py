"""C07: the validation level is scoped to its block and enforced exactly."""
from sim import core, seams, world as W, inject
from sim.core import Violation, fork_call, SimInterrupt

from gemd.builders import add_attribute, add_edge, add_measurement, make_node
from gemd.entity.bounds_validation import WarningLevel, get_validation_level, \
    set_validation_level, validation_level
from gemd.entity.link_by_uid import LinkByUID
import gemd.json as gj

ID = "C07"
RUNS = {"quick": 25000, "thorough": 400000}
RULE = "digest of the event log (levels, exits, checked assignments, outcomes, log records); a run " \
       "is non-trivial if it left at least one block and made at least 3 checked assignments"
STATE_MEASURE = "distinct (level, nesting depth, way of leaving or kind of assignment, zone of the " \
                "value, outcome) tuples"
REAL = ["gemd.entity (bounds_validation, attributes, templates, objects, bounds, values)",
        "gemd.builders", "gemd.units", "pint"]
STUB = ["entropy", "clock", "log handlers (captured)", "interrupts (raised at a chosen line)"]
ASSUMPTIONS = ["one thread; blocks are properly nested",
               "no interrupt between entering the block statement and its body",
               "attributes without a value are not given to lists that a template restricts"]
PROBES = ["interrupt inside block", "nested 3", "explicit change inside block", "generator closed",
          "fatal rejected", "warning logged", "ignored silently", "consistent at fatal"]

EXITS = ["normal", "normal", "raise", "raise", "interrupt", "return", "break", "genclose",
         "gendrop", "genthrow"]
BAD_LEVELS = [7, -1, "fatal", None, 1.5, "WARNING"]


class Boom(Exception):
    pass


def gen_ops(r, depth, n):
    out = []
    for _ in range(n):
        c = r.random()
        if c < 0.22 and depth < 4:
            out.append({"do": "block", "level": r.randrange(3), "int": r.random() < 0.3,
                        "exit": r.choice(EXITS), "body": gen_ops(r, depth + 1, r.randrange(1, 5))})
        elif c < 0.30:
            out.append({"do": "set", "level": r.randrange(3), "int": r.random() < 0.3})
        elif c < 0.34:
            out.append({"do": r.choice(["badset", "badblock"]), "level": r.randrange(len(BAD_LEVELS))})
        elif c < 0.37:
            out.append({"do": "work", "r": r.getrandbits(40)})
        else:
            out.append({"do": "check", "r": r.getrandbits(40),
                        "fault": "interrupt" if r.random() < 0.08 else None})
    return out


def gen(r, tier):
    return {"ops": gen_ops(r, 0, r.randrange(4, 14))}


def shrinkable(trace):
    out = []

    def go(ops, path):
        out.append(path)
        for i, op in enumerate(ops):
            if "body" in op:
                go(op["body"], path + [i, "body"])
    go(trace["ops"], ["ops"])
    return out


# ------------------------------------------------------------------ values by zone
def family(r):
    """(kind, wide bounds, narrow bounds)"""
    k = r.choice(["real", "real", "int", "cat", "comp", "mol"])
    if k == "real":
        return k, W.RealBounds(0, 100, "m"), W.RealBounds(1000, 2000, "cm")
    if k == "int":
        return k, W.IntegerBounds(0, 100), W.IntegerBounds(10, 20)
    if k == "cat":
        return k, W.CategoricalBounds({"a", "b", "c"}), W.CategoricalBounds({"a"})
    if k == "comp":
        return k, W.CompositionBounds({"Al", "Mg", "Si"}), W.CompositionBounds({"Al"})
    return k, W.MolecularStructureBounds(), W.MolecularStructureBounds()


def zoned(r, k, zone):
    """A value in the narrow bounds, only in the wide ones, or outside both."""
    c = r.randrange(4)
    if zone == "out" and r.random() < 0.25:
        return W.NominalCategorical("zzz") if k != "cat" else W.NominalInteger(3)
    if k == "real":
        lo, hi = {"narrow": (12.0, 18.0), "wide": (15.0, 60.0), "out": (50.0, 500.0)}[zone]
        if c == 0:
            return W.UniformReal(lo, hi, "m")
        if c == 1:
            return W.NominalReal(hi * 100, "cm")
        if c == 2:
            return W.NormalReal(hi, 3.0, "m")
        return W.NominalReal(hi, "m") if zone != "out" else W.NominalReal(15.0, "kg")
    if k == "int":
        lo, hi = {"narrow": (10, 20), "wide": (15, 21), "out": (100, 101)}[zone]
        return W.NominalInteger(hi) if c < 2 else W.UniformInteger(lo, hi)
    if k == "cat":
        x = {"narrow": "a", "wide": "b", "out": "d"}[zone]
        return W.NominalCategorical(x) if c < 2 else W.DiscreteCategorical({"a": 0.5, x: 0.5}) \
            if x != "a" else W.DiscreteCategorical("a")
    if k == "comp":
        x = {"narrow": "Al", "wide": "Mg", "out": "Fe"}[zone]
        return W.NominalComposition({"Al": 1.0, x: 2.0}) if c < 2 else W.EmpiricalFormula(x + "2")
    if zone == "out":
        return W.NominalInteger(1)
    return W.Smiles("CC") if c < 2 else W.InChI("InChI=1S/CH4/h1H4")


FRACTIONS = [(lambda: W.NominalReal(0.5, ""), True), (lambda: W.NominalReal(1.0, ""), True),
             (lambda: W.NominalReal(0.0, ""), True), (lambda: W.NominalReal(50.0, "percent"), True),
             (lambda: W.UniformReal(0.25, 0.75, ""), True), (lambda: W.NormalReal(0.5, 9.0, ""), True),
             (lambda: W.NominalReal(1.0001, ""), False), (lambda: W.NominalReal(-0.25, ""), False),
             (lambda: W.NominalReal(0.5, "kg"), False), (lambda: W.UniformReal(0.5, 1.5, ""), False),
             (lambda: W.NominalReal(150.0, "percent"), False),
             (lambda: W.UniformReal(-0.5, 0.5, ""), False)]
ABSOLUTE = [(lambda: W.NominalReal(3.0, "kg"), True), (lambda: W.NominalReal(0.0, "l"), True),
            (lambda: W.UniformReal(1.0, 2.0, "mol"), True), (lambda: W.NormalReal(1.0, 5.0, "g"), True),
            (lambda: W.NominalReal(-1.0, "kg"), False), (lambda: W.NominalReal(0.5, ""), False),
            (lambda: W.UniformReal(-1.0, 1.0, "kg"), False),
            (lambda: W.NominalReal(50.0, "percent"), False)]


# ------------------------------------------------------------------ one checked assignment
def make_check(r, pool):
    """(label, call, consistent, objects whose state must survive a rejection)"""
    what = r.choice(["value", "value", "template", "newattr", "list", "list", "list", "list",
                     "fraction", "fraction", "absolute", "absolute", "newobj", "builder"])
    k, wide, narrow = family(r)
    cls_name = r.choice(list(W.ATTR_CLS))
    cls = W.ATTR_CLS[cls_name]
    T = W.CLASSES[W.ATTR_TMPL[cls_name]]
    if what in ("value", "template", "newattr"):
        zone = r.choice(["wide", "out"])
        # what the template allowed when it was made or used before does not matter
        late = r.random() < 0.3
        t = T("t", bounds=W.IntegerBounds(7000, 7001) if late else wide, uids={"id": "t1"})
        if late:
            if r.random() < 0.5:
                cls("early", template=t, value=zoned(r, k, zone))
            t.bounds = wide
        v = zoned(r, k, zone)
        mode = r.choice(["object", "object", "object", "link", "none"])
        tm = t if mode == "object" else LinkByUID("id", "t1") if mode == "link" else None
        good = zone == "wide" or mode != "object"
        if what == "newattr":
            return [what, mode, zone], lambda: cls("n", template=tm, value=v), good, [t], \
                lambda res: res.value is v
        if what == "value":
            start = r.choice([None, zoned(r, k, "narrow"), zoned(r, k, "out"), v])
            a = pool.get(("attr", cls_name, k, mode)) if r.random() < 0.5 else None
            if a is None:
                a = cls("n", template=tm, value=start)
                pool[("attr", cls_name, k, mode)] = a
            return [what, mode, zone], lambda: setattr(a, "value", v), good, [a], \
                lambda res: a.value is v
        a = cls("n", value=v)
        old = r.choice(["none", "none", "other", "link", "same link", "same"])
        if old != "none":
            a.template = {"other": T("old", bounds=W.MolecularStructureBounds()), "same": t,
                          "link": LinkByUID("id", "t9"), "same link": LinkByUID("id", "t1")}[old]
        if r.random() < 0.2:
            a.value = r.choice([None, v])
            a.value = v
        return [what, mode, zone], lambda: setattr(a, "template", tm), good, [a, t], \
            lambda res: a.template is tm
    if what in ("fraction", "absolute"):
        mk, good = r.choice(FRACTIONS if what == "fraction" else ABSOLUTE)
        v = mk()
        f = r.choice(["mass_fraction", "volume_fraction", "number_fraction"]) \
            if what == "fraction" else "absolute_quantity"
        kind = r.choice(["IngredientSpec", "IngredientRun"])
        key = ("ing", kind)
        e = pool.get(key) if r.random() < 0.5 else None
        if e is None:
            e = W.CLASSES[kind]("i") if kind[-1] == "c" else W.CLASSES[kind]()
            pool[key] = e
        c = r.random()
        if c < 0.2:
            setattr(e, f, v)  # the level was 'ignore' when it was assigned first
        elif c < 0.4:
            setattr(e, f, r.choice(FRACTIONS if what == "fraction" else ABSOLUTE)[0]())
        elif c < 0.5:
            setattr(e, f, None)
        return [what, kind, f, core.canon(W.snap(v, str))], lambda: setattr(e, f, v), good, [e], \
            lambda res: getattr(e, f) is v
    # lists of attributes under an object template
    kind = r.choice(["MeasurementRun", "ProcessRun", "ProcessSpec", "MeasurementSpec",
                     "MaterialSpec"])
    field = r.choice([f for f in ("properties", "conditions", "parameters") if f in W.FIELDS[kind]])
    cls_name = {"properties": "Property", "conditions": "Condition", "parameters": "Parameter"}[field]
    cls, T = W.ATTR_CLS[cls_name], W.CLASSES[W.ATTR_TMPL[cls_name]]
    restrict = r.random() < 0.6
    t = T("t", bounds=wide, uids={"id": "t1"} if r.random() < 0.7 else {"id": "t1", "lab": "5"})
    other = T("other", bounds=W.MolecularStructureBounds(), uids={"id": "t2"})
    ranges = [[other, None], (t, narrow) if restrict else t]
    if r.random() < 0.3:
        ranges.insert(r.randrange(3), LinkByUID("id", "t3"))
    linked = r.random() < 0.15
    if linked:
        ranges = [LinkByUID("id", "t1") if not restrict else [LinkByUID("id", "t1"), narrow]]
    OT = {"Me": W.MeasurementTemplate, "Pr": W.ProcessTemplate, "Ma": W.MaterialTemplate}[kind[:2]]
    late = r.choice([None, None, None, "ranges", "append", "spec", "template", "bounds"])
    if late == "bounds" and not restrict and not linked:
        t.bounds = W.IntegerBounds(7000, 7001)
    if late == "ranges":
        ot = OT("ot", uids={"id": "ot"}, **{field: r.choice([[], [other], [[t, None]]])})
    elif late == "append":
        ot = OT("ot", uids={"id": "ot"}, **{field: ranges[:-1]})
    else:
        ot = OT("ot", uids={"id": "ot"}, **{field: ranges})
    known = r.choice(["object", "object", "object", "object", "link", "none"])
    tm = ot if known == "object" else LinkByUID("id", "ot") if known == "link" else None
    if kind.endswith("Run"):
        S = W.CLASSES[kind[:-3] + "Spec"]
        spec = S("s", template=tm)
        if known == "link" and r.random() < 0.5:
            spec = LinkByUID("id", "s")
        e = W.CLASSES[kind]("e", spec=r.choice([None, S("s2"), LinkByUID("id", "s")])
                            if late == "spec" else spec)
    else:
        spec = None
        e = W.CLASSES[kind]("e", template=r.choice([None, OT("ot2"), LinkByUID("id", "ot")])
                            if late in ("spec", "template") else tm)
    if late is not None:
        if r.random() < 0.5:  # used before it gets its final form
            setattr(e, field, [W.PropertyAndConditions(cls("n", template=t)) if kind == "MaterialSpec"
                               else cls("n", template=t, value=zoned(r, k, "out"))])
        if late == "ranges":
            setattr(ot, field, ranges)
        elif late == "append":
            getattr(ot, field).append(ranges[-1])
        elif late == "bounds":
            t.bounds = wide
        elif kind.endswith("Run"):
            if late == "template" and isinstance(spec, W.BaseEntity):
                spec.template = None
                spec.template = tm
            e.spec = spec
        else:
            e.template = tm

    # attributes that no range of the object template speaks of are not checked
    free = r.choice([None] * 9 + ["name", "template", "link"])

    def attr(zone):
        v = zoned(r, k, zone)
        c = r.random()
        if free == "name":
            a = cls("unmatched", value=v)
        elif free == "template":
            a = cls("t", value=v, template=T("t", bounds=wide, uids={"id": "t7"}))
        elif free == "link":
            a = cls("t", value=v, template=LinkByUID("id", "t7"))
        elif linked:
            # a link in the ranges is matched by an attribute whose template it names
            a = cls("n", template=t, value=v)
        elif c < 0.6:
            a = cls("n", template=t, value=v)
        else:
            a = cls("t", value=v)  # matched by name
        return W.PropertyAndConditions(a) if kind == "MaterialSpec" else a
    zone = r.choice(["narrow", "wide", "out"])
    if linked:
        good = not (known == "object" and restrict and zone != "narrow")
    else:
        good = known != "object" or zone == "narrow" or (zone == "wide" and not restrict)
    if k == "mol" and zone != "out":
        good = True
    matched = good
    if free is not None:
        good = True
    sizes = r.randrange(3)
    batch = [attr("narrow") for _ in range(sizes)]
    first = [attr("narrow") for _ in range(r.randrange(3))]
    if what == "newobj":
        bad = attr(zone)
        batch.insert(r.randrange(len(batch) + 1), bad)
        kw = {field: batch if r.random() < 0.6 else iter(batch)}
        if kind.endswith("Run"):
            kw["spec"] = e.spec
            if kind == "MeasurementRun":
                kw["material"] = pool.setdefault("mat", W.MaterialRun("m"))
        else:
            kw["template"] = tm
            if kind == "MaterialSpec":
                kw["process"] = pool.setdefault("proc", W.ProcessSpec("p"))
        keep = [x for x in (pool.get("mat"), pool.get("proc")) if x is not None]
        # the attribute itself was made outside its own template's bounds without a check
        return [what, kind, field, known, zone, restrict, linked, late, free], \
            lambda: W.CLASSES[kind]("new", **kw), good, keep, \
            lambda res: any(x is bad for x in getattr(res, field))
    if what == "builder":
        c = r.randrange(3)
        if c == 0:
            v = zoned(r, k, zone)
            if kind == "MaterialSpec":
                return make_check(r, pool)
            ok = matched and zone != "out"
            return ["add_attribute", kind, field, known, zone, restrict, linked, late, free], \
                lambda: add_attribute(e, t, v), ok, [e, t], \
                lambda res: any(x.value is v for x in getattr(e, field))
        if c == 1:
            mk, ok = r.choice(FRACTIONS)
            v = mk()
            a, b = pool.setdefault("node1", make_node("n1")), pool.setdefault("node2", make_node("n2"))
            f = r.choice(["mass_fraction", "volume_fraction", "number_fraction"])
            return ["add_edge", f, core.canon(W.snap(v, str))], \
                lambda: add_edge(a, b, **{f: v}), ok, [b.process, b.spec.process], \
                lambda res: getattr(res, f) is v
        if kind != "MeasurementRun" or known == "link":
            return make_check(r, pool)
        bad = attr(zone)
        batch.insert(r.randrange(len(batch) + 1), bad)
        m = pool.setdefault("mat", W.MaterialRun("m"))
        return ["add_measurement", field, known, zone, restrict, linked, late, free], \
            lambda: add_measurement(m, name="x", template=tm, attributes=batch), good, [m], \
            lambda res: any(x is bad for x in getattr(res, field))
    setattr(e, field, first)
    bad = attr(zone)
    how = r.choice(["append", "insert", "extend", "iadd", "set", "setitem", "slice", "assign"])
    pos = r.randrange(len(batch) + 1)
    many = batch[:pos] + [bad] + batch[pos:]
    lst = getattr(e, field)
    if how == "setitem" and not first:
        how = "append"
    given = many if r.random() < 0.5 else iter(many)

    def call():
        if how == "append":
            lst.append(bad)
        elif how == "insert":
            lst.insert(0, bad)
        elif how == "extend":
            lst.extend(given)
        elif how == "iadd":
            x = lst
            x += given
        elif how == "setitem":
            lst[0] = bad
        elif how == "slice":
            lst[0:1] = given
        elif how == "assign":
            setattr(e, field, given)
        else:
            setattr(e, field, bad if len(many) == 1 else given)
    return [what, kind, field, known, zone, restrict, linked, late, free, how], call, good, [e], \
        lambda res: any(x is bad for x in getattr(e, field))


def picture(objs):
    names = {}

    def ref(x):
        return names.setdefault(id(x), len(names))
    return [W.entity_snap(o, ref) if isinstance(o, W.BaseEntity) else W.snap(o, ref) for o in objs]


class Run:
    def __init__(self, trace):
        self.env = seams.Env(trace["seed"]).install()
        self.stats = core.Stats()
        self.level = int(get_validation_level())
        self.pool = {}
        self.log, self.states = [], set()
        self.checks = self.left = 0

    def note(self, *x):
        self.log.append(list(x))

    def assert_level(self, when):
        got = get_validation_level()
        if got != self.level:
            raise Violation("wrong-level", "%s: the level is %r, expected %d" % (when, got, self.level))

    def ops(self, ops, depth):
        for op in ops:
            self.stats.hit("steps")
            self.assert_level("before %s" % op["do"])
            getattr(self, "do_" + op["do"])(op, depth)

    def do_set(self, op, depth):
        self.level = op["level"]
        set_validation_level(op["level"] if op["int"] else WarningLevel(op["level"]))
        self.assert_level("after setting it")
        if depth:
            self.stats.hit("probe:explicit change inside block")
        self.note("set", op["level"])

    def do_badset(self, op, depth):
        bad = BAD_LEVELS[op["level"]]
        try:
            set_validation_level(bad)
        except Exception as e:  # noqa
            self.note("badset", type(e).__name__)
            self.stats.hit("fault:rejected-level")
        else:
            raise Violation("level-accepted", "set_validation_level(%r) was accepted" % (bad,))
        self.assert_level("after the rejected level %r" % (bad,))

    def do_badblock(self, op, depth):
        bad = BAD_LEVELS[op["level"]]
        try:
            with validation_level(bad):
                inside = True
        except Exception as e:  # noqa
            self.note("badblock", type(e).__name__)
            self.stats.hit("fault:rejected-level")
        else:
            raise Violation("level-accepted", "validation_level(%r) was accepted (%r)" % (bad, inside))
        self.assert_level("after the rejected block level %r" % (bad,))

    def do_work(self, op, depth):
        """Unrelated work that must not touch the level."""
        r = core.rng("work", op["r"])
        keep = get_validation_level()
        set_validation_level(0)
        m = make_node("n")
        set_validation_level(keep)
        r.choice([lambda: gj.loads(gj.dumps(m)), lambda: gj.GEMDJson().copy(m), lambda: repr(m),
                  lambda: m == m])()
        self.assert_level("after unrelated work")

    def do_block(self, op, depth):
        before = self.level
        lv = op["level"] if op["int"] else WarningLevel(op["level"])
        ex = op["exit"]
        if depth >= 2:
            self.stats.hit("probe:nested 3")

        def body():
            self.level = op["level"]
            self.assert_level("on entering the block")
            self.ops(op["body"], depth + 1)

        def func():
            with validation_level(lv):
                body()
                if ex == "raise":
                    raise Boom()
                if ex == "interrupt":
                    raise SimInterrupt()
                if ex == "return":
                    return 1
            return 2

        def loop():
            for _ in range(3):
                with validation_level(lv):
                    body()
                    break

        def generator():
            with validation_level(lv):
                yield 1
                yield 2
        how = ex
        try:
            if ex.startswith("gen"):
                g = generator()
                next(g)
                try:
                    body()
                finally:
                    if ex == "genclose":
                        g.close()
                    elif ex == "gendrop":
                        del g
                    else:
                        try:
                            g.throw(Boom())
                        except Boom:
                            pass
                    self.stats.hit("probe:generator closed")
            elif ex == "break":
                loop()
            else:
                func()
        except Boom:
            how += "+raised"
        except SimInterrupt:
            how += "+interrupted"
            self.stats.hit("fault:interrupt")
            self.stats.hit("probe:interrupt inside block")
        self.level = before
        self.left += 1
        self.assert_level("after a block at level %d left by %s" % (op["level"], how))
        self.note("block", op["level"], how)
        self.states.add(core.digest(["block", before, op["level"], depth, how]))

    def do_check(self, op, depth):
        r = core.rng("check", op["r"])
        keep = get_validation_level()
        set_validation_level(0)
        label, call, good, objs, took = make_check(r, self.pool)
        set_validation_level(keep)
        self.assert_level("after preparing")
        before = picture(objs)
        self.env.log.take()
        if op.get("fault") and depth:
            # only to leave the enclosing block from inside the library
            with inject.LineFault(1 + r.randrange(60), SimInterrupt()) as lf:
                try:
                    call()
                except Exception:  # noqa
                    pass
            self.pool.clear()
            if lf.fired:  # the exception was swallowed by nothing: it propagates by itself
                raise Violation("interrupt-swallowed", "an interrupt inside %r vanished" % label)
            return
        res = None
        try:
            res = call()
            outcome = "accepted"
        except Exception as e:  # noqa
            outcome = "rejected"
            err = core.short_exc(e)
        warned = [x for x in self.env.log.take() if x[0] not in ("DEBUG", "INFO")]
        self.checks += 1
        self.stats.hit("op:" + label[0])
        lvl = self.level
        what = "%s at level %d, %s" % (core.canon(label), lvl,
                                       "consistent" if good else "inconsistent")
        if outcome == "rejected" and (good or lvl != 2):
            raise Violation("rejected", "%s: raised %s" % (what, err))
        if outcome == "accepted" and not good and lvl == 2:
            raise Violation("not-enforced", "%s: accepted" % what)
        if outcome == "rejected":
            after = picture(objs)
            if after != before:
                raise Violation("trace-left", "%s: rejected but changed %s"
                                % (what, W.diff(before, after)))
            self.stats.hit("fault:rejected-edit")
            self.stats.hit("probe:fatal rejected")
        else:
            if not took(res):
                raise Violation("not-assigned", "%s: accepted, but does not read back" % what)
            want = not good and lvl == 1
            if want and not warned:
                raise Violation("no-warning", "%s: accepted without a warning" % what)
            if warned and not want:
                raise Violation("spurious-warning", "%s: logged %r" % (what, warned[:3]))
            self.stats.hit("probe:" + ("warning logged" if want else "ignored silently" if not good
                                       else "consistent at fatal" if lvl == 2 else "consistent"))
        self.assert_level("after " + what)
        self.note("check", label, lvl, good, outcome, len(warned))
        self.states.add(core.digest(["check", label, lvl, min(depth, 2), outcome]))


def run(trace):
    x = Run(trace)
    x.ops(trace["ops"], 0)
    return {"digest": core.digest(x.log), "stats": x.stats, "states": x.states,
            "nontrivial": x.left >= 1 and x.checks >= 3, "log": x.log}


def execute(trace):
    return fork_call(run, trace)
