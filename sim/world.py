"""The simulated users' world: populations of gemd objects, generators for their contents, and an
independent way to look at them (snapshots through public attributes only; the library's own
equality is never used as an oracle)."""
from sim import core
from sim.seams import import_gemd

import_gemd()

from gemd.entity.base_entity import BaseEntity  # noqa: E402
from gemd.entity.dict_serializable import DictSerializable  # noqa: E402
from gemd.entity.link_by_uid import LinkByUID  # noqa: E402
from gemd.entity.file_link import FileLink  # noqa: E402
from gemd.entity.source.performed_source import PerformedSource  # noqa: E402
from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions  # noqa: E402
from gemd.entity.template import PropertyTemplate, ConditionTemplate, ParameterTemplate, \
    MaterialTemplate, ProcessTemplate, MeasurementTemplate  # noqa: E402
from gemd.entity.object import MaterialSpec, MaterialRun, ProcessSpec, ProcessRun, \
    IngredientSpec, IngredientRun, MeasurementSpec, MeasurementRun  # noqa: E402
from gemd.entity.value import NominalReal, NormalReal, UniformReal, NominalInteger, \
    UniformInteger, NominalCategorical, DiscreteCategorical, NominalComposition, \
    EmpiricalFormula, Smiles, InChI  # noqa: E402
from gemd.entity.bounds import RealBounds, IntegerBounds, CategoricalBounds, CompositionBounds, \
    MolecularStructureBounds  # noqa: E402
from gemd.enumeration import Origin, SampleType  # noqa: E402
import enum  # noqa: E402
import inspect  # noqa: E402

CLASSES = {c.__name__: c for c in (
    PropertyTemplate, ConditionTemplate, ParameterTemplate,
    MaterialTemplate, ProcessTemplate, MeasurementTemplate,
    MaterialSpec, ProcessSpec, IngredientSpec, MeasurementSpec,
    MaterialRun, ProcessRun, IngredientRun, MeasurementRun)}
KINDS = list(CLASSES)
ATTR_TMPL = {"Property": "PropertyTemplate", "Condition": "ConditionTemplate",
             "Parameter": "ParameterTemplate"}
ATTR_CLS = {"Property": Property, "Condition": Condition, "Parameter": Parameter}

QUANT = ["mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"]
_OBJ = ["uids", "tags", "name", "notes", "file_links"]
FIELDS = {
    "PropertyTemplate": ["uids", "tags", "name", "description", "bounds"],
    "ConditionTemplate": ["uids", "tags", "name", "description", "bounds"],
    "ParameterTemplate": ["uids", "tags", "name", "description", "bounds"],
    "MaterialTemplate": ["uids", "tags", "name", "description", "properties"],
    "ProcessTemplate": ["uids", "tags", "name", "description", "conditions", "parameters",
                        "allowed_names", "allowed_labels"],
    "MeasurementTemplate": ["uids", "tags", "name", "description", "properties", "conditions",
                            "parameters"],
    "MaterialSpec": _OBJ + ["template", "process", "properties"],
    "ProcessSpec": _OBJ + ["template", "conditions", "parameters"],
    "IngredientSpec": _OBJ + ["material", "process", "labels"] + QUANT,
    "MeasurementSpec": _OBJ + ["template", "conditions", "parameters"],
    "MaterialRun": _OBJ + ["spec", "process", "sample_type"],
    "ProcessRun": _OBJ + ["spec", "conditions", "parameters", "source"],
    "IngredientRun": _OBJ + ["spec", "material", "process", "labels"] + QUANT,
    "MeasurementRun": _OBJ + ["spec", "material", "properties", "conditions", "parameters",
                              "source"],
}
BACK = {"ProcessSpec": ["ingredients", "output_material"],
        "ProcessRun": ["ingredients", "output_material"],
        "MaterialRun": ["measurements"]}
# forward reference fields: field -> kind it refers to
REFS = {
    "MaterialSpec": {"template": "MaterialTemplate", "process": "ProcessSpec"},
    "ProcessSpec": {"template": "ProcessTemplate"},
    "IngredientSpec": {"material": "MaterialSpec", "process": "ProcessSpec"},
    "MeasurementSpec": {"template": "MeasurementTemplate"},
    "MaterialRun": {"spec": "MaterialSpec", "process": "ProcessRun"},
    "ProcessRun": {"spec": "ProcessSpec"},
    "IngredientRun": {"spec": "IngredientSpec", "material": "MaterialRun", "process": "ProcessRun"},
    "MeasurementRun": {"spec": "MeasurementSpec", "material": "MaterialRun"},
}
PARTS = {
    "NominalReal": ["nominal", "units"], "NormalReal": ["mean", "std", "units"],
    "UniformReal": ["lower_bound", "upper_bound", "units"], "NominalInteger": ["nominal"],
    "UniformInteger": ["lower_bound", "upper_bound"], "NominalCategorical": ["category"],
    "DiscreteCategorical": ["probabilities"], "NominalComposition": ["quantities"],
    "EmpiricalFormula": ["formula"], "Smiles": ["smiles"], "InChI": ["inchi"],
    "RealBounds": ["lower_bound", "upper_bound", "default_units"],
    "IntegerBounds": ["lower_bound", "upper_bound"], "CategoricalBounds": ["categories"],
    "CompositionBounds": ["components"], "MolecularStructureBounds": [],
    "Property": ["name", "notes", "value", "template", "origin", "file_links"],
    "Condition": ["name", "notes", "value", "template", "origin", "file_links"],
    "Parameter": ["name", "notes", "value", "template", "origin", "file_links"],
    "PropertyAndConditions": ["property", "conditions"],
    "PerformedSource": ["performed_by", "performed_date"],
    "FileLink": ["filename", "url"],
    "Note": ["text", "about", "data"],
    "Late": ["text", "about", "data"],
    "SizedLink": ["filename", "url", "size"],
}


# Classes of the client's own, registered with the library like its own
class Note(DictSerializable, typ="sim_note"):
    def __init__(self, text=None, about=None, *, data=None):
        self.text = text
        self.about = about
        self._data = data

    @property
    def data(self):
        return self._data


class SizedLink(FileLink, typ="sim_sized_link"):
    def __init__(self, filename, url, size=None):
        super().__init__(filename, url)
        self.size = size


def late_class():
    """A class that the client registers long after the library was first used."""
    class Late(Note, typ="sim_late"):
        def __init__(self, text=None, about=None, *, data=None):
            super().__init__(text, about, data=data)
    return Late


# Classes that a client derives from the library's own
EXTRA = "lab_code"    # what derived classes add to the class they are derived from
EXTRAS = (EXTRA, "bench")
SHOW = {"class": False}  # whether pictures name the very class of an object
_DERIVABLE = [n for n in list(CLASSES) + list(PARTS) if n not in ("Note", "Late", "SizedLink")]
STYLES = ["bare", "field", "property", "skipped"]


def derived_class(base, style, typ=None, extra=EXTRA, sim_id=None, registered=True, on_init=None):
    """A class of the same name derived from base and registered under the same type."""
    ns = {"__module__": "client", "__qualname__": base.__name__}
    kw = {"typ": typ or base.typ} if registered else {}
    if sim_id is not None:
        ns["sim_id"] = sim_id
    if style != "bare":
        ps = [p for p in list(inspect.signature(base.__init__).parameters.values())[1:]
              if p.kind not in (p.VAR_POSITIONAL, p.VAR_KEYWORD)]
        env, args, given, star = {"_base": base}, ["self"], [], False
        for i, p in enumerate(ps):
            if p.kind is p.KEYWORD_ONLY and not star:
                args.append("*")
                star = True
            if p.default is not p.empty:
                env["_d%d" % i] = p.default
                args.append("%s=_d%d" % (p.name, i))
            else:
                args.append(p.name)
            given.append("%s=%s" % (p.name, p.name))
        if not star:
            args.append("*")
        if not any(p.name == extra for p in ps):
            args.append("%s=None" % extra)
        own = extra if style in ("field", "skipped", "picky") else "_" + extra
        lines = ["def __init__(%s):" % ", ".join(args),
                 "    _base.__init__(self, %s)" % ", ".join(given)]
        had = any(p.name == extra for p in ps)
        if not had:
            lines.append("    self.%s = %s" % (own, extra))
        if style == "skipped":
            lines.append("    self._seen = 0")
            kw["skip"] = {"_seen"}
        if style == "picky":
            env["_on_init"] = on_init
            lines.append("    _on_init()")
        exec("\n".join(lines), env)
        ns["__init__"] = env["__init__"]
        if style in ("property", "readonly") and not had:
            ns[extra] = property(lambda self: getattr(self, own),
                                 (lambda self, v: setattr(self, own, v))
                                 if style == "property" else None)
    return type(base)(base.__name__, (base,), ns, **kw)


def derive(seed):
    """From here on this process works with classes of its own in place of some of the library's."""
    if not seed:
        return []
    r = core.rng("derive", seed)
    some = [n for n in _DERIVABLE if r.random() < 0.4]
    r.shuffle(some)
    for name in some:
        base = CLASSES.get(name) or globals()[name]
        style = r.choice(STYLES)
        if name in CLASSES and style == "bare" and r.random() < 0.5:
            style = "field"
        cls = derived_class(base, style)
        globals()[name] = cls
        if name in CLASSES:
            CLASSES[name] = cls
        if name in ATTR_CLS:
            ATTR_CLS[name] = cls
        if style != "bare":
            fields = FIELDS[name] if name in FIELDS else PARTS[name]
            fields.append(EXTRA)
    if r.random() < 0.3:
        derived_class(LinkByUID, "bare")
    return some


def read(x, name):
    return getattr(x, name, None) if name in EXTRAS else getattr(x, name)


def writable(x, name):
    p = getattr(type(x), name, None)
    return p is None or p.fset is not None


def class_id(x):
    return [x.typ, type(x).__dict__.get("sim_id", "lib")]


def kind_of(e):
    return type(e).__name__


# ------------------------------------------------------------------ snapshots
def snap(x, ref):
    """JSON-able picture of x; ref(entity) names the entities it points to."""
    if isinstance(x, enum.Enum):
        return ["enum", type(x).__name__, str(x.value)]
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        return ["f", repr(x)]
    if isinstance(x, BaseEntity):
        return ["ref", ref(x)]
    if isinstance(x, LinkByUID):
        return ["link", x.scope, x.id]
    if isinstance(x, DictSerializable):
        k = type(x).__name__
        names = PARTS.get(k)
        if names is None:
            return ["?", k, repr(x)]
        out = {n: snap(read(x, n), ref) for n in names}
        if SHOW["class"]:
            out["class"] = class_id(x)
        return [k, out]
    if isinstance(x, dict):
        return {"dict": sorted(([snap(k, ref), snap(v, ref)] for k, v in x.items()), key=core.canon)}
    if isinstance(x, (list, tuple)):
        return [snap(y, ref) for y in x]
    if isinstance(x, (set, frozenset)):
        return {"set": sorted((snap(y, ref) for y in x), key=core.canon)}
    return ["?", type(x).__name__, repr(x)]


def entity_snap(e, ref):
    k = kind_of(e)
    out = {"kind": k}
    if SHOW["class"]:
        out["class"] = class_id(e)
    for f in FIELDS[k]:
        out[f] = snap(read(e, f), ref)
    for f in BACK.get(k, ()):
        v = getattr(e, f)
        if isinstance(v, (list, tuple)):
            out["back:" + f] = sorted((snap(y, ref) for y in v), key=core.canon)
        else:
            out["back:" + f] = snap(v, ref)
    return out


def entities_in(x, seen_parts=None):
    """Entities x refers to directly (through attributes, values and containers, not entities)."""
    if isinstance(x, BaseEntity):
        yield x
    elif isinstance(x, LinkByUID):
        return
    elif isinstance(x, DictSerializable):
        for n in PARTS.get(type(x).__name__, ()):
            yield from entities_in(read(x, n))
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from entities_in(k)
            yield from entities_in(v)
    elif isinstance(x, (list, tuple, set, frozenset)):
        for y in x:
            yield from entities_in(y)


def reach(root, back=True):
    """Every entity reachable from root over public attributes, in a deterministic order."""
    seen, order = set(), []
    stack = list(entities_in(root))[::-1]
    while stack:
        e = stack.pop()
        if id(e) in seen:
            continue
        seen.add(id(e))
        order.append(e)
        k = kind_of(e)
        nxt = []
        for f in FIELDS[k]:
            nxt.extend(entities_in(read(e, f)))
        if back:
            for f in BACK.get(k, ()):
                nxt.extend(entities_in(getattr(e, f)))
        stack.extend(nxt[::-1])
    return order


def ukey(e):
    """The name of an entity across processes: all its identifiers, scopes lower-cased."""
    items = sorted((s.lower(), i) for s, i in dict(e.uids).items())
    return "|".join("%s=%s" % x for x in items) if items else "anon-%x" % id(e)


def graph_snap(root):
    """Picture of everything connected to root, keyed by identifiers."""
    nodes = {}
    for e in reach(root):
        k = ukey(e)
        if k in nodes:
            raise core.Violation("duplicate-entity",
                                 "two entities in one graph carry the identifiers %s" % k)
        nodes[k] = entity_snap(e, ukey)
    return {"root": snap(root, ukey), "nodes": nodes}


def population_snap(ents, index=None):
    """Picture of a population of live objects, keyed by position (identity)."""
    if index is None:
        index = {id(e): i for i, e in enumerate(ents)}

    def ref(e):
        return index.get(id(e), "outside:" + kind_of(e))
    return {i: entity_snap(e, ref) for i, e in enumerate(ents)}


def _map_links(x, index):
    if isinstance(x, list):
        if len(x) == 3 and x[0] == "link" and isinstance(x[1], str) and isinstance(x[2], str):
            hit = index.get((x[1].lower(), x[2]))
            return ["ref", hit] if hit is not None else x
        return [_map_links(y, index) for y in x]
    if isinstance(x, dict):
        return {k: _map_links(v, index) for k, v in x.items()}
    return x


def expected_after_load(gs):
    """What a graph snapshot must look like once links inside the document became pointers."""
    index = {}
    for k, n in gs["nodes"].items():
        for s, i in n["uids"]["dict"]:
            index[(s.lower(), i)] = k
    nodes = {}
    for k, n in gs["nodes"].items():
        nodes[k] = {f: (v if f == "uids" else _map_links(v, index)) for f, v in n.items()
                    if not f.startswith("back:")}
    derive_back(nodes)
    return {"root": _map_links(gs["root"], index), "nodes": nodes}


def derive_back(nodes):
    """Fill in the read-only sides and derived names from the writable sides."""
    for k, n in nodes.items():
        kind = n["kind"]
        for f in BACK.get(kind, ()):
            n["back:" + f] = None if f == "output_material" else []
    for k, n in nodes.items():
        kind = n["kind"]
        if kind in ("IngredientSpec", "IngredientRun"):
            p = n["process"]
            if isinstance(p, list) and p[0] == "ref":
                nodes[p[1]]["back:ingredients"].append(["ref", k])
        elif kind in ("MaterialSpec", "MaterialRun"):
            p = n["process"]
            if isinstance(p, list) and p[0] == "ref":
                nodes[p[1]]["back:output_material"] = ["ref", k]
        elif kind == "MeasurementRun":
            m = n["material"]
            if isinstance(m, list) and m[0] == "ref":
                nodes[m[1]]["back:measurements"].append(["ref", k])
        if kind == "IngredientRun":
            s = n["spec"]
            if isinstance(s, list) and s[0] == "ref":
                n["name"] = nodes[s[1]]["name"]
                n["labels"] = nodes[s[1]]["labels"]
    for n in nodes.values():
        for f in ("back:ingredients", "back:measurements"):
            if f in n:
                n[f] = sorted(n[f], key=core.canon)


def diff(a, b, path="", limit=6):
    """Readable list of differences between two snapshots."""
    out = []

    def go(x, y, p):
        if len(out) >= limit:
            return
        if type(x) is not type(y):
            out.append("%s: %s != %s" % (p, core.canon(x)[:160], core.canon(y)[:160]))
        elif isinstance(x, dict):
            for k in sorted(set(x) | set(y), key=str):
                if k not in x:
                    out.append("%s.%s: only on the right: %s" % (p, k, core.canon(y[k])[:160]))
                elif k not in y:
                    out.append("%s.%s: only on the left: %s" % (p, k, core.canon(x[k])[:160]))
                else:
                    go(x[k], y[k], "%s.%s" % (p, k))
        elif isinstance(x, list):
            if len(x) != len(y):
                out.append("%s: %s != %s" % (p, core.canon(x)[:200], core.canon(y)[:200]))
            else:
                for i, (u, v) in enumerate(zip(x, y)):
                    go(u, v, "%s[%d]" % (p, i))
        elif x != y:
            out.append("%s: %r != %r" % (p, x, y))
    go(a, b, path)
    return out


# ------------------------------------------------------------------ generators of contents
WORDS = ["flour", "Bake", "oven 3", "tensile", "x", "Mg-alloy", "a b", "sample_7"]
ODD = ["", "\u00e9\u00f1\u4e2d", "\"quoted\"", "back\\slash", "new\nline", "\u2603\U0001f370", " lead",
       "{\"type\": \"x\"}", "null", "0", "type", "\u0000\u001f", "very long " * 30]
UNITS = ["", "m", "mm", "kg", "g/cm^3", "degC", "K", "m/s**2", "1/s", "mol/l", "percent",
         "kg*m/s^2", "g/(2.5 ml)", "g / 5 ml", "count", "degF", "eV",
         "kg*25*K", "g/.5 ml", "m**2 / 2", "g/(2 ml)/(2.5 ml)", "m/-2.5 s", "1/2e3 m"]
SCOPES = ["auto", "id", "lab", "my scope", "x-1", "seq", "self"]
ELEMENTS = ["Al", "Mg", "Si", "O", "H", "C", "Fe"]
CATS = ["red", "blue", "green", "Red", "", "bleu\u00e9"]


def text(r):
    return r.choice(ODD) if r.random() < 0.25 else r.choice(WORDS) + (
        str(r.randrange(100)) if r.random() < 0.5 else "")


def maybe_text(r):
    return None if r.random() < 0.4 else text(r)


def number(r):
    c = r.random()
    if c < 0.25:
        return float(r.randrange(-5, 6))
    if c < 0.5:
        return r.choice([0.1, 1e-300, 1e300, -0.0, 1 / 3, 123456789.123456789, 5e-324, 2 ** 53 + 1.0])
    if c < 0.6:
        return r.randrange(-10 ** 6, 10 ** 6)
    return r.uniform(-1e3, 1e3)


def tags(r):
    return [text(r) for _ in range(r.choice([0, 0, 1, 2, 3]))]


def file_links(r):
    return [FileLink(text(r), text(r)) if r.random() < 0.85 else
            SizedLink(text(r), text(r), r.choice([None, 0, 7]))
            for _ in range(r.choice([0, 0, 0, 1, 2]))]


def source(r):
    return None if r.random() < 0.5 else PerformedSource(maybe_text(r), maybe_text(r))


def unit(r):
    return r.choice(UNITS)


def value(r):
    c = r.randrange(11)
    if c == 0:
        return NominalReal(number(r), unit(r))
    if c == 1:
        return NormalReal(number(r), abs(number(r)), unit(r))
    if c == 2:
        a, b = sorted([number(r), number(r)])
        return UniformReal(a, b, unit(r))
    if c == 3:
        return NominalInteger(r.choice([0, 1, -7, 2 ** 40, r.randrange(100)]))
    if c == 4:
        a = r.randrange(-50, 50)
        return UniformInteger(a, a + r.randrange(0, 9))
    if c == 5:
        return NominalCategorical(r.choice(CATS))
    if c == 6:
        cats = r.sample(CATS, r.randrange(1, 4))
        if r.random() < 0.3:
            return DiscreteCategorical(cats[0])
        w = [r.choice([0, r.randrange(1, 10), r.randrange(1, 10)]) for _ in cats]
        w[r.randrange(len(w))] += 1
        return DiscreteCategorical({k: x / sum(w) for k, x in zip(cats, w)})
    if c == 7:
        return NominalComposition({k: abs(number(r)) if r.random() < 0.8 else r.choice([0, 0.0]) for k in
                                   r.sample(ELEMENTS + ["water", "type-x"], r.randrange(0, 4))})
    if c == 8:
        return EmpiricalFormula("".join("%s%d" % (e, r.randrange(1, 5)) for e in
                                        r.sample(ELEMENTS, r.randrange(1, 4))))
    if c == 9:
        return Smiles(r.choice(["CC", "c1ccccc1", "C(=O)O", "C/C=C\\C"]))
    return InChI(r.choice(["InChI=1S/CH4/h1H4", "1S/H2O/h1H2", "CH4/h1H4"]))


def quantity(r):
    """A dimensionless value between 0 and 1 (exclusive of edge noise)."""
    c = r.randrange(3)
    x = r.choice([0.0, 1.0, 0.5, r.random()])
    if c == 0:
        return NominalReal(x, "")
    if c == 1:
        return NormalReal(x, 0.1, "")
    return UniformReal(min(x, 0.5), max(x, 0.5), "")


def abs_quantity(r):
    u = r.choice(["kg", "g", "l", "mol", "mm"])
    x = r.choice([0.0, 1.0, 3.25, r.random() * 100])
    return r.choice([NominalReal(x, u), NormalReal(x, 0.5, u), UniformReal(x, x + 1, u)])


def bounds(r):
    c = r.randrange(6)
    if c <= 1:
        a, b = sorted([number(r), number(r)])
        return RealBounds(a, b, unit(r))
    if c == 2:
        a = r.randrange(-20, 20)
        return IntegerBounds(a, a + r.randrange(0, 40))
    if c == 3:
        return CategoricalBounds(set(r.sample(CATS, r.randrange(0, 5))))
    if c == 4:
        return CompositionBounds(set(r.sample(ELEMENTS, r.randrange(0, 5))))
    return MolecularStructureBounds()


def narrower(b, r):
    """Bounds contained in b (by construction)."""
    k = type(b).__name__
    if k == "RealBounds":
        lo, hi = b.lower_bound, b.upper_bound
        c = r.random()
        if c < 0.4:
            return RealBounds(lo, hi, b.default_units)
        mid = lo / 2 + hi / 2
        mid = min(max(mid, lo), hi)
        return RealBounds(lo, mid, b.default_units) if c < 0.7 else RealBounds(mid, hi, b.default_units)
    if k == "IntegerBounds":
        a = r.randint(b.lower_bound, b.upper_bound)
        return IntegerBounds(a, r.randint(a, b.upper_bound))
    if k == "CategoricalBounds":
        cats = sorted(b.categories)
        return CategoricalBounds(set(cats[:r.randint(0, len(cats))]))
    if k == "CompositionBounds":
        cats = sorted(b.components)
        return CompositionBounds(set(cats[:r.randint(0, len(cats))]))
    return MolecularStructureBounds()


def value_in(b, r):
    """A value inside b by construction, or None if there is none."""
    k = type(b).__name__
    if k == "RealBounds":
        x = r.choice([b.lower_bound, b.upper_bound])
        c = r.randrange(3)
        if c == 0:
            return NominalReal(x, b.default_units)
        if c == 1:
            return NormalReal(x, 0.25, b.default_units)
        return UniformReal(b.lower_bound, b.upper_bound, b.default_units)
    if k == "IntegerBounds":
        a = r.randint(b.lower_bound, b.upper_bound)
        return NominalInteger(a) if r.random() < 0.5 else UniformInteger(b.lower_bound, a)
    if k == "CategoricalBounds":
        cats = sorted(b.categories)
        if not cats:
            return None
        c = r.choice(cats)
        return NominalCategorical(c) if r.random() < 0.5 else DiscreteCategorical({c: 1.0})
    if k == "CompositionBounds":
        cats = sorted(b.components)
        if not cats:
            return NominalComposition({})
        c = r.choice(cats)
        return NominalComposition({c: 1.0}) if r.random() < 0.5 or c not in ELEMENTS \
            else EmpiricalFormula(c + "2")
    return Smiles("CC") if r.random() < 0.5 else InChI("InChI=1S/CH4/h1H4")


def value_out(b, r):
    """A value outside b by construction (possibly of another type altogether)."""
    k = type(b).__name__
    if r.random() < 0.25:
        return NominalInteger(3) if k != "IntegerBounds" else NominalCategorical("red")
    if k == "RealBounds":
        if r.random() < 0.3:
            other = "kg" if b.default_units != "kilogram" else "meter"
            return NominalReal(b.lower_bound, other) if other not in b.default_units \
                else NominalCategorical("x")
        lo, hi = b.lower_bound, b.upper_bound
        span = max(1.0, abs(lo), abs(hi))
        if r.random() < 0.5:
            return UniformReal(lo, hi + span, b.default_units)
        return NominalReal(r.choice([lo - span, hi + span]), b.default_units)
    if k == "IntegerBounds":
        if r.random() < 0.5:
            return UniformInteger(b.lower_bound, b.upper_bound + 1)
        return NominalInteger(r.choice([b.lower_bound - 1, b.upper_bound + 1]))
    if k == "CategoricalBounds":
        if b.categories and r.random() < 0.5:
            return DiscreteCategorical({sorted(b.categories)[0]: 0.5, "not there": 0.5})
        return NominalCategorical("not there")
    if k == "CompositionBounds":
        return r.choice([NominalComposition({"Unobtainium": 1.0}), EmpiricalFormula("Zr2")])
    return NominalCategorical("CC")


class World:
    """A population of live objects owned by one simulated client."""

    def __init__(self, *, links=True, case_links=True):
        self.ents = []
        self.by_kind = {k: [] for k in KINDS}
        self.used = set()   # (scope lower, id)
        self.links = links
        self.case_links = case_links
        self.n_outside = 0
        self.loose = []     # attributes and notes that belong to no entity
        self.late = None    # a class that was registered late
        self.frozen = {}    # id -> entity: shared with others, referred to but never edited

    # -------------------------------------------------- bookkeeping
    def add(self, e):
        if id(e) in self.frozen or any(e is x for x in self.ents):
            return e
        self.ents.append(e)
        self.by_kind[kind_of(e)].append(e)
        for s, i in dict(e.uids).items():
            self.used.add((s.lower(), i))
        return e

    def add_all(self, root):
        known = {id(x) for x in self.ents} | set(self.frozen)
        for e in reach(root):
            if id(e) not in known:
                self.ents.append(e)
                self.by_kind[kind_of(e)].append(e)
                for s, i in dict(e.uids).items():
                    self.used.add((s.lower(), i))

    def share(self, e):
        """Refer to e, which belongs to somebody else."""
        self.frozen[id(e)] = e
        self.by_kind[kind_of(e)].append(e)
        for s, i in dict(e.uids).items():
            self.used.add((s.lower(), i))

    def pick(self, r, kind=None):
        pool = self.ents if kind is None else self.by_kind[kind]
        return r.choice(pool) if pool else None

    def new_uid(self, r, have=()):
        """An unused (scope, id) whose scope is not in `have`; ids recur across scopes."""
        have = {s.lower() for s in have}
        scopes = [s for s in SCOPES if s not in have]
        if not scopes:
            return None
        s = r.choice(scopes)
        for _ in range(50):
            i = r.choice(["%d", "u%d", "U%d", "%d "]) % r.randrange(200)
            if (s, i) not in self.used:
                break
        else:
            i = "n%d" % len(self.used)
        self.used.add((s, i))
        c = r.random()
        s = s if c < 0.5 else s.upper() if c < 0.75 else s.title()
        return s, i

    def uids(self, r):
        out = {}
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            u = self.new_uid(r, out)
            if u:
                out[u[0]] = u[1]
        return out

    def link_to(self, e, r):
        """A link to an entity that has identifiers, else None."""
        items = list(dict(e.uids).items())
        if not items:
            return None
        s, i = r.choice(items)
        if self.case_links and r.random() < 0.3:
            s = s.swapcase()
        return LinkByUID(s, i)

    def outside_link(self, r):
        self.n_outside += 1
        return LinkByUID(r.choice(["id", "auto", "ext"]), "outside-%d" % self.n_outside)

    def claimed(self, proc, ignore=None):
        """Whether some material already has (or links to) this process."""
        kind = "MaterialSpec" if kind_of(proc) == "ProcessSpec" else "MaterialRun"
        ids = {(s.lower(), i) for s, i in dict(proc.uids).items()}
        for m in self.by_kind[kind]:
            if m is ignore:
                continue
            p = m.process
            if p is proc:
                return True
            if isinstance(p, LinkByUID) and (p.scope.lower(), p.id) in ids:
                return True
        return False

    def ref(self, r, kind, *, owner=None, field=None):
        """None, an entity of that kind, a link to one, or a link to something outside."""
        c = r.random()
        if c < 0.12:
            return None
        if self.links and c < 0.17:
            return self.outside_link(r)
        pool = self.by_kind[kind]
        if field == "process" and kind_of_owner(owner) in ("MaterialSpec", "MaterialRun"):
            pool = [p for p in pool if not self.claimed(
                p, ignore=owner if not isinstance(owner, str) else None)]
        if not pool:
            return None
        e = r.choice(pool)
        if self.links and c < 0.30:
            lk = self.link_to(e, r)
            if lk is not None:
                return lk
        return e

    def attribute(self, r, cls_name, tmpl=None):
        cls = ATTR_CLS[cls_name]
        t = tmpl if tmpl is not None else self.ref(r, ATTR_TMPL[cls_name])
        if t is not None and isinstance(t, BaseEntity):
            c = r.random()
            v = value_in(t.bounds, r) if c < 0.7 else value_out(t.bounds, r) if c < 0.9 else None
        else:
            v = value(r) if r.random() < 0.9 else None
        name = t.name if isinstance(t, BaseEntity) and r.random() < 0.5 else text(r)
        a = cls(name, template=t, origin=r.choice(list(Origin)), value=v, notes=maybe_text(r),
                file_links=file_links(r))
        if EXTRA in PARTS[cls_name] and r.random() < 0.5 and writable(a, EXTRA):
            a.lab_code = maybe_text(r)
        return a

    def attributes(self, r, cls_name):
        return [self.attribute(r, cls_name) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]

    def prop_and_conds(self, r):
        return [PropertyAndConditions(self.attribute(r, "Property"), self.attributes(r, "Condition"))
                for _ in range(r.choice([0, 1, 1, 2]))]

    def ranges(self, r, cls_name):
        """Template ranges of an object template: [template or link, bounds or None] pairs."""
        out = []
        used = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            t = self.ref(r, ATTR_TMPL[cls_name])
            if t is None or any(t is u for u in used):
                continue
            used.append(t)
            target = t
            if isinstance(t, LinkByUID):
                target = self.find(t, ATTR_TMPL[cls_name])
            c = r.random()
            if isinstance(target, BaseEntity) and c < 0.4:
                out.append((t, narrower(target.bounds, r)) if c < 0.2
                           else [t, narrower(target.bounds, r)])
            elif c < 0.6:
                out.append([t, None])
            else:
                out.append(t)
        return out

    def find(self, link, kind):
        for e in self.by_kind[kind]:
            if any(s.lower() == link.scope.lower() and i == link.id
                   for s, i in dict(e.uids).items()):
                return e
        return None

    def ranged(self, tmpl):
        """Whether some object template restricts this attribute template to a narrower range.

        Changing the bounds under such a range can make the two inconsistent (a known finding)."""
        ids = {(s.lower(), i) for s, i in dict(tmpl.uids).items()}
        for k in ("MaterialTemplate", "ProcessTemplate", "MeasurementTemplate"):
            for e in self.by_kind[k]:
                for f in ("properties", "conditions", "parameters"):
                    if f in FIELDS[k]:
                        for t, b in getattr(e, f):
                            if b is not None and (t is tmpl or (
                                    isinstance(t, LinkByUID) and (t.scope.lower(), t.id) in ids)):
                                return True
        return False

    # -------------------------------------------------- field contents
    def content(self, r, kind, field, owner=None):
        """A valid new content for a field."""
        owner = owner if owner is not None else kind
        if field == "uids":
            return self.uids(r)
        if field == "tags":
            return tags(r)
        if field == "name":
            return text(r)
        if field in ("notes", "description"):
            return maybe_text(r)
        if field == "file_links":
            return file_links(r)
        if field == "bounds":
            return bounds(r)
        if field in ("allowed_names", "allowed_labels", "labels"):
            return [text(r) for _ in range(r.choice([0, 1, 2]))]
        if field in REFS.get(kind, {}):
            return self.ref(r, REFS[kind][field], owner=owner, field=field)
        if field in ("properties", "conditions", "parameters"):
            cls_name = {"properties": "Property", "conditions": "Condition",
                        "parameters": "Parameter"}[field]
            if kind.endswith("Template"):
                return self.ranges(r, cls_name)
            if kind == "MaterialSpec":
                return self.prop_and_conds(r)
            return self.attributes(r, cls_name)
        if field in ("mass_fraction", "volume_fraction", "number_fraction"):
            return None if r.random() < 0.5 else quantity(r)
        if field == "absolute_quantity":
            return None if r.random() < 0.5 else abs_quantity(r)
        if field == "sample_type":
            return r.choice(list(SampleType))
        if field == "source":
            return source(r)
        if field in EXTRAS:
            t = self.pick(r, "PropertyTemplate") if not kind.endswith("Template") else None
            return t if t is not None and r.random() < 0.5 else maybe_text(r)
        raise core.HarnessError("no content for %s.%s" % (kind, field))

    def settable(self, kind):
        out = list(FIELDS[kind])
        if kind == "IngredientRun":
            out.remove("name")
            out.remove("labels")
        return out

    def kwargs(self, r, kind):
        kw = {}
        for f in self.settable(kind):
            if f in ("name", "bounds") or r.random() < 0.7:
                kw[f] = self.content(r, kind, f)
        return kw

    def new(self, r, kind):
        return self.add(CLASSES[kind](**self.kwargs(r, kind)))

    def note(self, r):
        """An object of one of the client's own classes that refers to entities."""
        about = None
        if self.ents:
            some = [self.pick(r) for _ in range(r.randrange(1, 4))]
            about = r.choice([some[0], some, tuple(some), {"a": some[0], "b": some},
                              LinkByUID("id", "zz")])
        cls = self.late if self.late is not None and r.random() < 0.6 else Note
        return cls(maybe_text(r), about,
                   data=r.choice([None, [], {"x": [1, 2.5]}, value(r), bounds(r), ["a", None, True]]))

    def container(self, r, depth=0):
        """Something to serialise: an entity, or nested containers of entities and plain data."""
        c = r.random()
        if depth >= 2 or c < 0.35 or not self.ents:
            if self.loose and r.random() < 0.3:
                return r.choice(self.loose)
            if self.ents and r.random() < 0.85:
                return self.pick(r)
            if self.ents and r.random() < 0.3:
                # a live list of an entity: its tags, attributes, template ranges, ingredients ...
                e = self.pick(r)
                fs = [f for f in FIELDS[kind_of(e)] + BACK.get(kind_of(e), [])
                      if isinstance(read(e, f), list)]
                return getattr(e, r.choice(fs))
            return r.choice([None, 1, 2.5, "txt", True, value(r), bounds(r), LinkByUID("id", "zz")])
        if c < 0.6:
            return [self.container(r, depth + 1) for _ in range(r.randrange(0, 4))]
        if c < 0.75:
            return tuple(self.container(r, depth + 1) for _ in range(r.randrange(0, 4)))
        if c < 0.9:
            return {"%s%d" % (r.choice(["k", "", "uids", "context"]), i): self.container(r, depth + 1)
                    for i in range(r.randrange(0, 4))}
        return list(self.ents)


def kind_of_owner(owner):
    return owner if isinstance(owner, str) else kind_of(owner)
