"""Histories of valid client operations on a World.

An operation is {"op": name, "r": data seed}; all its choices are a pure function of the seed and
of the population it meets, so that an operation stays meaningful when others are removed.
"""
from sim import core, world as W
from sim.core import Violation

from gemd.builders import make_node, add_edge, add_measurement, add_attribute
from gemd.entity.util import make_instance
from gemd.util import set_uuids, substitute_links, substitute_objects, make_index, flatten
from gemd.entity.link_by_uid import LinkByUID

KIND_WEIGHTS = {
    "PropertyTemplate": 3, "ConditionTemplate": 3, "ParameterTemplate": 3, "MaterialTemplate": 2,
    "ProcessTemplate": 2, "MeasurementTemplate": 2, "MaterialSpec": 4, "ProcessSpec": 4,
    "IngredientSpec": 4, "MeasurementSpec": 3, "MaterialRun": 5, "ProcessRun": 5,
    "IngredientRun": 5, "MeasurementRun": 5}
_KINDS = list(KIND_WEIGHTS)
_KW = list(KIND_WEIGHTS.values())

LIST_FIELDS = ("tags", "file_links", "labels", "properties", "conditions", "parameters",
               "allowed_names", "allowed_labels")

OPS = {"new": 12, "set": 8, "list": 5, "uid": 2, "attr": 3, "node": 3, "edge": 4, "measure": 2,
       "addattr": 2, "instance": 1, "relink": 1, "unlink": 1, "value": 2, "loose": 1}


def gen_op(r, ops=None):
    ops = ops or OPS
    return {"op": r.choices(list(ops), list(ops.values()))[0], "r": r.getrandbits(40)}


def gen_ops(r, n, ops=None):
    return [gen_op(r, ops) for _ in range(n)]


def list_element(w, r, e, field):
    """One valid element for a list field of e."""
    kind = W.kind_of(e)
    for _ in range(6):
        c = w.content(r, kind, field, e)
        if c:
            return c[0]
    return None


def attrs_of(e):
    """Attributes held by an entity (objects, not copies)."""
    out = []
    kind = W.kind_of(e)
    if kind.endswith("Template"):
        return out
    for f in ("properties", "conditions", "parameters"):
        if f in W.FIELDS[kind]:
            for a in getattr(e, f):
                if W.kind_of(a) == "PropertyAndConditions":
                    out.append(a.property)
                    out.extend(a.conditions)
                else:
                    out.append(a)
    return out


def edit_list(lst, r, elem, elems):
    """One valid list operation; returns its name.  Mirrors what it does on a plain-list model."""
    c = r.randrange(11)
    n = len(lst)
    if c == 0 and elem is not None:
        lst.append(elem)
        return "append"
    if c == 1:
        lst.extend(elems)
        return "extend"
    if c == 2:
        lst.extend(x for x in elems)
        return "extend-iter"
    if c == 3 and elem is not None:
        lst.insert(r.randrange(-n - 1, n + 2), elem)
        return "insert"
    if c == 4 and n and elem is not None:
        lst[r.randrange(-n, n)] = elem
        return "setitem"
    if c == 5 and n:
        lst.pop(r.randrange(-n, n))
        return "pop"
    if c == 6 and n:
        del lst[r.randrange(-n, n)]
        return "del"
    if c == 7:
        lst.reverse()
        return "reverse"
    if c == 8:
        lst.clear()
        return "clear"
    if c == 9:
        i = r.randrange(n + 1)
        j = r.randrange(i, n + 1)
        lst[i:j] = elems
        return "slice"
    if c == 10 and n:
        del lst[r.randrange(n):]
        return "delslice"
    return "none"


def chain(w, r, n):
    """A long production chain: material -> ingredient -> process -> material ..."""
    prev = None
    for i in range(n):
        p = w.add(W.ProcessRun("p%d" % i))
        if prev is not None:
            w.add(W.IngredientRun(material=prev, process=p))
        prev = w.add(W.MaterialRun("m%d" % i, process=p))
    return prev


def apply(w, op, stats=None):
    """Perform one valid operation; returns a JSON-able description of what happened."""
    r = core.rng("op", op["r"])
    name = op["op"]
    if stats is not None:
        stats.hit("op:" + name)
    if name == "new":
        kind = op.get("kind") or r.choices(_KINDS, _KW)[0]
        w.new(r, kind)
        return [name, kind]
    if name == "chain":
        chain(w, r, op["n"])
        return [name, op["n"]]
    if name == "node":
        kw = {}
        t = w.pick(r, "ProcessTemplate")
        if t is not None and r.random() < 0.6:
            kw["process_template"] = t
        t = w.pick(r, "MaterialTemplate")
        if t is not None and r.random() < 0.6:
            kw["material_template"] = t
        if r.random() < 0.3:
            kw["process_name"] = W.text(r)
        w.add_all(make_node(W.text(r), **kw))
        return [name]
    if not w.ents:
        return [name, "skip"]
    if name == "loose" and r.random() < 0.4:
        w.loose.append(w.note(r))
        return [name, type(w.loose[-1]).__name__]
    if name == "loose":
        k = r.choice(["Property", "Condition", "Parameter", "PropertyAndConditions"])
        w.loose.append(w.attribute(r, k) if k != "PropertyAndConditions" else
                       W.PropertyAndConditions(w.attribute(r, "Property"),
                                               w.attributes(r, "Condition")))
        return [name, k]
    if name == "set":
        e = w.pick(r)
        kind = W.kind_of(e)
        f = r.choice(w.settable(kind))
        if f == "bounds" and w.ranged(e):
            return [name, kind, f, "skip"]
        setattr(e, f, w.content(r, kind, f, e))
        return [name, kind, f]
    if name == "list":
        e = w.pick(r)
        kind = W.kind_of(e)
        fields = [f for f in W.FIELDS[kind] if f in LIST_FIELDS and
                  not (kind == "IngredientRun" and f == "labels")]
        if not fields:
            return [name, "skip"]
        f = r.choice(fields)
        elem = list_element(w, r, e, f)
        elems = list(w.content(r, kind, f, e))
        return [name, kind, f, edit_list(getattr(e, f), r, elem, elems)]
    if name == "uid":
        e = w.pick(r)
        have = dict(e.uids)
        if have and r.random() < 0.25:
            s = r.choice(sorted(have))
            e.uids.pop(s.swapcase())
            return [name, "pop"]
        u = w.new_uid(r, have)
        if u is None:
            return [name, "skip"]
        e.add_uid(*u)
        return [name, "add"]
    if name == "attr":
        pool = [e for e in w.ents if attrs_of(e)]
        if not pool:
            return [name, "skip"]
        a = r.choice(attrs_of(r.choice(pool)))
        cls_name = type(a).__name__
        f = r.choice(["value", "notes", "origin", "template", "file_links", "name"])
        if f == "value":
            t = a.template
            if isinstance(t, W.BaseEntity):
                a.value = r.choice([W.value_in, W.value_out])(t.bounds, r)
            else:
                a.value = W.value(r)
        elif f == "notes":
            a.notes = W.maybe_text(r)
        elif f == "name":
            a.name = W.text(r)
        elif f == "origin":
            a.origin = r.choice(list(W.Origin)) if r.random() < 0.5 else r.choice(
                ["measured", "Predicted", "summary"])
        elif f == "template":
            a.template = w.ref(r, W.ATTR_TMPL[cls_name])
        else:
            a.file_links = W.file_links(r)
        return [name, cls_name, f]
    if name == "value":
        # edit the innards of a stored value or of the bounds of a template
        ts = [e for e in w.ents if W.kind_of(e) in W.ATTR_TMPL.values()]
        if not ts:
            return [name, "skip"]
        t = r.choice(ts)
        if w.ranged(t):
            return [name, "skip"]
        t.bounds = W.bounds(r)
        return [name, "bounds"]
    if name == "edge":
        outs = [m for m in w.by_kind["MaterialRun"] if W.kind_of(m.spec) == "MaterialSpec"
                and m.spec.process is not None and m.process is not None]
        ins = [m for m in w.by_kind["MaterialRun"] if m.spec is not None]
        if not outs or not ins:
            return [name, "skip"]
        kw = {}
        if r.random() < 0.5:
            kw["name"] = W.text(r)
        if r.random() < 0.4:
            kw[r.choice(["mass_fraction", "number_fraction", "volume_fraction"])] = \
                r.choice([W.quantity(r), 0.5])
        if r.random() < 0.3:
            kw["absolute_quantity"] = W.abs_quantity(r)
        w.add_all(add_edge(r.choice(ins), r.choice(outs), **kw))
        return [name]
    if name == "measure":
        m = w.pick(r, "MaterialRun")
        if m is None:
            return [name, "skip"]
        t = w.pick(r, "MeasurementTemplate") if r.random() < 0.5 else None
        attrs = [w.attribute(r, r.choice(["Property", "Condition", "Parameter"]))
                 for _ in range(r.randrange(3))]
        w.add_all(add_measurement(m, name=W.text(r), template=t, attributes=attrs))
        return [name]
    if name == "addattr":
        e = w.pick(r)
        kind = W.kind_of(e)
        if kind.endswith("Template"):
            return [name, "skip"]
        fields = [f for f in ("properties", "conditions", "parameters") if f in W.FIELDS[kind]]
        if not fields:
            return [name, "skip"]
        f = r.choice(fields)
        t = w.pick(r, {"properties": "PropertyTemplate", "conditions": "ConditionTemplate",
                       "parameters": "ParameterTemplate"}[f])
        if t is None:
            return [name, "skip"]
        v = W.value_in(t.bounds, r)
        if v is None:
            return [name, "skip"]
        add_attribute(e, t, v)
        return [name, kind, f]
    if name == "instance":
        specs = [e for k in ("MaterialSpec", "ProcessSpec", "IngredientSpec", "MeasurementSpec")
                 for e in w.by_kind[k]]
        specs = [s for s in specs if _closed(s)]
        if not specs:
            return [name, "skip"]
        s = r.choice(specs)
        if len(W.reach(s)) > 60:
            return [name, "skip"]
        w.add_all(make_instance(s))
        return [name, W.kind_of(s)]
    if name == "unlink":
        e = w.pick(r)
        set_uuids(e, r.choice(["auto", "id"]))
        note_uids(w)
        substitute_links(e, r.choice([None, "auto", "lab"]), inplace=True)
        return [name, W.kind_of(e)]
    if name == "relink":
        e = w.pick(r)
        pool = list(w.ents) if r.random() < 0.5 else [w.pick(r)]
        substitute_objects(e, make_index(pool), inplace=True)
        return [name, W.kind_of(e)]
    raise core.HarnessError("unknown op %r" % name)


def note_uids(w):
    for e in w.ents:
        for s, i in dict(e.uids).items():
            w.used.add((s.lower(), i))


def _closed(spec):
    """Whether make_instance can walk the spec (no links on its path)."""
    seen, stack = set(), [spec]
    while stack:
        s = stack.pop()
        if id(s) in seen:
            continue
        seen.add(id(s))
        k = W.kind_of(s)
        nxt = []
        if k == "MaterialSpec":
            nxt = [s.process]
        elif k == "IngredientSpec":
            nxt = [s.material]
        elif k == "ProcessSpec":
            nxt = list(s.ingredients)
        for x in nxt:
            if x is None:
                continue
            if isinstance(x, LinkByUID):
                return False
            stack.append(x)
    return True
