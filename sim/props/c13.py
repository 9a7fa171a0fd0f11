"""C13: identifier scopes stay unique and case-insensitive under any history.

A run is a history of operations on the identifiers of a few entities (and on bare identifier
dictionaries), some refused, some fed by sources that fail midway, against a reference model that is
an ordinary dictionary keyed by lower-cased scope.
"""
import copy
import pickle

from sim import core, seams, world as W
from sim.core import Violation, fork_call

import gemd.json as gj
from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
from gemd.entity.link_by_uid import LinkByUID
from gemd.util import make_index, set_uuids, substitute_objects, substitute_links

ID = "C13"
RUNS = {"quick": 30000, "thorough": 300000}
RULE = "digest of the event log; a run is non-trivial if at least one operation was refused, one " \
       "removed a scope, and some dictionary held two or more scopes"
STATE_MEASURE = "distinct contents of an identifier dictionary (scopes with their case, in order)"
REAL = ["gemd identifiers, links, entities, copying, serialisation"]
STUB = ["sources of identifiers (mappings and iterators that fail at a chosen position)", "entropy"]
ASSUMPTIONS = ["scopes are strings; two scopes are the same if their str.lower() are equal"]
PROBES = ["refused", "source failed", "removed", "replaced", "copied", "second case asked", "link made",
          "link by fallback", "first identifier generated", "pickled", "round trip", "many scopes"]


class SourceError(Exception):
    """The source of the data failed."""


SCOPES = ["id", "ID", "Id", "auto", "AUTO", "my scope", "My Scope", "x-1", "X-1", "\u00e9", "\u00c9",
          "Stra\u00dfe", "STRASSE", "a", "A", "", "items", "update", "self", "seq", "key"]


def a_value(r):
    """Mostly an id; dictionaries that belong to no entity may also hold nothing."""
    c = r.random()
    return None if c < 0.06 else "" if c < 0.1 else "v%d" % r.randrange(12)


def gen(r, tier):
    pool = r.sample(SCOPES, r.randrange(3, 10))
    kinds = ["set"] * 4 + ["add"] * 3 + ["del", "pop", "pop", "popd", "popitem", "clear", "assign",
                                          "assign", "setdefault", "copy", "pickle", "deepcopy", "link",
                                          "tolink", "fromentity", "json", "other", "bad", "lookup",
                                          "index"] + ["update"] * 4 + ["ior"]
    ops = []
    for _ in range(r.randrange(4, 40)):
        o = {"op": r.choice(kinds), "d": r.randrange(4), "s": r.choice(pool),
             "v": a_value(r)}
        if o["op"] in ("update", "ior", "assign"):
            o["items"] = [[r.choice(pool), a_value(r)] for _ in range(r.randrange(4))]
            o["how"] = r.choice(["dict", "pairs", "iter", "mapping", "kwargs", "both"])
            if r.random() < 0.3:
                o["fail"] = r.randrange(len(o["items"]) + 1)
        if o["op"] in ("copy", "pickle", "deepcopy", "other", "assign"):
            o["to"] = r.randrange(4)
            o["cross"] = r.random() < 0.4
        if o["op"] == "bad":
            o["bad"] = r.choice(["int", "none", "tuple", "pairs", "items", "del", "setdefault"])
        ops.append(o)
    return {"ops": ops}


def shrinkable(trace):
    return [["ops"]] + [["ops", i, "items"] for i, o in enumerate(trace["ops"]) if "items" in o]


class BadMapping(dict):
    """A mapping whose values cannot all be read."""

    def __init__(self, items, fail):
        super().__init__(items)
        self.fail = fail
        self.n = 0

    def __getitem__(self, k):
        self.n += 1
        if self.n > self.fail:
            raise SourceError("value cannot be read")
        return super().__getitem__(k)


class Lazy:
    """A read-only mapping read item by item (keys and __getitem__), failing at a position."""

    def __init__(self, items, fail):
        self.data, self.fail, self.n = dict(map(tuple, items)), fail, 0

    def keys(self):
        return list(self.data)

    def __getitem__(self, k):
        if self.fail is not None and self.n >= self.fail:
            raise SourceError("value cannot be read")
        self.n += 1
        return self.data[k]

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)


def pairs(items, fail):
    for i, x in enumerate(items):
        if fail is not None and i >= fail:
            raise SourceError("source ended early")
        yield tuple(x)
    if fail is not None and fail >= len(items):
        raise SourceError("source ended early")


class Model:
    """What an identifier dictionary holds: lower-cased scope -> (scope, id)."""

    def __init__(self, items=()):
        self.d = {}
        for k, v in items:
            self.d[k.lower()] = (k, v)

    def items(self):
        return list(self.d.values())

    def has(self, k):
        return k.lower() in self.d

    def refuses(self, items):
        """Whether adding these (in order) would hold a scope in two cases."""
        seen = {k: v[0] for k, v in self.d.items()}
        for k, _ in items:
            if seen.setdefault(k.lower(), k) != k:
                return True
        return False

    def put(self, k, v):
        self.d[k.lower()] = (k, v)


def variants(s):
    return [v for v in dict.fromkeys([s, s.lower(), s.upper(), s.title(), s.swapcase()])
            if v.lower() == s.lower()]


def check(w, i, why, stats):
    """Everything that can be asked about dictionary i agrees with the model."""
    d, m, e = w.dicts[i], w.models[i], w.ents[i]
    if e is not None:
        d = e.uids
    want = m.items()
    if sorted(d.items()) != sorted(want) or sorted(d) != sorted(k for k, _ in want) or \
            len(d) != len(want) or sorted(d.keys()) != sorted(d) or \
            sorted(d.values(), key=repr) != sorted((v for _, v in want), key=repr) or bool(d) != bool(want) or \
            dict(d) != dict(want):
        raise Violation("contents", "%s: holds %s, expected %s" % (why, list(d.items()), want))
    for k, v in want:
        for q in variants(k):
            stats.hit("probe:second case asked", q != k)
            if q not in d or d[q] != v or d.get(q) != v or d.get(q, "z") != v:
                raise Violation("lookup", "%s: %r is held but asking for %r gives %s, %r"
                                % (why, k, q, q in d, d.get(q)))
            if e is not None:
                lk = LinkByUID(q, v)
                if not (e == lk and lk == e and e == (q, v)) or e == LinkByUID(q, v + "!") or \
                        LinkByUID(q, v + "!") == e or e == (q, v + "!"):
                    raise Violation("link-compare", "%s: entity with %s and link (%r, %r) do not "
                                    "compare as expected" % (why, want, q, v))
    for q in SCOPES[:12]:
        if not m.has(q):
            try:
                d[q]
                found = True
            except KeyError:
                found = False
            if found or q in d or d.get(q) is not None or d.get(q, "z") != "z":
                raise Violation("lookup", "%s: %r is not held but is found (%s)" % (why, q, want))
            if e is not None and (e == LinkByUID(q, "v1") or LinkByUID(q, "v1") == e):
                raise Violation("link-compare", "%s: entity with %s equals a link with scope %r"
                                % (why, want, q))


def attempt(fn):
    try:
        return ["ok", fn()]
    except SourceError:
        return ["source"]
    except Exception as e:  # noqa
        return ["err", type(e).__name__]


class Run:
    def __init__(self):
        self.ents = [W.MaterialRun("m"), W.ProcessSpec("p", uids={}), None, None]
        self.dicts = [None, None, CaseInsensitiveDict(), CaseInsensitiveDict()]
        self.models = [Model() for _ in range(4)]

    def d(self, i):
        return self.ents[i].uids if self.ents[i] is not None else self.dicts[i]


def must(out, what, ok):
    """ok: True (must succeed) or False (must be refused)."""
    if ok and out[0] != "ok":
        raise Violation("refused", "%s was refused: %s" % (what, out))
    if not ok and out[0] == "ok":
        raise Violation("accepted", "%s was accepted" % what)


def run(trace):
    seams.Env(core.derive(trace["seed"], "env")).install()
    w, stats, log, states = Run(), core.Stats(), [], set()
    removed = refused = big = 0
    for op in trace["ops"]:
        k, i, s, v = op["op"], op["d"], op["s"], op["v"]
        stats.hit("steps")
        stats.hit("op:" + k)
        d, m, e = w.d(i), w.models[i], w.ents[i]
        if e is not None:      # an identifier of an entity is a text
            v = v or "v0"
            if "items" in op:
                op = dict(op, items=[[a, b or "v0"] for a, b in op["items"]])
            if op.get("cross") and any(b is None for _, b in w.models[op["to"]].items()):
                log.append([k, "skip"])
                continue
        before = m.items()
        what = "%s %r on %s" % (k, {x: op[x] for x in ("s", "v", "items", "how", "fail", "bad")
                                    if x in op}, before)
        held = m.has(s)
        same = held and m.d[s.lower()][0] == s
        out = None
        if k in ("set", "add"):
            if k == "add" and e is not None:
                out = attempt(lambda: e.add_uid(s, v))
            else:
                out = attempt(lambda: d.__setitem__(s, v))
            must(out, what, not held or same)
            if out[0] == "ok":
                m.put(s, v)
                stats.hit("probe:replaced", same)
        elif k == "del":
            out = attempt(lambda: d.__delitem__(s))
            must(out, what, held)
            m.d.pop(s.lower(), None)
        elif k == "pop":
            out = attempt(lambda: d.pop(s))
            must(out, what, held)
            if held and out[1] != m.d.pop(s.lower())[1]:
                raise Violation("pop", "%s returned %r" % (what, out[1]))
        elif k == "popd":
            out = attempt(lambda: d.pop(s, "dflt"))
            must(out, what, True)
            want = m.d.pop(s.lower())[1] if held else "dflt"
            if out[1] != want:
                raise Violation("pop", "%s returned %r, expected %r" % (what, out[1], want))
        elif k == "popitem":
            out = attempt(lambda: d.popitem())
            must(out, what, bool(before))
            if before:
                if tuple(out[1]) not in [tuple(x) for x in before]:
                    raise Violation("pop", "%s returned %r" % (what, out[1]))
                m.d.pop(out[1][0].lower())
        elif k == "clear":
            out = attempt(lambda: d.clear())
            must(out, what, True)
            m.d.clear()
        elif k == "setdefault":
            out = attempt(lambda: d.setdefault(s, v))
            must(out, what, True)
            want = m.d[s.lower()][1] if held else v
            if out[1] != want:
                raise Violation("lookup", "%s returned %r, expected %r" % (what, out[1], want))
            if not held:
                m.put(s, v)
        elif k in ("update", "ior"):
            items, how, fail = [tuple(x) for x in op["items"]], op["how"], op.get("fail")
            if how in ("dict", "mapping", "kwargs", "both"):
                items = list(dict(items).items())
            if how == "kwargs":
                items = [x for x in items if x[0] not in ("self", "mapping")]
                fail = None
            if how == "both":
                fail = None
            if how in ("dict", "mapping") and fail is not None and not items:
                fail = None
            if how == "dict":
                fn = lambda a=dict(items): d.update(a)  # noqa
                if fail is not None:
                    fn = lambda a=Lazy(items, min(fail, len(items) - 1)): d.update(a)  # noqa
            elif how == "mapping":
                fn = lambda a=Lazy(items, None if fail is None else min(fail, len(items) - 1)): \
                    d.update(a)  # noqa
            elif how == "pairs" and fail is None:
                fn = lambda a=list(items): d.update(a)  # noqa
            elif how in ("iter", "pairs"):
                fn = lambda a=pairs(items, fail): d.update(a)  # noqa
            elif how == "kwargs":
                fn = lambda a=dict(items): d.update(**a)  # noqa
            else:
                half = len(items) // 2
                kw = dict(x for x in items[half:] if x[0] not in ("self", "mapping"))
                items = items[:half] + list(kw.items())
                fn = lambda a=dict(items[:half]), b=kw: d.update(a, **b)  # noqa
            if k == "ior" and how != "kwargs" and how != "both":
                arg = dict(items) if fail is None else pairs(items, fail)

                def fn(arg=arg):
                    x = d
                    x |= arg
            out = attempt(fn)
            if fail is not None:
                stats.hit("probe:source failed")
                stats.hit("fault:source failed")
                if out[0] == "ok":
                    raise Violation("accepted", "%s succeeded although its source failed" % what)
            else:
                final = list(dict(items).items()) if how not in ("iter", "pairs") else \
                    [(a, b) for a, b in dict(items).items()]
                must(out, what, not m.refuses(final))
                if out[0] == "ok":
                    for a, b in final:
                        m.put(a, b)
        elif k == "assign":
            items, fail = list(dict(map(tuple, op["items"])).items()), op.get("fail")
            if e is None:
                src = w.d(op["to"]) if op["cross"] else dict(items)
                items = list(w.models[op["to"]].items()) if op["cross"] else items
                if op["cross"] and op["to"] == i:
                    log.append([k, "skip"])
                    continue
                out = attempt(lambda: CaseInsensitiveDict(src))
                must(out, what, not Model().refuses(items))
                if out[0] == "ok":
                    w.dicts[i] = out[1]
                    w.models[i] = Model(items)
                    out = ["ok"]
            else:
                if op["cross"]:
                    src, items = w.d(op["to"]), w.models[op["to"]].items()
                    if op["to"] == i:
                        log.append([k, "skip"])
                        continue
                elif op["how"] == "kwargs":
                    src, items = None, []
                elif op["how"] in ("iter", "pairs") and items:
                    src, items = tuple(items[0]), items[:1]
                else:
                    src = dict(items)
                out = attempt(lambda: setattr(e, "uids", src))
                must(out, what, not Model().refuses(items))
                if out[0] == "ok":
                    w.models[i] = Model(items)
                    if src is not None and op["cross"] and e.uids is src:
                        raise Violation("shared", "%s: two entities share their identifiers" % what)
        elif k in ("copy", "pickle", "deepcopy"):
            stats.hit("probe:copied")
            stats.hit("probe:pickled", k == "pickle")
            fn = {"copy": lambda: d.copy() if op["cross"] else copy.copy(d),
                  "pickle": lambda: pickle.loads(pickle.dumps(d)),
                  "deepcopy": lambda: copy.deepcopy(d)}[k]
            out = attempt(fn)
            must(out, what, True)
            j = op["to"]
            if w.ents[j] is None and j != i:
                w.dicts[j] = out[1]
                w.models[j] = Model(before)
                check(w, j, what + " (the copy)", stats)
            out = ["ok"]
        elif k == "other":
            j = op["to"]
            if w.ents[j] is None or w.ents[j] is e or any(b is None for _, b in before):
                log.append([k, "skip"])
                continue
            out = attempt(lambda: setattr(w.ents[j], "uids", d))
            must(out, what, True)
            w.models[j] = Model(before)
            check(w, j, what + " (the copy)", stats)
        elif k == "json":
            if e is None or not before:
                log.append([k, "skip"])
                continue
            stats.hit("probe:round trip")
            out = attempt(lambda: gj.loads(gj.dumps(e)) if v < "v5" else copy.deepcopy(e))
            must(out, what, True)
            c = out[1]
            if sorted(c.uids.items()) != sorted(before):
                raise Violation("contents", "%s: after a round trip %s" % (what, list(c.uids.items())))
            w.ents[i] = c
            if any(q not in c.uids for a, _ in before for q in variants(a)):
                raise Violation("lookup", "%s: scopes are not found in another case after a round trip"
                                % what)
            out = ["ok"]
        elif k in ("link", "tolink"):
            if e is None:
                log.append([k, "skip"])
                continue
            fb = k == "tolink"
            out = attempt(lambda: e.to_link(s, allow_fallback=fb))
            must(out, what, held or (fb and bool(before)))
            if out[0] == "ok":
                lk = out[1]
                stats.hit("probe:link made")
                if held and (lk.scope.lower(), lk.id) != (s.lower(), m.d[s.lower()][1]):
                    raise Violation("link", "%s gave the link (%r, %r)" % (what, lk.scope, lk.id))
                if not held:
                    stats.hit("probe:link by fallback")
                if not (m.has(lk.scope) and m.d[lk.scope.lower()][1] == lk.id):
                    raise Violation("link", "%s gave the link (%r, %r)" % (what, lk.scope, lk.id))
                out = ["ok", lk.scope, lk.id]
            none = attempt(lambda: e.to_link())
            must(none, what + " to_link()", bool(before))
        elif k == "fromentity":
            if e is None:
                log.append([k, "skip"])
                continue
            out = attempt(lambda: LinkByUID.from_entity(e, scope=s))
            must(out, what, True)
            lk = out[1]
            if not before:
                stats.hit("probe:first identifier generated")
                m.put(s, lk.id)
                if lk.scope.lower() != s.lower():
                    raise Violation("link", "%s gave the link (%r, %r)" % (what, lk.scope, lk.id))
            if not m.has(lk.scope) or m.d[lk.scope.lower()][1] != lk.id or \
                    (held and lk.scope.lower() != s.lower()):
                raise Violation("link", "%s gave the link (%r, %r)" % (what, lk.scope, lk.id))
            out = ["ok", lk.scope, lk.id]
        elif k == "index":
            if e is None or not before:
                log.append([k, "skip"])
                continue
            ix = make_index([e])
            for a, b in before:
                for q in variants(a):
                    got = substitute_objects([LinkByUID(q, b)], ix, inplace=True)
                    if got[0] is not e:
                        raise Violation("link", "%s: the link (%r, %r) is not resolved" % (what, q, b))
            out = ["ok"]
        elif k == "lookup":
            out = ["ok", s in d, d.get(s)]
        elif k == "bad":
            b = op["bad"]
            if b == "int":
                out = attempt(lambda: d.__setitem__(3, v))
            elif b == "none":
                out = attempt(lambda: d.update({s: v, None: v}))
            elif b == "tuple":
                out = attempt(lambda: d.update([(s, v), ("x", "y", "z")]))
            elif b == "pairs":
                out = attempt(lambda: d.update(7))
            elif b == "items":
                if e is None:
                    out = attempt(lambda: CaseInsensitiveDict({"Qq": "1", "qQ": "2"}))
                else:
                    out = attempt(lambda: setattr(e, "uids", {"Qq": "1", "qQ": "2"}))
            elif b == "del":
                out = attempt(lambda: d.__delitem__("not there"))
            else:
                out = attempt(lambda: d.setdefault(4, v))
            must(out, what, False)
        for j in range(4):
            check(w, j, what if j == i else what + " (another dictionary)", stats)
        if out is not None and out[0] != "ok":
            refused += 1
            stats.hit("probe:refused")
        if len(w.models[i].items()) < len(before):
            removed += 1
            stats.hit("probe:removed")
        n = len(w.models[i].items())
        if n >= 2:
            big += 1
        if n >= 4:
            stats.hit("probe:many scopes")
        states.add(core.digest(w.models[i].items()))
        log.append([k, i, s, [x if isinstance(x, (str, bool, int, type(None))) else str(x)
                              for x in (out or [])], len(w.models[i].items())])
    return {"digest": core.digest(log), "stats": stats, "states": states, "log": log,
            "nontrivial": bool(refused and removed and big)}


def execute(trace):
    return fork_call(run, trace)
