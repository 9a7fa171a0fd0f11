"""C08: unit answers do not depend on what was asked before.

A run is a history of unit questions in one simulated process.  Every answer is compared with the
answer of a fresh process (a fork of the pristine image) that is asked only that question, and, where
the expression was built from known parts, with plain arithmetic.
"""
from sim import core, seams, inject
from sim.core import Violation, fork_call

seams.import_gemd()

import gemd.units as gu  # noqa: E402
from gemd.entity.value import NominalReal, UniformReal, NormalReal  # noqa: E402
from gemd.entity.bounds import RealBounds  # noqa: E402

ID = "C08"
RUNS = {"quick": 2000, "thorough": 40000}
RULE = "digest of the event log (questions, faults, answers); a run is non-trivial if it asked at " \
       "least 8 questions of which at least 2 had scaling factors and at least one repeated"
STATE_MEASURE = "distinct (kind of question, expression, answer) tuples"
REAL = ["gemd.units", "gemd values and bounds", "pint registry and parser"]
STUB = ["interrupts and failing allocations inside gemd.units (raised at a chosen line)",
        "cache eviction (caches cleared or flooded at chosen points)"]
ASSUMPTIONS = ["fresh process = fork of the image right after importing gemd",
               "numbers are compared to 12 significant digits",
               "definitions are not changed during a run (that is C09)"]
PROBES = ["scaled", "scaled twice", "rejected", "same question again", "interrupted",
          "cache cleared", "flooded", "mangled name", "stored value re-read", "arithmetic checked",
          "multiplied factor"]

# unit -> (factor to base units, dimensions kg, m, s, mol, K)
BASE = {
    "g": (1e-3, (1, 0, 0, 0, 0)), "kg": (1.0, (1, 0, 0, 0, 0)), "gram": (1e-3, (1, 0, 0, 0, 0)),
    "m": (1.0, (0, 1, 0, 0, 0)), "mm": (1e-3, (0, 1, 0, 0, 0)), "meter": (1.0, (0, 1, 0, 0, 0)),
    "cm": (1e-2, (0, 1, 0, 0, 0)), "um": (1e-6, (0, 1, 0, 0, 0)),
    "ml": (1e-6, (0, 3, 0, 0, 0)), "mL": (1e-6, (0, 3, 0, 0, 0)),
    "milliliter": (1e-6, (0, 3, 0, 0, 0)), "l": (1e-3, (0, 3, 0, 0, 0)),
    "s": (1.0, (0, 0, 1, 0, 0)), "min": (60.0, (0, 0, 1, 0, 0)), "mol": (1.0, (0, 0, 0, 1, 0)),
    "N": (1.0, (1, 1, -2, 0, 0)), "Pa": (1.0, (1, -1, -2, 0, 0)), "K": (1.0, (0, 0, 0, 0, 1)),
    "percent": (0.01, (0, 0, 0, 0, 0)),
}
DIMS = ("kilogram", "meter", "second", "mole", "kelvin")
OTHER = ["degC", "degF", "delta_degC", "count", "rad", "eV", "dimensionless", "lb", "in", "%",
         "angstrom", "\u00b5m"]
XS = [1.0, 2.5, -3.0, 1.23456789, 0.0, 1e6, 1, 25, 98.6, 273.15, -40.0, 2, 1e-9]
# spellings of numbers that are easily confused with each other once dots and signs are lost
NUMS = ["2", "2.5", "25", "2.50", "2.05", "-2", "-2.5", "-25", "+2", "2e1", "2e-1", "2E1", "20",
        "2.0", "2.", "1e3", "1e-3", "1000", "1_000", "0.001", ".5", "0.5", "5", "-5", "-.5", ".05",
        "2.5e-3", "25e-4", "10**3", "10^-3", "2*10**3", ".25", "205", "2e10", "3", "33", "3.3"]
LONG = ["1.2345678", "1.2345679", "12345678", "1000001", "1000000", "1234567.5", "0.00000012345678",
        "1" + "0" * 26, "1" + "0" * 28, "0.3333333333333333", "0.33333333", "1.23456789012"]
BAD = ["foo", "gg", "m m**", "?", "m**", "(m", "m)", "2 m", "m 2", "m/(2*3 s)", "m/2**2", "{m}",
       "m#", "lambda", "m;g", "g//ml", "g/0 s", "g/2 foo", "foo/2 ml", "5", "g/2 2 ml", "m/2 s**2",
       "g/2j ml", "g/(2 ml", "2*g/ml", "", " ", "m\n", "g/2 (ml", "g ** (1/2 ml)", "g/ml 2"]
MANGLED = ["g/_2_milliliter", "g/_2_5_milliliter", "__2", "_2", "g/__5_ml", "m/_2e_1", "g/_0_5_ml",
           "m/_2_5e_3_second", "_25_meter"]


def fval(n):
    n = n.replace("^", "**")
    return float(eval(n, {"__builtins__": {}}))  # literals from NUMS only


def scaled_expr(r, nums, units):
    """(text, terms): terms are (sign of the exponent, factor or None, unit or None, power)."""
    lead = r.choice(units + ["1", ""])
    terms = []
    if lead not in ("1", ""):
        terms.append([1, None, lead, 1])
    text = lead
    mult = False
    for k in range(r.choice([1, 1, 2, 2, 3])):
        if k == 0 and lead == "":
            op = ""
        else:
            op = r.choice(["/", " / ", "/", "/", "*", " * "])
        sign = -1 if "/" in op else 1
        # "2.5 * 10**3" is one number in scientific notation
        usable = [n for n in nums if not n.startswith("10")] or ["2.5"]
        if sign < 0 or not terms or terms[-1][2] is not None:
            usable = nums
        c = r.random()
        unit = r.choice(units)
        if op == "":
            text, terms = unit, [[1, None, unit, 1]]
            continue
        if c < 0.65:
            n = r.choice(usable)
            text += op + n + r.choice([" ", " ", "  ", ""]) + unit
            terms.append([sign, n, unit, 1])
            mult = mult or sign > 0
        elif c < 0.8:
            n = r.choice(usable)
            text += op + n
            terms.append([sign, n, None, 1])
            mult = mult or sign > 0
        else:
            p = r.choice([1, 1, 2, 3, -1, -2])
            if p == 1:
                text += op + unit
            else:
                text += op + unit + r.choice(["**", "^", " ** "]) + str(p)
            terms.append([sign, None, unit, p])
    return text, terms


def expression(r, nums, units):
    c = r.random()
    if c < 0.08:
        return r.choice(BAD), None
    if c < 0.12:
        return r.choice(MANGLED), None
    if c < 0.2:
        return r.choice(sorted(BASE)), None
    if c < 0.26:
        return r.choice(OTHER), None
    if c < 0.32:
        return r.choice(units) + r.choice(["/", "*"]) + r.choice(OTHER), None
    if c < 0.37:
        t, terms = scaled_expr(r, nums, units)
        return "(%s)%s" % (t, r.choice(["**2", "^2", "**-1", "/s", "*K"])), None
    t, terms = scaled_expr(r, nums, units)
    return t, terms


def rendered(terms):
    """An expression for the terms (the first has no factor and is not divided by)."""
    text = ""
    for sign, n, unit, p in terms:
        part = (n + " " if n and unit else n or "") + (unit or "") + ("" if p == 1 else "**%d" % p)
        text += ("" if not text else "/" if sign < 0 else " * ") + part
    return text


def sibling(r, terms, nums):
    """The same terms in other units of the same dimensions and with other factors."""
    out = []
    for sign, n, unit, p in terms:
        if unit is not None:
            unit = r.choice([u for u in sorted(BASE) if BASE[u][1] == BASE[unit][1]])
        if n is not None and unit is not None and r.random() < 0.5:
            n = r.choice([m for m in nums if not m.startswith("10")] or ["2"])
        out.append([sign, n, unit, p])
    return rendered(out), out


KINDS = ["parse"] * 4 + ["unit"] * 2 + ["convert"] * 3 + ["base"] * 3 + ["real", "bounds", "within",
         "roundtrip"]


def gen(r, tier):
    nums = r.sample(NUMS, r.choice([2, 3, 4, 6]))
    if r.random() < 0.7:  # make sure that confusable numbers meet
        fam = r.choice([["2", "2.", "2.0", "+2", "-2", "2.5", "25"], [".5", "-5", "0.5", "5", "-.5"],
                        ["2.5", "25", "2.50", "2.05", "205"], ["2e1", "2e-1", "2E1", "20", "2e10"],
                        ["1e3", "1000", "1_000", "10**3", "10^-3", "1e-3"],
                        ["2.5e-3", "25e-4", "2.5", "-2.5", "-25"], ["3", "33", "3.3"], LONG, LONG])
        nums = r.sample(fam, r.randrange(2, len(fam) + 1)) + nums[:1]
    units = r.sample(sorted(BASE), r.choice([2, 3, 4]))
    pool = [expression(r, nums, units) for _ in range(r.randrange(3, 12))]
    for e, t in r.sample(pool, min(len(pool), r.randrange(0, 3))):  # some that can be converted
        if t and t[0][0] > 0 and t[0][1] is None and t[0][2] is not None:
            pool.append(sibling(r, t, nums))
    if r.random() < 0.25:  # units with an offset
        pool += [(u, None) for u in r.sample(["degC", "degF", "K", "degR", "delta_degC", "kelvin",
                                              "degC/m", "mK", "celsius", "kelvin**2/K"], 3)]
    ops = []
    for _ in range(r.randrange(8, 40)):
        c = r.random()
        asked = [o for o in ops if "u" in o]
        if c < 0.05:
            ops.append({"op": "clear", "which": r.choice(["all", "parse_units", "convert_units",
                                                          "get_base_units"])})
        elif c < 0.051:
            ops.append({"op": "flood", "n": r.choice([40, 1100])})
        elif asked and c < 0.25:  # almost the same question again
            o = dict(r.choice(asked))
            o.pop("fault", None)
            o.pop("r", None)
            if "v" in o and r.random() < 0.8:
                if r.random() < 0.7:
                    o["x"] = r.choice(XS)
                else:
                    o["u"], o["v"] = o["v"], o["u"]
                    o.pop("terms", None)
            else:
                o["op"] = r.choice(["parse", "unit", "base", "real", "bounds", "roundtrip"])
                o.pop("v", None)
                o.pop("x", None)
            ops.append(o)
        else:
            e, t = r.choice(pool)
            o = {"op": r.choice(KINDS), "u": e}
            if t is not None:
                o["terms"] = t
            if o["op"] in ("convert", "within"):
                o["v"] = r.choice(pool)[0]
                o["x"] = r.choice(XS)
            if r.random() < 0.12:
                o["fault"] = r.choice(["interrupt", "memory"])
                o["r"] = r.getrandbits(32)
            ops.append(o)
    return {"ops": ops}


def shrinkable(trace):
    return [["ops"]]


def num(x):
    return "%.12g" % x if isinstance(x, (int, float)) else repr(x)


def ask(op):
    """One question; the answer as data."""
    k, u = op["op"], op["u"]
    try:
        if k == "parse":
            return ["ok", gu.parse_units(u)]
        if k == "unit":
            p = gu.parse_units(u, return_unit=True)
            b = gu.get_base_units(p)
            return ["ok", str(p), str(b[0]), num(b[1]), num(b[2])]
        if k == "convert":
            return ["ok", num(gu.convert_units(op["x"], u, op["v"]))]
        if k == "base":
            b = gu.get_base_units(u)
            return ["ok", str(b[0]), num(b[1]), num(b[2])]
        if k == "real":
            v = NominalReal(1.5, u)
            w = UniformReal(1.0, 2.0, v.units)
            return ["ok", v.units, w.units]
        if k == "bounds":
            b = RealBounds(-1.0, 7.0, u)
            return ["ok", b.default_units, num(b.lower_bound), num(b.upper_bound)]
        if k == "within":
            b = RealBounds(-1e3, 1e3, u)
            v = NormalReal(op["x"], 1.0, op["v"])
            c = b.contains(v)
            return ["ok", c] if not c else ["ok", c, b.union(v).default_units,
                                            num(b.union(v).upper_bound)]
        if k == "roundtrip":
            a = gu.parse_units(u)
            return ["ok", a, gu.parse_units(a)] + [num(x) for x in gu.get_base_units(a)[1:]]
    except Exception as e:  # noqa
        return ["err", type(e).__name__]
    raise core.HarnessError(k)


def plain(op):
    return {k: op[k] for k in ("op", "u", "v", "x") if k in op}


def run(trace):
    seams.Env(core.derive(trace["seed"], "env")).install()
    stats = core.Stats()
    out = []
    stored = []
    asked = set()
    for op in trace["ops"]:
        stats.hit("steps")
        stats.hit("op:" + op["op"])
        if op["op"] == "clear":
            for f in ("parse_units", "convert_units", "get_base_units"):
                clear = getattr(getattr(gu, f), "cache_clear", None)
                if clear is not None and op["which"] in ("all", f):
                    clear()
                    stats.hit("probe:cache cleared")
            out.append(None)
            continue
        if op["op"] == "flood":
            for i in range(op["n"]):
                gu.parse_units("m**%d" % (i + 4))
                if i % 9 == 0:
                    gu.convert_units(1.0, "m**%d" % (i % 50 + 4), "mm**%d" % (i % 50 + 4))
            stats.hit("probe:flooded")
            out.append(None)
            continue
        key = core.canon(plain(op))
        if key in asked:
            stats.hit("probe:same question again")
        asked.add(key)
        if op.get("fault"):
            lf = inject.LineFault(int(10 ** core.rng(op["r"]).uniform(0, 2.6)),
                                  inject.EXC[op["fault"]]("injected"))
            try:
                with lf:
                    ask_raw(op)
            except (core.SimInterrupt, MemoryError):
                if lf.fired is None:
                    raise
            except Exception:  # noqa  (the library may wrap or answer; the retry below decides)
                pass
            if lf.fired:
                stats.hit("fault:" + op["fault"])
                stats.hit("probe:interrupted")
        a = ask(op)
        out.append(a)
        if a[0] == "err":
            stats.hit("probe:rejected")
        if op["op"] == "real" and a[0] == "ok":
            stored.append((NominalReal(1.5, op["u"]), RealBounds(0.0, 1.0, op["u"]), op["u"]))
        if op["op"] == "unit" and a[0] == "ok":
            stored.append((gu.parse_units(op["u"], return_unit=True), None, op["u"]))
    # what was stored earlier still means the same
    late = []
    for x, b, u in stored:
        stats.hit("probe:stored value re-read")
        if b is not None:
            q = gu.get_base_units(x.units)
            late.append(["real", u, x.units, b.default_units, num(q[1])])
        else:
            q = gu.get_base_units(x)
            late.append(["unit", u, str(x), str(q[0]), num(q[1])])
    return {"answers": out, "late": late, "stats": stats}


def ask_raw(op):
    k, u = op["op"], op["u"]
    if k in ("parse", "real", "bounds", "roundtrip"):
        return gu.parse_units(u)
    if k == "unit":
        return gu.parse_units(u, return_unit=True)
    if k in ("convert", "within"):
        return gu.convert_units(op["x"], u, op["v"])
    return gu.get_base_units(u)


_memo = {}


def fresh(op):
    """The answer of a process that has been asked nothing else."""
    key = core.canon(plain(op))
    if key not in _memo:
        if len(_memo) > 200000:
            _memo.clear()
        _memo[key] = fork_call(fresh_ask, plain(op))
    return _memo[key]


def fresh_ask(op):
    seams.Env(7).install()
    return ask(op)


def expected(terms):
    """(factor, dimensions) by arithmetic, or None if the factor is too close to call."""
    f, dims = 1.0, [0] * 5
    for sign, n, unit, p in terms:
        g, d = BASE[unit] if unit is not None else (1.0, (0,) * 5)
        if n is not None:
            g = g * fval(n)
        f *= g ** (sign * p)
        dims = [a + sign * p * b for a, b in zip(dims, d)]
    return f, dims


def dims_text(dims):
    return {n: d for n, d in zip(DIMS, dims) if d}


def parse_dims(s):
    """Dimensions out of a base-unit string such as 'kilogram / meter ** 3'."""
    out = {}
    if s == "dimensionless":
        return out
    sign = 1
    toks = s.split(" ")
    i = 0
    while i < len(toks):
        t = toks[i]
        if t == "/":
            sign = -1
        elif t == "*":
            pass
        elif t == "1":
            pass
        else:
            p = 1
            if i + 2 < len(toks) and toks[i + 1] == "**":
                p = float(toks[i + 2])
                i += 2
            out[t] = out.get(t, 0) + sign * p
        i += 1
    return {k: v for k, v in out.items() if v}


def execute(trace):
    res = fork_call(run, trace)
    stats = res["stats"]
    states, log = set(), []
    scaled = 0
    texts = {}
    for op, a in zip(trace["ops"], res["answers"]):
        log.append([op["op"], op.get("u"), op.get("v"), op.get("fault"), a])
        if a is None:
            continue
        states.add(core.digest([plain(op), a]))
        u = op["u"]
        if u in MANGLED:
            stats.hit("probe:mangled name")
        want = fresh(op)
        if a != want:
            raise Violation("history-dependent", "%s gives %s, a fresh process gives %s"
                            % (core.canon(plain(op)), core.canon(a), core.canon(want)))
        if a[0] != "ok":
            continue
        terms = op.get("terms")
        if terms is not None:
            ns = [t[1] for t in terms if t[1] is not None]
            if ns:
                scaled += 1
                stats.hit("probe:scaled")
            if len(ns) > 1:
                stats.hit("probe:scaled twice")
            if any(t[0] > 0 for t in terms if t[1] is not None):
                stats.hit("probe:multiplied factor")
        if op["op"] in ("parse", "real", "roundtrip"):
            # what parsing returned parses to itself and means the same
            s = a[1]
            again = fresh({"op": "parse", "u": s})
            if again != ["ok", s]:
                if finding(s):
                    continue
                raise Violation("not-stable", "parsing %r gives %r, which a fresh process parses to "
                                "%s" % (u, s, core.canon(again)))
            b1, b2 = fresh({"op": "base", "u": u}), fresh({"op": "base", "u": s})
            if not same_base(b1, b2):
                raise Violation("meaning-changed", "%r and the text it parses to, %r, have the base "
                                "units %s and %s" % (u, s, b1, b2))
        if op["op"] == "base" and terms is not None:
            f, dims = expected(terms)
            got = float(a[2])
            if parse_dims(a[1]) != dims_text(dims) or not (
                    f == got or abs(f - got) <= 1e-9 * abs(f)):
                raise Violation("arithmetic", "%r has the base units %s %s, by arithmetic %.12g %s"
                                % (u, a[2], a[1], f, dims_text(dims)))
            stats.hit("probe:arithmetic checked")
    for x in res["late"]:
        if x[0] == "real":
            want = fresh({"op": "real", "u": x[1]})
            base = fresh({"op": "base", "u": x[2]})
            if want[:2] != ["ok", x[2]] or x[3] != x[2] or (base[0] == "ok" and base[2] != x[4]):
                if base[0] == "err" and finding(x[2]):
                    continue
                raise Violation("stored-changed", "a value stored with units %r now reads %s; fresh: "
                                "%s, %s" % (x[1], x[2:], want, base))
        else:
            want = fresh({"op": "unit", "u": x[1]})
            if want[1:4] != [x[2], x[3], x[4]]:
                raise Violation("stored-changed", "a unit object stored for %r now reads %s; fresh: "
                                "%s" % (x[1], x[2:], want))
    return {"digest": core.digest(log), "stats": stats, "states": states,
            "nontrivial": len([a for a in res["answers"] if a]) >= 8 and scaled >= 2, "log": log}


def same_base(a, b):
    if a[0] != "ok" or b[0] != "ok":
        return a == b
    x, y = float(a[2]), float(b[2])
    return a[1] == b[1] and (x == y or abs(x - y) <= 1e-9 * abs(x))


def finding(s):
    """Known finding: a scaled term under a fractional power prints as text that is refused."""
    import re
    return re.search(r"(^|[ *])-?\d[\d.eE-]*( [A-Za-z_]\w*)? \*\* \d*\.\d", s) is not None
