"""C06: a rejected edit leaves no trace and an accepted one changes only its target."""
from sim import core, seams, edits, world as W
from sim.core import fork_call

ID = "C06"
RUNS = {"quick": 20000, "thorough": 250000}
RULE = "digest of the event log (operations, targets, outcomes and the final population); a run is " \
       "non-trivial if it had at least 5 accepted and 2 rejected operations"
STATE_MEASURE = "distinct (operation, class and attribute edited, outcome, level) tuples"
REAL = ["all of gemd (entities, attributes, values, bounds, builders, util, json)", "pint"]
STUB = ["entropy", "clock", "the caller's iterators and mappings (fail at a chosen element)"]
ASSUMPTIONS = ["edits go through the public API (attributes, lists, dictionaries, builders); parts "
               "(attributes, values, bounds) are not shared between entities by the caller",
               "histories of the known findings are not generated (see known_findings.txt)"]
PROBES = []


def gen(r, tier):
    return {"ops": edits.gen(r, edits.C06_OPS, r.randrange(15, 45)),
            "derive": r.getrandbits(40) if r.random() < 0.2 else 0}


def shrinkable(trace):
    return [["ops"]]


def run(trace, link_only=False):
    seams.Env(trace["seed"]).install()
    W.derive(trace.get("derive"))
    stats = core.Stats()
    eng = edits.Engine(stats, link_only)
    log, states = [], set()
    for op in trace["ops"]:
        out = eng.step(op)
        log.append(out)
        states.add(core.digest([x for x in out if not isinstance(x, int)] + [eng.level]))
    log.append(core.digest([eng.model[i] for i in sorted(eng.model)]))
    return {"digest": core.digest(log), "stats": stats, "states": states,
            "nontrivial": eng.accepted >= 5 and eng.rejected >= 2, "log": log}


def execute(trace):
    return fork_call(run, trace)
