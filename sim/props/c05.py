"""C05: two-way links agree on both sides after any history."""
from sim import edits
from sim.core import fork_call
from sim.props import c06

ID = "C05"
RUNS = {"quick": 12000, "thorough": 250000}
RULE = "digest of the event log (operations, targets, outcomes and the final population); a run is " \
       "non-trivial if it had at least 5 accepted and 2 rejected operations"
STATE_MEASURE = c06.STATE_MEASURE
REAL = c06.REAL
STUB = c06.STUB
ASSUMPTIONS = ["the read-only sides are not edited by the caller",
               "histories of the known findings are not generated (see known_findings.txt)"]
PROBES = []


def gen(r, tier):
    kinds = edits.LINK_KINDS if r.random() < 0.8 else None
    return {"ops": edits.gen(r, edits.C05_OPS, r.randrange(20, 60), kinds),
            "derive": r.getrandbits(40) if r.random() < 0.2 else 0}


shrinkable = c06.shrinkable


def execute(trace):
    return fork_call(c06.run, trace, True)
