"""Writes MANIFEST.json from the properties that have a check in sim/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m sim"
TECH = "deterministic simulation with fault injection"
NOTES = {
 "C01": "Seeded simulation of write, crash, restart and load in fresh process images over a simulated disk; the loaded graph is compared with a reference model through public attributes. Explores what the seeds reach, no proof.",
 "C02": "Every dump and load runs against simulated storage with failing, short, torn, lost and zero-filled writes, failing reads, interrupts and failing allocations at arbitrary lines. Assumes no silent bit flips inside well-formed JSON (the format has no checksum).",
 "C03": "Live graphs are compared before and after every serialising call, including failed and interrupted ones; identifiers are tracked over whole histories.",
 "C04": "Sender and receiver in separate process images joined by a simulated network that drops, duplicates, reorders and delays records and restarts the receiver.",
 "C05": "Histories of accepted, rejected and faulted operations, both sides of every two-way link compared with a reference model after every operation.",
 "C06": "Histories of accepted, rejected and faulted operations, the whole population compared with a reference model after every operation.",
 "C07": "Histories of nested level blocks left in every way, with checked assignments compared with a reference model of the level and of containment.",
 "C08": "Histories of unit queries with cache evictions and interrupts, compared with a pristine process answering only the one query.",
 "C09": "Switches of definition files through a simulated file system with failing, short and cut reads; answers and working directory compared with a fresh process.",
 "C10": "Real threads under a seeded scheduler that decides every switch at source-line granularity; every thread's log compared with its run alone. Switches inside one line of library code are not explored.",
 "C11": "Real threads under a seeded scheduler serialise one shared graph; documents and identities are cross-checked. Switches inside one line of library code are not explored.",
 "C12": "The same traces are replayed in processes with different hash seeds, heap layouts and prior work, and their logs compared byte for byte.",
 "C13": "Histories of dictionary operations with failing inputs against a reference model.",
 "C14": "Histories of list operations with failing iterators and failing checks against a plain-list reference model.",
 "C15": "Series of client processes over one simulated disk, each registering its own classes at its own time; injected failures of client constructors, interrupts and memory exhaustion; a reference model of the class table.",
 "C16": "Histories of edits and questions with interrupted questions and vandalised answers, against processes that make the same edits and never ask before; then seeded thread schedules with interrupts, against each thread alone.",
}
NA = {
 "C20": "A pure function of two values: no schedule, time, I/O, crash or history for a simulator to vary, so deterministic simulation has nothing to decide; input generation alone would be property-based testing.",
 "C21": "Numerical correctness of one pure call; depends on inputs only. What depends on history and faults is covered by C08 and C09.",
 "C22": "A pure predicate on two graphs; depends on inputs only, and the simulator deliberately does not use it as an oracle.",
 "C23": "A pure function of a string; depends on inputs only.",
 "C24": "A pure function of one spec graph; depends on inputs only. Its effect on links and on rejected calls is covered by C05 and C06.",
 "C25": "A pure function of a set of entities; depends on inputs only. Its consequence, that documents load, is covered by C01.",
}
have = [c for c in sorted(NOTES) if os.path.exists("%s/sim/props/%s.py" % (V, c.lower()))]
na = [{"property": k, "reason": v} for k, v in sorted(NA.items())]
na += [{"property": c, "reason": "its check is still being built"} for c in sorted(NOTES) if c not in have]
m = {"version": 1,
     "setup_cmd": "PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c \"import sim.seams; sim.seams.import_gemd()\"",
     "checks": [{"property": c, "quick_cmd": "%s check %s" % (PY, c),
                 "thorough_cmd": "VERIF_TIER=thorough %s check %s" % (PY, c),
                 "technique": TECH, "level": "exploration", "level_note": NOTES[c]} for c in have],
     "not_applicable": na,
     "notes": "No hooks in /repo: every seam is reached from outside (see DESIGN.md). fix: commits are listed in known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
