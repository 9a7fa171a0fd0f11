"""Command line: check, replay, determinism, show.

  python -m sim check C01            one check (tier from VERIF_TIER, seed from VERIF_SEED)
  python -m sim replay FILE          re-run a replay file; exit 1 if the violation is reproduced
  python -m sim trace C01 INDEX      print the trace and event log of one run
  python -m sim determinism [N]      run N seeds of every property repeatedly and compare the logs
"""
import importlib
import json
import mmap
import os
import pickle
import struct
import subprocess
import sys
import traceback

from sim import core
from sim.core import Violation, HarnessError, _real_time

EVIDENCE = os.environ.get("GEMD_SIM_EVIDENCE", os.path.join(core.VERIF, "evidence"))


def load_prop(pid):
    from sim import seams
    seams.import_gemd()
    return importlib.import_module("sim.props." + pid.lower())


def run_index(prop, seed, index, tier):
    """Generate and execute run number `index`; returns (trace, result or Violation)."""
    tseed = core.derive("run", prop.ID, seed, index)
    trace = prop.gen(core.rng("gen", tseed), tier)
    trace["seed"] = tseed
    # A trace is data: what runs is exactly what a replay file would hold
    trace = json.loads(json.dumps(trace))
    return trace, execute(prop, trace)


def execute(prop, trace):
    try:
        return prop.execute(trace)
    except Violation as v:
        return v


# ---------------------------------------------------------------- parallel batch
def batch(prop, seed, tier, runs, workers, offset=0):
    """Run indexes offset..offset+runs on forked workers; results merged in index order."""
    shared = mmap.mmap(-1, 8)
    shared[:8] = struct.pack("q", 1 << 60)
    pipes = []
    core.freeze_heap()
    sys.stdout.flush()
    for w in range(workers):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                for r, _, _ in pipes:
                    os.close(r)
                out = os.fdopen(wfd, "wb")
                for i in range(w, runs, workers):
                    if i > struct.unpack("q", shared[:8])[0]:
                        break
                    try:
                        trace, res = run_index(prop, seed, offset + i, tier)
                        if isinstance(res, Violation):
                            if i < struct.unpack("q", shared[:8])[0]:
                                shared[:8] = struct.pack("q", i)
                            rec = (i, "violation", trace, res.as_dict())
                        else:
                            rec = (i, "ok", trace if i < 2 else None, res)
                    except BaseException:  # noqa
                        rec = (i, "harness", None, traceback.format_exc())
                    pickle.dump(rec, out)
                    out.flush()
                out.close()
            except BaseException:  # noqa
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wfd)
        pipes.append((rfd, pid, w))
    records = {}
    bad_exit = []
    import threading

    def drain(rfd, pid, w):
        f = os.fdopen(rfd, "rb")
        while True:
            try:
                rec = pickle.load(f)
            except EOFError:
                break
            records[rec[0]] = rec
        f.close()
        _, status = os.waitpid(pid, 0)
        if status != 0:
            bad_exit.append((w, status))
    ts = [threading.Thread(target=drain, args=p) for p in pipes]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return [records[i] for i in sorted(records)], bad_exit


# ---------------------------------------------------------------- minimisation
def ddmin(items, test, budget):
    """Classic delta debugging on a list; `test(list)` says whether the violation persists."""
    n = 2
    while len(items) >= 1 and budget[0] > 0:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and budget[0] > 0:
            cand = items[:i] + items[i + size:]
            budget[0] -= 1
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                reduced = True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def get_path(t, path):
    for k in path:
        t = t[k]
    return t


def with_path(trace, path, val):
    t = json.loads(json.dumps(trace))
    x = t
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = val
    return t


def minimise(prop, trace, cls, seconds=90, budget=600):
    budget = [budget]
    end = _real_time() + seconds

    def fails(t):
        if _real_time() > end:
            budget[0] = 0
            return False
        try:
            res = execute(prop, t)
        except HarnessError:
            return False
        return isinstance(res, Violation) and res.cls == cls

    if trace.get("derive") and fails(dict(trace, derive=0)):
        trace = dict(trace, derive=0)
    for _ in range(3):
        before = core.canon(trace)
        i = 0
        while i < len(prop.shrinkable(trace)):  # reducing one list can remove others
            path = prop.shrinkable(trace)[i]
            i += 1
            items = get_path(trace, path)
            items = ddmin(items, lambda c: fails(with_path(trace, path, c)), budget)
            trace = with_path(trace, path, items)
        # drop faults one by one
        for path in prop.shrinkable(trace):
            for i, op in enumerate(get_path(trace, path)):
                if isinstance(op, dict) and op.get("fault") is not None:
                    cand = with_path(trace, list(path) + [i, "fault"], None)
                    if fails(cand):
                        trace = cand
        if core.canon(trace) == before or budget[0] <= 0:
            break
    return trace


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    out = []
    path = os.path.join(core.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                # finding: property=C08 match=<substring of "class detail"> :: description
                rest = line.split(" ", 2)[2]
                match, _, desc = rest.partition(" :: ")
                out.append((match[len("match="):], desc))
    return out


def write_replay(prop, trace, v, name):
    d = os.path.join(EVIDENCE, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump({"property": prop.ID, "trace": trace, "violation": v}, f, indent=1, sort_keys=True)
    return path


def check(pid):
    start = _real_time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    prop = load_prop(pid)
    runs = prop.RUNS[tier]
    if os.environ.get("GEMD_SIM_RUNS"):
        runs = int(os.environ["GEMD_SIM_RUNS"])
    workers = int(os.environ.get("GEMD_SIM_WORKERS", min(8, os.cpu_count() or 1)))
    print("check %s tier=%s seed=%d runs=%d workers=%d repo=%s" % (pid, tier, seed, runs, workers,
                                                                   core.REPO))
    if hasattr(prop, "prepare"):
        prop.prepare()
    records, bad_exit = batch(prop, seed, tier, runs, workers)
    known = known_findings(pid)
    stats = core.Stats()
    digests, states, samples = set(), set(), []
    evaluations = nontrivial = 0
    violation = None
    harness = []
    known_hit = {}
    for i, kind, trace, res in records:
        evaluations += 1
        if kind == "harness":
            harness.append((i, res))
        elif kind == "violation":
            text = "%s %s" % (res["class"], res["detail"])
            hit = next((d for m, d in known if m and m in text), None)
            if hit is not None:
                known_hit[hit] = known_hit.get(hit, 0) + 1
            elif violation is None:
                violation = (i, trace, res)
        else:
            stats.merge(res["stats"])
            if res.get("nontrivial", True):
                digests.add(res["digest"])
            states.update(res.get("states", ()))
            if len(samples) < 2 and trace is not None:
                samples.append({"index": i, "seed": trace["seed"],
                                "trace": _clip(trace), "log": res.get("log", [])[:25]})
    wall_runs = _real_time() - start
    if hasattr(prop, "aggregate") and violation is None:
        # cross-process comparisons that need the whole batch
        try:
            extra = prop.aggregate(seed, tier, records, stats)
        except Violation as v:
            extra = (v.data["index"], v.data["trace"], v.as_dict())
        if extra is not None:
            violation = extra
    for match, desc in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, desc))
    code = 0
    if violation is not None:
        i, trace, v = violation
        print("run %d violates: %s\n%s" % (i, v["class"], v["detail"]))
        small = trace
        try:
            small = minimise(prop, trace, v["class"])
            res = execute(prop, small)
            if isinstance(res, Violation):
                v = res.as_dict()
            else:
                small = trace
        except HarnessError as e:
            print("minimisation stopped: %s" % e)
        path = write_replay(prop, small, v, "%s-%d-%d.json" % (pid, seed, i))
        env = dict(os.environ)
        sub = subprocess.run([sys.executable, "-m", "sim", "replay", path], cwd=core.VERIF, env=env,
                             capture_output=True, text=True)
        print("minimised: %s" % v["detail"])
        print("replay in a fresh process: %s" % ("reproduced" if sub.returncode == 1 else
                                                 "exit %d\n%s" % (sub.returncode, sub.stdout[-2000:])))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        code = 1
    elif harness or bad_exit or evaluations != runs:
        for i, tb in harness[:3]:
            print("HARNESS ERROR in run %d:\n%s" % (i, tb))
        print("harness errors: %d, worker failures: %r, runs: %d of %d"
              % (len(harness), bad_exit, evaluations, runs))
        code = 2
    wall = _real_time() - start
    fault_counts = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(digests),
        "rule": prop.RULE,
        "samples": samples or [{"violation": violation[2] if violation else None}],
        "simulated_runs": evaluations,
        "runs_per_hour": int(evaluations / max(wall_runs, 1e-6) * 3600),
        "seeds": "one per run, derived from VERIF_SEED=%d and the run index" % seed,
        "simulated_steps": stats.get("steps", 0),
        "simulated_seconds": round(stats.get("simtime", 0), 3),
        "faults_injected": fault_counts,
        "operations": {k[3:]: v for k, v in sorted(stats.items()) if k.startswith("op:")},
        "probes": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")},
        "distinct_states": len(states),
        "distinct_states_measure": prop.STATE_MEASURE,
        "components_real": prop.REAL,
        "components_stubbed": prop.STUB,
        "known_findings_hit": known_hit,
        "workers": workers,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
          "assumptions": prop.ASSUMPTIONS, "wall_s": round(wall, 2),
          "violations": 1 if violation is not None else 0}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s: %d runs, %d distinct non-trivial, %d distinct states, faults %s, %.1f s -> exit %d"
          % (pid, evaluations, len(digests), len(states), json.dumps(fault_counts), wall, code))
    zero = [p for p in getattr(prop, "PROBES", ()) if not stats.get("probe:" + p)]
    if zero and code == 0:
        print("note: probes that never fired in this batch: %s" % ", ".join(zero))
    return code


def _clip(trace):
    s = json.dumps(trace)
    return trace if len(s) < 6000 else {"clipped": s[:6000]}


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    prop = load_prop(rec["property"])
    if hasattr(prop, "prepare"):
        prop.prepare()
    res = execute(prop, rec["trace"])
    if isinstance(res, Violation):
        same = res.cls == rec["violation"]["class"]
        print("violation %s: %s\n%s" % ("reproduced" if same else "DIFFERENT", res.cls, res.detail))
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        return 1
    print("no violation")
    return 0


def show(pid, index):
    prop = load_prop(pid)
    if hasattr(prop, "prepare"):
        prop.prepare()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    trace, res = run_index(prop, seed, index, os.environ.get("VERIF_TIER", "quick"))
    print(json.dumps(trace, indent=1))
    if isinstance(res, Violation):
        print("VIOLATION", res.cls, res.detail)
        return 1
    print(json.dumps(res, indent=1, default=repr))
    return 0


# ---------------------------------------------------------------- determinism proof
def digests_of(pids, seed, n):
    out = {}
    for pid in pids:
        prop = load_prop(pid)
        if hasattr(prop, "prepare"):
            prop.prepare()
        workers = int(os.environ.get("GEMD_SIM_WORKERS", min(8, os.cpu_count() or 1)))
        records, bad = batch(prop, seed, "quick", n, workers)
        for i, kind, _, res in records:
            out["%s/%d" % (pid, i)] = (kind, res["digest"] if kind == "ok" else
                                       res["class"] if kind == "violation" else res[-300:])
    return out


def determinism(n, pids):
    """The same seeds must give the same event logs in other processes, worker counts, hash seeds."""
    variants = [("0", "8"), ("0", "3"), ("1", "8"), ("12345", "1"), ("random", "5")]
    ref = None
    bad = 0
    for hs, workers in variants:
        env = dict(os.environ, PYTHONHASHSEED=hs, GEMD_SIM_WORKERS=workers)
        sub = subprocess.run([sys.executable, "-m", "sim", "_digests", str(n)] + pids,
                             cwd=core.VERIF, env=env, capture_output=True, text=True)
        if sub.returncode != 0:
            print(sub.stdout[-2000:], sub.stderr[-2000:])
            return 2
        got = json.loads(sub.stdout.strip().splitlines()[-1])
        if ref is None:
            ref = got
        d = [k for k in sorted(set(ref) | set(got)) if ref.get(k) != got.get(k)]
        kinds = {}
        for v in got.values():
            kinds[v[0]] = kinds.get(v[0], 0) + 1
        print("hashseed=%s workers=%s: %d runs %s, %d differ from the first variant %s"
              % (hs, workers, len(got), kinds, len(d), d[:5]))
        bad += len(d)
    return 1 if bad else 0


ALL = ["C%02d" % i for i in range(1, 17)]


def main(argv):
    cmd = argv[0]
    if cmd == "check":
        return check(argv[1])
    if cmd == "replay":
        return replay(argv[1])
    if cmd == "trace":
        return show(argv[1], int(argv[2]))
    if cmd == "_digests":
        print(json.dumps(digests_of(argv[2:] or ALL, int(os.environ.get("VERIF_SEED", "1")),
                                    int(argv[1]))))
        return 0
    if cmd == "determinism":
        return determinism(int(argv[1]) if len(argv) > 1 else 40, argv[2:] or ALL)
    print(__doc__)
    return 2
