"""Author and try planted bugs (development aid; no check uses it).

plant(id, prop, edits, demo, needs, breaks): makes the change in a scratch copy of /repo, runs the
tests and the demonstration there, stores seeded/<id>/ if it qualifies, and runs the checks on the copy.
    python tools/plant.py try ID [CHECK...]   re-try a stored bug against checks
    python tools/plant.py all                 every stored bug against its own property's check
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/no-pycache")


def scratch():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    r = os.path.join(d, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    return d, r


def tests(r):
    try:
        p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=r, timeout=90,
                           env=dict(ENV, PYTHONPATH=r, PYTHONHASHSEED="0"), capture_output=True, text=True)
    except subprocess.TimeoutExpired:
        return False, "the tests hang"
    return p.returncode == 0, p.stdout[-1500:]


def touched_lines(r):
    """Blame of the lines a change removes ('^' marks the original commit)."""
    out = []
    diff = subprocess.run(["git", "diff", "-U0"], cwd=r, capture_output=True, text=True).stdout
    f = None
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m and m.group(2) != "0":
            a, n = int(m.group(1)), int(m.group(2) or 1)
            out += subprocess.run(["git", "blame", "-s", "-L", "%d,+%d" % (a, n), "HEAD", "--", f], cwd=r,
                                  capture_output=True, text=True).stdout.splitlines()
    return out


def demo(r, path):
    p = subprocess.run(["bash", os.path.join(path, "demo.sh")], cwd=r, env=ENV, capture_output=True, text=True,
                       timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-1200:]


def check(r, pid, seed="1", tier="quick"):
    ev = tempfile.mkdtemp(prefix="ev-", dir="/tmp")
    env = dict(ENV, GEMD_SIM_REPO=r, GEMD_SIM_EVIDENCE=ev, VERIF_SEED=seed, VERIF_TIER=tier, PYTHONHASHSEED="0")
    p = subprocess.run([PY, "-m", "sim", "check", pid], cwd=V, env=env, capture_output=True, text=True)
    shutil.rmtree(ev)
    lines = p.stdout.strip().splitlines()
    brief = next((x for x in lines if x.startswith("run ") and "violates" in x), lines[-1] if lines else p.stderr[-500:])
    mini = next((x for x in lines if x.startswith("minimised")), "")
    repl = next((x for x in lines if x.startswith("replay in")), "")
    return p.returncode, brief, mini[:300], repl


def plant(id, prop, edits, demo_py, needs, breaks, checks=None, force=False):
    d, r = scratch()
    try:
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "EDIT DOES NOT MATCH ONCE:", f, s.count(old), repr(old[:80]))
                return False
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        mine = [x for x in touched_lines(r) if not x.startswith("^")]
        if mine:
            print(id, "TOUCHES LINES OF FIX COMMITS", mine)
            return False
        ok, out = tests(r)
        if not ok:
            print(id, "TESTS CATCH IT\n", out)
            return False
        dst = os.path.join(V, "seeded", id)
        os.makedirs(dst, exist_ok=True)
        open(os.path.join(dst, "patch.diff"), "w").write(patch)
        open(os.path.join(dst, "demo.py"), "w").write(demo_py.lstrip("\n"))
        open(os.path.join(dst, "demo.sh"), "w").write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/no-pycache\n'
            'PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(dst, "meta.json"), "w"), indent=1)
        c1, o1 = demo(r, dst)
        c0, o0 = demo("/repo", dst)
        if c1 == 0 or c0 != 0:
            print(id, "DEMO WRONG: with patch %d, without %d\n%s\n%s" % (c1, c0, o1, o0))
            if not force:
                shutil.rmtree(dst)
            return False
        print(id, "stored;", "demo says:", o1.strip().splitlines()[-1][:200] if o1.strip() else "")
        for pid in (checks or [prop]):
            rc, brief, mini, repl = check(r, pid)
            print("   ", pid, "CAUGHT" if rc == 1 else "MISSED rc=%d" % rc, "|", brief[:200], "|", mini, "|", repl)
        return True
    finally:
        shutil.rmtree(d)


def retry(id, checks=None, seed="1"):
    m = json.load(open(os.path.join(V, "seeded", id, "meta.json")))
    d, r = scratch()
    try:
        p = subprocess.run(["git", "apply", os.path.join(V, "seeded", id, "patch.diff")], cwd=r)
        if p.returncode:
            print(id, "DOES NOT APPLY")
            return
        c1, o1 = demo(r, os.path.join(V, "seeded", id))
        if c1 == 0:
            print(id, "DEMO PASSES WITH THE PATCH")
        for pid in checks or [m["property"]]:
            rc, brief, mini, repl = check(r, pid, seed)
            print(id, pid, "CAUGHT" if rc == 1 else "MISSED rc=%d" % rc, "|", brief[:160], "|", mini[:160], "|", repl, flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "try":
        retry(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "all":
        for i in sorted(os.listdir(os.path.join(V, "seeded"))):
            retry(i, sys.argv[2:])
