#!/usr/bin/env python3
"""plant.py SPECFILE [id ...]: try planted bugs in a scratch copy of /repo and
keep those that pass the stable tests and that their demonstration exposes.

SPECFILE defines BUGS = [dict(id, property, file, edits=[(old, new), ..],
needs, breaks, demo)].  `demo` is a Python program run from the bug's folder.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SEED = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "seeded")
SH = """#!/bin/bash
# Runs demo.py against the qetpy of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
export PYTHONPATH="$PWD"
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
exec "$py" -W ignore "$here/demo.py"
"""
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")


def run(cmd, cwd, **kw):
    e = dict(ENV, PYTHONPATH=cwd)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True,
                          **kw)


def stable():
    return json.load(open("/opt/vp/BASELINE.json"))["stable"]


def tests_pass(wt):
    r = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
             "no:cacheprovider", "--timeout=300", "-W", "ignore", "-o",
             "junit_family=xunit2", "--junitxml=" + wt + "/.junit.xml"], wt)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py",
                    wt + "/.out.json", "junit:" + wt + "/.junit.xml"],
                   capture_output=True)
    try:
        d = json.load(open(wt + "/.out.json"))
    except OSError:
        return False, r.stdout[-300:]
    ok = set(d.get("passed", []))
    bad = [t for t in stable() if t not in ok]
    return not bad, ", ".join(bad)[:200]


def one(b):
    wt = tempfile.mkdtemp(prefix="plant_")
    tgt = wt + "/repo"
    subprocess.run(["git", "clone", "-q", "/repo", tgt], check=True)
    out = os.path.join(SEED, b["id"])
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(tgt, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], "edit matches %d times: %r" % (
                    s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "diff"], cwd=tgt, capture_output=True,
                               text=True).stdout
        os.makedirs(wt + "/b")
        open(wt + "/b/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(wt + "/b/demo.sh", "w").write(SH)
        c = run(["bash", wt + "/b/demo.sh"], "/repo", timeout=280)
        if c.returncode:
            return b["id"], "demo fails on the unchanged tree: " + \
                (c.stdout + c.stderr)[-400:]
        c = run(["bash", wt + "/b/demo.sh"], tgt, timeout=280)
        if c.returncode == 0:
            return b["id"], "demo passes with the bug"
        msg = (c.stdout + c.stderr).strip().splitlines()[-1:]
        ok, why = tests_pass(tgt)
        if not ok:
            return b["id"], "tests fail: " + why
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(patch)
        shutil.copy(wt + "/b/demo.py", out)
        shutil.copy(wt + "/b/demo.sh", out)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"],
                   "what_it_breaks": b["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        return b["id"], "kept: %s" % msg
    finally:
        shutil.rmtree(wt)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:]
    bugs = [b for b in bugs if not ids or b["id"] in ids]
    with ThreadPoolExecutor(6) as ex:
        for i, m in ex.map(one, bugs):
            print(i, m[:500], flush=True)


if __name__ == "__main__":
    main()
