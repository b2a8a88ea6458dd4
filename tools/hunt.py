#!/usr/bin/env python3
"""hunt.py [id ...]: run the checks against every kept planted bug (in a
scratch copy) and print which checks report it."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i, all_checks):
    d = os.path.join(V, "seeded", i)
    pid = json.load(open(d + "/meta.json"))["property"]
    wt = tempfile.mkdtemp(prefix="hunt_")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", wt + "/repo"],
                       check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=wt + "/repo",
                       check=True)
        ids = [c["property"] for c in json.load(
            open(V + "/MANIFEST.json"))["checks"]] if all_checks else [pid]
        hit = []
        first = ""
        for q in ids:
            r = subprocess.run(
                ["python3", V + "/check.py", q, "--repo", wt + "/repo",
                 "--jobs", "2"], cwd=V, capture_output=True, text=True,
                env=dict(os.environ, QSA_EVIDENCE=wt))
            if r.returncode == 1 and "VIOLATION property=%s" % q in r.stdout:
                hit.append(q)
                if q == pid:
                    m = re.search(r"^(?!VIOLATION).*\S.*$", r.stdout, re.M)
                    first = m.group(0)[:160] if m else ""
            elif r.returncode not in (0, 1):
                hit.append(q + "!rc%d" % r.returncode)
        return i, pid, hit, first
    finally:
        shutil.rmtree(wt)


def main():
    a = sys.argv[1:]
    al = "--all" in a
    ids = [x for x in a if not x.startswith("-")] or sorted(
        os.listdir(V + "/seeded"))
    with ThreadPoolExecutor(4) as ex:
        for i, pid, hit, first in ex.map(lambda i: one(i, al), ids):
            print("%-34s %s %s %s %s" % (
                i, pid, "CAUGHT" if pid in hit else "missed", hit, first),
                flush=True)


if __name__ == "__main__":
    main()
