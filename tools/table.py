#!/usr/bin/env python3
"""table.py [--spec FILE] [--all | --own] [id ...]: which checks report which planted bug.

Without --spec the bugs are seeded/<id>/patch.diff; with it, the BUGS of a file
in the format of plant.py.  Each bug is applied to a scratch copy of /repo.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOW = {"Q02", "Q03", "Q19"}


def checks():
    d = json.load(open(ROOT + "/MANIFEST.json"))
    return [c["property"] if "property" in c else c["id"] for c in d["checks"]]


def one(b, full, own_only=False):
    wt = tempfile.mkdtemp(prefix="table_")
    shutil.copytree("/repo/qetpy", wt + "/qetpy")
    try:
        if "patch" in b:
            r = subprocess.run(["patch", "-p1", "-s", "-i", b["patch"]], cwd=wt,
                               capture_output=True, text=True)
            if r.returncode:
                return b["id"], b["property"], "patch fails " + r.stdout[:100]
        else:
            for f, old, new in b["edits"]:
                s = open(wt + "/" + f).read()
                if s.count(old) != 1:
                    return b["id"], b["property"], "edit matches %d times: %s" \
                        % (s.count(old), old[:60])
                open(wt + "/" + f, "w").write(s.replace(old, new))
        hit, own = [], []
        for q in [b["property"]] if own_only else checks():
            if q in SLOW and not full and q != b["property"]:
                continue
            r = subprocess.run([sys.executable, ROOT + "/check.py", q, "--repo",
                                wt, "--jobs", "2"], capture_output=True,
                               text=True, env=dict(os.environ,
                                                   QSA_EVIDENCE=wt + "/evidence"))
            if r.returncode not in (0, 1):
                hit.append(q + "?")
            elif r.returncode:
                hit.append(q)
        return b["id"], b["property"], " ".join(hit) or "-"
    finally:
        shutil.rmtree(wt)


def main():
    a = sys.argv[1:]
    full = "--all" in a
    own = "--own" in a
    a = [x for x in a if x not in ("--all", "--own")]
    if a and a[0] == "--spec":
        bugs = runpy.run_path(a[1])["BUGS"]
        a = a[2:]
    else:
        bugs = []
        for d in sorted(os.listdir(ROOT + "/seeded")):
            p = ROOT + "/seeded/" + d
            m = json.load(open(p + "/meta.json"))
            bugs.append(dict(id=d, property=m["property"],
                             patch=p + "/patch.diff"))
    if a:
        bugs = [b for b in bugs if b["id"] in a]
    with ThreadPoolExecutor(5) as ex:
        for r in ex.map(lambda b: one(b, full, own), bugs):
            flag = "" if r[1] in r[2].split() else "   <-- missed by its own"
            print("| %s | %s | %s |%s" % (r + (flag,)), flush=True)


if __name__ == "__main__":
    main()
