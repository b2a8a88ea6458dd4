#!/usr/bin/env python3
"""python3 check.py <property id> [--tier quick|thorough] [--repo DIR] [-v]

Decides one property of the source tree in /repo by static analysis.  Exit 0:
no violation.  Exit 1: violations, each printed with its construct.
"""
import argparse
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from qsa import arreval, checks, entry, props, report      # noqa: E402,F401


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    entry.set_root(a.repo)
    c = checks.CHECKS[a.property]
    tasks = c.tasks(a.tier)
    if a.tier == "thorough":
        arreval.NEED *= 4      # samples per identity
        report.LIMIT *= 2
    entry.program()
    obs, stats = report.run_tasks(tasks, a.jobs)
    if a.v:
        for o in obs:
            if o.status != report.OK:
                print(o.status, o.key[:200], "--", o.detail[:300], o.where)
    return report.finish(a.property, a.tier, c.level, obs, stats, t0, c.meta)


if __name__ == "__main__":
    sys.exit(main())
