"""Obligations, violations, known findings and evidence."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from . import arreval

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OK, BAD, UND = "ok", "bad", "undecided"


class Ob(object):
    """One proof obligation of a rule about one construct."""
    __slots__ = ("status", "rule", "construct", "detail", "where", "site")

    def __init__(self, status, rule, construct, detail="", where="",
                 site=None):
        self.status, self.rule = status, rule
        self.construct, self.detail, self.where = construct, detail, where
        # how the known-findings file names this violation: by the public
        # entry and what goes wrong there, not by the text of the source
        self.site = site or self.key

    @property
    def key(self):
        return "%s|%s" % (self.rule, self.construct)

    def asdict(self):
        return {"status": self.status, "rule": self.rule,
                "construct": self.construct, "detail": self.detail,
                "where": self.where}


class Rep(object):
    """Collects the obligations of one task."""

    def __init__(self):
        self.obs = []
        self.stats = {}

    def ok(self, rule, construct, detail="", where=""):
        self.obs.append(Ob(OK, rule, construct, detail, where))

    def bad(self, rule, construct, detail="", where="", site=None):
        self.obs.append(Ob(BAD, rule, construct, detail, where, site))

    def und(self, rule, construct, detail="", where=""):
        self.obs.append(Ob(UND, rule, construct, detail, where))

    def put(self, truth, rule, construct, detail="", where=""):
        if truth is True:
            self.ok(rule, construct, "", where)
        elif truth is False:
            self.bad(rule, construct, detail, where)
        else:
            self.und(rule, construct, detail, where)

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def seen(self, S):
        """Record which functions of the package the analysis entered."""
        for f in S.I.entered:
            self.stats.setdefault("#fn", set()).add(f)


_TASKS = []
LIMIT = 150        # seconds for one task
TOTAL = 780        # seconds for all tasks of a check
_T0 = time.time()


class OutOfTime(BaseException):
    """The task did not end in its time: its obligations stay undecided."""


def _alarm(sig, frame):
    raise OutOfTime()


def _work(i):
    fn, args, name = _TASKS[i]
    rep = Rep()
    arreval.DOMAIN.clear()
    arreval.NANS.clear()
    t0 = time.time()
    left = min(LIMIT, TOTAL - (t0 - _T0))
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, max(left, 0.5), 5)
    try:
        fn(rep, *args)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except OutOfTime:
        rep.und("analysis", name, "not finished within the time limit")
    except Exception as x:
        signal.setitimer(signal.ITIMER_REAL, 0)
        tb = traceback.extract_tb(sys.exc_info()[2])
        at = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                       for f in tb[-3:])
        rep.und("analysis", name, "%s: %s (%s)" % (type(x).__name__, x, at))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if os.environ.get("QSA_SLOW") and time.time() - t0 > 10:
        print("slow task: %.0f s %s" % (time.time() - t0, name), flush=True)
    return rep.obs, rep.stats


def run_tasks(tasks, jobs=None):
    """tasks: [(function(rep, *args), args, name)]"""
    jobs = jobs or min(8, os.cpu_count() or 1)
    obs, stats = [], {}
    _TASKS[:] = tasks          # inherited by the forked workers
    if jobs == 1 or len(tasks) <= 1:
        res = map(_work, range(len(tasks)))
        pool = None
    else:
        pool = mp.get_context("fork").Pool(jobs)
        res = pool.imap_unordered(_work, range(len(tasks)),
                                  chunksize=1)
    for o, s in res:
        obs.extend(o)
        for k, v in s.items():
            if isinstance(v, set):
                stats.setdefault(k, set()).update(v)
            else:
                stats[k] = stats.get(k, 0) + v
    if pool:
        pool.close()
        pool.join()
    return obs, stats


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln.startswith("finding: property=%s " % pid):
                continue
            body = ln.split(" ", 2)[2]
            key, _, what = body.partition(" :: ")
            out[key.replace("key=", "", 1)] = what
    return out


def finish(pid, tier, level, obs, stats, t0, meta):
    known = known_findings(pid)
    bykey = {}
    for o in obs:
        bykey.setdefault((o.status, o.key), o)
    bad = [o for (s, k), o in bykey.items() if s == BAD]
    ok = [o for (s, k), o in bykey.items() if s == OK]
    und = [o for (s, k), o in bykey.items() if s == UND]
    viol = []
    hit = set()
    for o in bad:
        if o.site in known:
            hit.add(o.site)
        else:
            viol.append(o)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[k], k))
    rules = {}
    for o in obs:
        r = rules.setdefault(o.rule, {"ok": 0, "bad": 0, "undecided": 0})
        r[o.status] += 1
    fns = sorted(stats.pop("#fn", ()))
    ev = {
        "property": pid, "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": {
            "explanation": meta.get("explanation", ""),
            "checker_cmd": "python3 check.py %s --tier %s" % (pid, tier),
            "trusted_base": meta.get("trusted", []),
            "obligations": len(ok) + len(bad) + len(und),
            "discharged": len(ok),
            "undecided": len(und),
            "violated": len(bad),
            "rules": rules,
            "functions_analysed": len(fns),
            "functions": fns,
            "samples": [o.asdict() for o in ok[:6]],
            "undecided_obligations": [o.asdict() for o in und[:40]],
            "violations": [o.asdict() for o in viol],
            "known_findings_seen": sorted(hit),
            "stats": {k: v for k, v in stats.items()},
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    d = os.environ.get("QSA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=False, default=str)
    print("%s [%s]: %d obligations: %d discharged, %d undecided, %d violated "
          "(%d known); %d functions analysed; %.1f s" % (
              pid, tier, len(ok) + len(bad) + len(und), len(ok), len(und),
              len(bad), len(hit), len(fns), time.time() - t0))
    for o in viol:
        print("  %s\n    %s\n    %s" % (o.key, o.detail, o.where))
    if viol:
        print("VIOLATION property=%s replay=evidence/%s.json" % (pid, pid))
        return 1
    return 0
