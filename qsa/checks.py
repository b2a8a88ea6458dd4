"""The properties: which rules decide them, on which entry points."""
import ast
from . import arreval, specs, terms as tm
from .values import *      # noqa
from .entry import Session, Raised, program
from .interp import Bottom
from .specs import ENTRIES, R

CHECKS = {}


class Check(object):
    def __init__(self, pid, tasks, explanation, level="other", trusted=(),
                 assumptions=()):
        self.pid = pid
        self.tasks = tasks
        self.level = level
        self.meta = {"explanation": explanation,
                     "trusted": list(trusted) or TRUSTED,
                     "assumptions": list(assumptions) + ASSUME}


TRUSTED = ["qsa/interp.py (abstract interpreter)",
           "qsa/npmodel.py, qsa/npfuncs.py (models of numpy/scipy calls)",
           "qsa/terms.py (term normaliser)",
           "qsa/specs.py (documented units and shapes of the public API)"]
ASSUME = ["obligations the analysis cannot decide (unmodelled library calls, "
          "widened loop values) are counted as undecided and raise no alarm"]


def register(pid, tasks, explanation, **kw):
    CHECKS[pid] = Check(pid, tasks, explanation, **kw)


# ------------------------------------------------------------------- helpers
def run_entry(rep, e, quiet=False):
    """Analyse one entry; returns (Session, result) or (Session, None)."""
    S = Session()
    try:
        r = e.run(S)
    except Raised as x:
        r = None
        S.raised = x
    else:
        S.raised = None
    for f in S.I.calls:
        rep.stats.setdefault("#fn", set()).add(f)
    rep.count("entries")
    rep.count("statements", S.I.nstmts)
    return S, r


def evkey(v):
    """Line-number free identity of an event."""
    return "%s:%s %s" % (v.file, v.qual, v.text())


def items_of(r):
    return list(r.items) if isinstance(r, TupV) else [r]


def group(*names, pred=None):
    return [e for e in ENTRIES if e.group in names and
            (pred is None or pred(e))]


def per_entry(rule, entries):
    def tasks(tier):
        return [(rule, (e,), e.id) for e in entries]
    return tasks


def join_tasks(*fs):
    def tasks(tier):
        out = []
        for f in fs:
            out.extend(f(tier))
        return out
    return tasks


# ----------------------------------------------------- P01: caller's data kept
def r_immut(rep, e):
    S, r = run_entry(rep, e)
    allowed = set(e.opts.get("mutates", ()))
    n = 0
    for v in S.I.events:
        if v.kind != "mutate":
            continue
        roots = {x for x in v.data["roots"]
                 if not x.startswith(("global:", "default:"))} - allowed
        if roots:
            n += 1
            rep.bad("argument-unmodified", evkey(v),
                    "%s; it shares memory with the argument%s %s of %s" % (
                        v.msg, "s" if len(roots) > 1 else "",
                        ", ".join(sorted(roots)), e.id), v.where())
    if not n:
        rep.ok("argument-unmodified", e.id)


# ---------------------------------------------- P04: no hidden state, no chance
RNG_OK = {"gen_noise": "draws the documented random noise",
          "symmetrizedist": "documented random removal",
          "slopecut": "uses the documented random removal on request",
          "autocuts": "uses the documented random removal on request"}


def r_hidden(rep, e):
    S, r = run_entry(rep, e)
    n = 0
    for v in S.I.events:
        if v.kind == "rng":
            if v.data.get("fn") == "numpy.random.seed":
                pass
            elif e.name.split(".")[-1] in RNG_OK:
                continue
            n += 1
            rep.bad("deterministic", evkey(v), "%s in %s" % (v.msg, e.id),
                    v.where())
        elif v.kind in ("nondet", "globalcfg", "globalwrite"):
            n += 1
            rep.bad({"nondet": "deterministic"}.get(v.kind, "no-global-state"),
                    evkey(v), "%s in %s" % (v.msg, e.id), v.where())
        elif v.kind == "mutate":
            g = [x for x in v.data["roots"]
                 if x.startswith(("global:", "default:"))]
            if g:
                n += 1
                rep.bad("no-global-state", evkey(v), "%s that outlives the "
                        "call (%s) in %s" % (v.msg, ", ".join(sorted(g)),
                                             e.id), v.where())
    if not n:
        rep.ok("no-hidden-state", e.id)


# --------------------------------------------------------------- units
def r_units(rep, e):
    S, r = run_entry(rep, e)
    n = 0
    for v in S.I.events:
        if v.kind == "dim":
            if v.data.get("lit", 1) < 1e-15 and e.id.startswith("DIDV"):
                continue        # a guard against division by zero (ohms)
            n += 1
            rep.bad("homogeneous-sum", evkey(v), "%s (analysing %s)" % (
                v.msg, e.id), v.where(), site="homogeneous-sum|%s %s" % (
                    e.id, " with ".join(sorted((dfmt(v.data["a"]),
                                                dfmt(v.data["b"])))))
                if isinstance(v.data, dict) else None)
    if r is None:
        rep.und("result-unit", e.id, "entry raises: %s" % S.raised)
        return
    its = items_of(r)
    exp = e.rets
    if exp is not None:
        exp = exp if isinstance(exp, tuple) else (exp,)
        if len(exp) == len(its):
            for k, (x, y) in enumerate(zip(exp, its)):
                if x.dim is None:
                    continue
                res_unit(rep, "%s#%d" % (e.id, k), x.dim, y)
    fit = e.opts.get("fit")
    if fit:
        flat = specs.flat_dict(S, r)
        for k, d in sorted(fit.items()):
            if k in flat:
                res_unit(rep, "%s#%s" % (e.id, k), d, flat[k])
    if not n:
        rep.ok("homogeneous-sum", e.id)


def nothing(y):
    """Zero, or an array without elements: in every unit."""
    c = y.gv.const() if isinstance(y.gv, tm.Expr) else None
    return c is not None and c == 0 or y.sh is not None and any(
        x is not None and x.const() == 0 for x in y.sh)


def res_unit(rep, name, dim, y):
    d = getattr(y, "dim", None) if isinstance(y, AV) else None
    if isinstance(y, AV) and nothing(y):
        rep.ok("result-unit", name)
    elif d is None or d == "any":
        rep.und("result-unit", name, "unit of the result is not known")
    elif d == dim:
        rep.ok("result-unit", name)
    else:
        rep.bad("result-unit", name, "result has unit %s, documented %s" % (
            dfmt(d), dfmt(dim)))


# ------------------------------------------------- return arity and shape
def r_contract(rep, e):
    S, r = run_entry(rep, e)
    n = 0
    for v in S.I.events:
        if v.kind in ("indexerr", "arity", "shape", "keyerr"):
            n += 1
            rep.bad("well-formed-access", evkey(v), "%s (analysing %s)" % (
                v.msg, e.id), v.where())
    if not n:
        rep.ok("well-formed-access", e.id)
    if r is None:
        rep.bad("returns", e.id, "valid documented arguments always raise: %s"
                % S.raised, S.raised.events[0].where()
                if S.raised.events else "")
        return
    rep.ok("returns", e.id)
    exp = e.rets
    if exp is None:
        return
    its = items_of(r)
    if isinstance(r, (TopV, RefV, ChoiceV)) and isinstance(exp, tuple):
        rep.und("arity", e.id, "result structure is not known")
        return
    exp = exp if isinstance(exp, tuple) else (exp,)
    if len(exp) != len(its):
        rep.bad("arity", e.id, "returns %d values, documented %d" % (
            len(its), len(exp)))
        return
    rep.ok("arity", e.id)
    for k, (x, y) in enumerate(zip(exp, its)):
        if x.sh is None:
            continue
        nm = "%s#%d" % (e.id, k)
        sh = getattr(y, "sh", None) if isinstance(y, AV) else None
        if sh is None:
            rep.und("shape", nm, "shape is not known")
        elif len(sh) != len(x.sh):
            rep.bad("shape", nm, "%d dimensions, documented %d" % (
                len(sh), len(x.sh)))
        else:
            rep.ok("shape", nm)


# --------------------------------------------- names, attributes, exceptions
def r_names(rep, e):
    S, r = run_entry(rep, e)
    n = 0
    for v in S.I.events:
        if v.kind in ("unbound", "noattr", "isliteral", "badcompare"):
            n += 1
            rep.bad({"unbound": "bound-name", "noattr": "existing-attribute",
                     "isliteral": "value-comparison",
                     "badcompare": "value-comparison"}[v.kind], evkey(v),
                    "%s (analysing %s)" % (v.msg, e.id), v.where())
    if not n:
        rep.ok("names-resolve", e.id)


# ------------------------------------------------ every argument has an effect
class Opt(object):
    def __init__(self, name, get, args, over=None, skip=(), state=None,
                 post=None, pos=None):
        self.name, self.get, self.args = name, get, args
        self.over = over or {}
        self.skip = set(skip)
        self.state = state
        self.post = post
        self.pos = pos
        self.id = name


def params_of(S, f):
    """(positional-or-keyword + keyword-only) parameter names."""
    if isinstance(f, ClsV):
        fi = S.prog.mro(f.info)
        for c in fi:
            node = getattr(c, "methods", {}).get("__init__")
            if node is not None:
                break
        else:
            return []
        skip = 1
    elif isinstance(f, FnV):
        node = f.node
        skip = 1 if f.selfv is not None else 0
    else:
        return []
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args][skip:] + [
        x.arg for x in a.kwonlyargs]


def all_deps(S, v, seen=None):
    """Everything a value depends on, including heap contents."""
    seen = set() if seen is None else seen
    out = set()
    if isinstance(v, RefV):
        if v.id in seen:
            return out
        seen.add(v.id)
        r = S.I.rec(v)
        out |= set(getattr(r, "deps", ()) or ())
        for nm in ("attrs", "items"):
            x = getattr(r, nm, None)
            if isinstance(x, dict):
                x = list(x.values())
            for y in x or ():
                out |= all_deps(S, y, seen)
        e = getattr(r, "elem", None)
        if e is not None:
            out |= all_deps(S, e, seen)
        return out
    if isinstance(v, TupV):
        for y in v.items:
            out |= all_deps(S, y, seen)
        return out
    if isinstance(v, ChoiceV):
        return (all_deps(S, v.a, seen) | all_deps(S, v.b, seen) |
                set(v.deps or ()))
    if v is None:
        return out
    return out | set(S.I.deps_of(v))


def r_options(rep, o):
    S = Session()
    f = o.get(S)
    args = o.args(S)
    names = params_of(S, f)
    kw = dict(args)
    for p in names:
        if p not in kw and p not in o.skip:
            w = o.over.get(p)
            kw[p] = w(S) if w is not None else S.sc(p, None)
    try:
        r = S.I.call(f, [S.wrap(v) for v in (o.pos(S) if o.pos else ())],
                     {k: S.wrap(v) for k, v in kw.items()})
        deps = all_deps(S, r)
        if o.post:
            deps |= all_deps(S, o.post(S, r))
        if o.state:
            deps |= all_deps(S, o.state(S))
    except (Raised, Bottom) as x:
        rep.und("argument-has-effect", o.id, "raises: %s" % x)
        return
    rep.count("entries")
    for f_ in S.I.calls:
        rep.stats.setdefault("#fn", set()).add(f_)
    for p in names:
        if p in o.skip:
            continue
        v = kw.get(p)
        src = all_deps(S, S.wrap(v))
        if not src:
            continue
        if src & deps:
            rep.ok("argument-has-effect", "%s(%s)" % (o.name, p))
        else:
            rep.bad("argument-has-effect", "%s(%s)" % (o.name, p),
                    "the argument influences neither the result nor the "
                    "state of the object")


# ------------------------------------------- P27: nothing lost when storing
def r_lossy(rep, e):
    S, r = run_entry(rep, e)
    n = 0
    for v in S.I.events:
        if v.kind != "lossy" or v.data["to"][2:] in e.opts.get("mutates", ()):
            continue
        n += 1
        ok, d = arreval.fits_type(v.data["gv"], v.data["to"])
        if ok is False:
            d = "%s; in %s the stored value is %s" % (v.msg, e.id, d)
        rep.put(ok, "stores keep the value", evkey(v), d, v.where())
    if not n:
        rep.ok("stores keep the value", e.id)
