"""Rules that compare values: the same quantity computed along two routes, or
computed by the package and stated by the property."""
from fractions import Fraction
from . import numeq
from . import terms as tm
from . import specs
from .values import *      # noqa
from .entry import Session, Raised, program
from .interp import Bottom
from .specs import *       # noqa
from .checks import all_deps
from .compare import eq_values, eq_terms, all_eq, deep


def used(rep, S):
    for f in S.I.calls:
        if "__spec__" in str(f):
            continue
        rep.stats.setdefault("#fn", set()).add(f)
    rep.count("analyses")
    rep.count("statements", S.I.nstmts)


def same(rep, S, rule, name, a, b, what, where=""):
    t, d = eq_values(S, a, b)
    rep.put(t, rule, name, "%s: %s" % (what, d) if d else what, where)
    return t


def where_fn(S, obj, meth):
    """file:line of a method or function value."""
    try:
        f = S.I.get_attr(obj, meth) if meth else obj
        return "%s:%d in %s" % (
            f.mod.path.split("/repo/")[-1] if hasattr(f, "mod") else "?",
            f.node.lineno, getattr(f, "qual", meth))
    except Exception:
        return meth or ""


# ------------------------------------------------ Q02: optimum filter histories
OFM = {
    "ofamp_nodelay": [("", lambda S: {}),
                      ("windowcenter", lambda S: dict(
                          windowcenter=i_(S, "wc")))],
    "ofamp_withdelay": [("", lambda S: {}), ("all", lambda S: dict(
        nconstrain=i_(S, "nc"), windowcenter=i_(S, "wc"),
        lgcoutsidewindow=True, interpolate_t0=True,
        pulse_direction_constraint=1))],
    "ofamp_pileup_iterative": [("", lambda S: {}), ("all", lambda S: dict(
        nconstrain=i_(S, "nc"), windowcenter=i_(S, "wc"),
        lgcoutsidewindow=False, interpolate_t0=True,
        pulse_direction_constraint=-1))],
    "ofamp_pileup_stationary": [("", lambda S: {}), ("all", lambda S: dict(
        nconstrain=i_(S, "nc"), windowcenter=i_(S, "wc"),
        lgcoutsidewindow=True))],
    "ofamp_baseline": [("", lambda S: {}), ("all", lambda S: dict(
        nconstrain=i_(S, "nc"), windowcenter=i_(S, "wc"),
        lgcoutsidewindow=True, interpolate_t0=True,
        pulse_direction_constraint=1))],
    "energy_resolution": [("", lambda S: {})],
    "time_resolution": [("", lambda S: dict(amp=S.sc("amp0", AT)))],
    "chi2_nopulse": [("", lambda S: {})],
    "chi2_lowfreq": [("", lambda S: dict(
        amp=S.sc("amp0", AT), t0=S.sc("t00", S_),
        fcutoff=S.sc("fcutoff", HZ)))],
}


def of_new(S, cp, sig):
    n = N(S)
    tmpl = S.arr("template", D(T=1), (n,))
    psd = S.arr("psd", D(P=1), (n,), pos=True)
    fs = S.sc("fs", HZ, pos=True)
    return S.call(S.get(FIT, "OptimumFilter"),
                  S.arr(sig, A_, (n,)), tmpl, psd, fs, coupling=cp)


def of_call(S, o, m, kw):
    a = dict(kw)
    if m == "ofamp_pileup_iterative":
        a.update(a1=S.sc("a1", AT), t1=S.sc("t1", S_))
    return S.meth(o, m, **a)


class Old:
    """The session with every argument named as one of an earlier call."""
    def __init__(self, S):
        self._s = S

    def __getattr__(self, k):
        v = getattr(self._s, k)
        if k in ("sc", "arr", "i"):
            return lambda nm, *a, **kw: v(nm + "_old", *a, **kw)
        return v


def refilled(S, cp, m, kw, pre, pkw):
    """The caller reads the next trace into the array of the last one."""
    n = N(S)
    buf = S.arr("oldsignal", A_, (n,))
    tmpl = S.arr("template", D(T=1), (n,))
    psd = S.arr("psd", D(P=1), (n,), pos=True)
    o = S.call(S.get(FIT, "OptimumFilter"), buf, tmpl, psd,
               S.sc("fs", HZ, pos=True), coupling=cp)
    S.meth(o, "update_signal", buf)
    if pre:
        of_call(Old(S), o, pre, pkw(Old(S)))
    new = S.I.mutate(buf, S.arr("signal", A_, (n,)), "the caller")
    S.meth(o, "update_signal", new)
    return of_call(S, o, m, kw(S))


def of_history(rep, cp, m, label, kw):
    S = Session()
    try:
        fresh = of_call(S, of_new(S, cp, "signal"), m, kw(S))
    except Raised as x:
        rep.und("fresh", m, "raises: %s" % x)
        return
    for pre, confs in [(None, [("", None)])] + sorted(OFM.items()):
        for pl, pkw in confs:
            nm = "OptimumFilter[%s].%s(%s)" % (cp, m, label)
            h = "%s(%s)" % (pre, pl) if pre else "construction"
            try:
                o = of_new(S, cp, "signal")
                if pre:
                    of_call(Old(S), o, pre, pkw(Old(S)))
                    r = of_call(S, o, m, kw(S))
                    same(rep, S, "independent-of-earlier-calls",
                         "%s after %s" % (nm, h), r, fresh,
                         "%s gives another result after %s was called on the "
                         "same object" % (nm, h), "qetpy/core/_fitting.py")
                o = of_new(S, cp, "oldsignal")
                if pre:
                    of_call(Old(S), o, pre, pkw(Old(S)))
                S.meth(o, "update_signal", S.arr("signal", A_, (N(S),)))
                r = of_call(S, o, m, kw(S))
                buf = refilled(S, cp, m, kw, pre, pkw) \
                    if pre in (None, m) else None
            except Raised as x:
                rep.und("history", nm, "raises: %s" % x)
                continue
            for r, name in ((r, "update_signal"), (
                    buf, "update_signal with the same array refilled")):
                if r is None:
                    continue
                name = "%s after %s, %s" % (nm, h, name)
                if "oldsignal" in all_deps(S, r):
                    rep.bad("update-replaces-signal", name, "the result "
                            "still depends on the signal that update_signal "
                            "replaced", "qetpy/core/_fitting.py")
                    continue
                same(rep, S, "update-replaces-signal", name, r, fresh,
                     "differs from a filter built with the new signal",
                     "qetpy/core/_fitting.py")
    used(rep, S)


def of_history_tasks(tier):
    return [(of_history, (cp, m, l, kw), "%s %s %s" % (cp, m, l))
            for cp in ("DC", "AC") for m, cs in sorted(OFM.items())
            for l, kw in cs]


# -------------------------------------------- Q18: functions agree with methods
def of_functional(rep, cp, what):
    S = Session()
    sig, tmpl, psd, fs = of_in(S)
    o = S.call(S.get(FIT, "OptimumFilter"), sig, tmpl, psd, fs, coupling=cp)
    nc, wc = i_(S, "nc"), i_(S, "wc")
    amp, t0 = S.sc("amp0", AT), S.sc("t00", S_)

    def fun(nm, *a, **k):
        r = S.call(S.get(FIT, nm), *a, **k)
        return items_(r)

    def m(nm, **k):
        return items_(S.meth(o, nm, **k))
    w = "%s[%s]" % (what, cp)
    try:
        if what == "nodelay":
            a, b = fun("ofamp", sig, tmpl, psd, fs, withdelay=False,
                       coupling=cp), m("ofamp_nodelay")
            pairs = [("amplitude", a[0], b[0]), ("chi2", a[2], b[1])]
        elif what == "sigma":
            a = fun("ofamp", sig, tmpl, psd, fs, coupling=cp, lgcsigma=True)
            pairs = [("sigma", a[3], m("energy_resolution")[0])]
        elif what == "withdelay":
            a, b = fun("ofamp", sig, tmpl, psd, fs, coupling=cp), \
                m("ofamp_withdelay")
            pairs = list(zip(("amplitude", "delay", "chi2"), a, b))
        elif what == "withdelay constrained":
            for out in (True, False):
                a = fun("ofamp", sig, tmpl, psd, fs, coupling=cp,
                        nconstrain=nc, lgcoutsidewindow=out)
                b = m("ofamp_withdelay", nconstrain=nc, lgcoutsidewindow=out)
                for n_, x, y in zip(("amplitude", "delay", "chi2"), a, b):
                    same(rep, S, "function-agrees-with-method",
                         "%s outside=%s %s" % (w, out, n_), x, y,
                         "ofamp and OptimumFilter.ofamp_withdelay differ")
            pairs = []
        elif what == "integralnorm":
            a = fun("ofamp", sig, tmpl, psd, fs, coupling=cp,
                    integralnorm=True)
            o2 = S.call(S.get(FIT, "OptimumFilter"), sig, tmpl, psd, fs,
                        coupling=cp, integralnorm=True)
            pairs = list(zip(("amplitude", "delay", "chi2"), a, items_(
                S.meth(o2, "ofamp_withdelay"))))
        elif what == "pileup":
            a = fun("ofamp_pileup", sig, tmpl, psd, fs, a1=amp, t1=t0,
                    coupling=cp)
            b = m("ofamp_pileup_iterative", a1=amp, t1=t0)
            pairs = list(zip(("amplitude", "delay", "chi2"), a[2:], b))
            pairs += [("first amplitude", a[0], amp),
                      ("first delay", a[1], t0)]
        elif what == "pileup constrained":
            a = fun("ofamp_pileup", sig, tmpl, psd, fs, a1=amp, t1=t0,
                    coupling=cp, nconstrain2=nc, lgcoutsidewindow=False)
            b = m("ofamp_pileup_iterative", a1=amp, t1=t0, nconstrain=nc,
                  lgcoutsidewindow=False)
            pairs = list(zip(("amplitude", "delay", "chi2"), a[2:], b))
        elif what == "pileup first pulse":
            a = fun("ofamp_pileup", sig, tmpl, psd, fs, coupling=cp,
                    nconstrain1=nc)
            b = m("ofamp_withdelay", nconstrain=nc)
            pairs = list(zip(("first amplitude", "first delay"), a, b))
        elif what == "pileup both pulses":
            for n1, n2, out in ((None, None, True), (nc, None, True),
                                (None, nc, True), (wc, nc, True),
                                (nc, None, False), (wc, nc, False)):
                tag = "%s windows=%s%s outside=%s" % (
                    w, "-1"[n1 is not None], "-2"[n2 is not None], out)
                a = fun("ofamp_pileup", sig, tmpl, psd, fs, coupling=cp,
                        nconstrain1=n1, nconstrain2=n2, lgcoutsidewindow=out)
                f = m("ofamp_withdelay", nconstrain=n1)
                for n_, x, y in zip(("first amplitude", "first delay"), a, f):
                    same(rep, S, "function-agrees-with-method", "%s %s" % (
                        tag, n_), x, y,
                        "ofamp_pileup and ofamp_withdelay differ",
                        "qetpy/core/_fitting.py")
                b = m("ofamp_pileup_iterative", a1=f[0], t1=f[1],
                      nconstrain=n2, lgcoutsidewindow=out)
                for n_, x, y in zip(("amplitude", "delay", "chi2"), a[2:], b):
                    same(rep, S, "function-agrees-with-method", "%s %s" % (
                        tag, n_), x, y,
                        "ofamp_pileup and ofamp_pileup_iterative differ",
                        "qetpy/core/_fitting.py")
            pairs = []
        elif what == "pileup stationary":
            a = fun("ofamp_pileup_stationary", sig, tmpl, psd, fs,
                    coupling=cp, lgcoutsidewindow=True)
            b = m("ofamp_pileup_stationary", lgcoutsidewindow=True)
            pairs = list(zip(("amplitude 1", "amplitude 2", "delay", "chi2"),
                             (a[1], a[3], a[2], a[4])
                             if len(a) == 5 else a, b))
        elif what == "chi2nopulse":
            pairs = [("chi2", fun("chi2_nopulse", sig, psd, fs,
                                  coupling=cp)[0], m("chi2_nopulse")[0])]
        elif what == "chi2lowfreq":
            fc = S.sc("fcutoff", HZ, pos=True)
            pairs = [("chi2", fun("chi2lowfreq", sig, tmpl, amp, t0, psd, fs,
                                  fcutoff=fc, coupling=cp)[0],
                      m("chi2_lowfreq", amp=amp, t0=t0, fcutoff=fc)[0])]
        for n_, x, y in pairs:
            same(rep, S, "function-agrees-with-method", "%s %s" % (w, n_),
                 x, y, "the function and the OptimumFilter method differ",
                 "qetpy/core/_fitting.py")
    except Raised as x:
        rep.und("function-agrees-with-method", w, "raises: %s" % x)
    used(rep, S)


def items_(r):
    return list(r.items) if isinstance(r, TupV) else [r]


def of_functional_tasks(tier):
    return [(of_functional, (cp, w), "%s %s" % (cp, w)) for cp in ("DC", "AC")
            for w in ("nodelay", "sigma", "withdelay",
                      "withdelay constrained", "integralnorm", "pileup",
                      "pileup constrained", "pileup first pulse",
                      "pileup both pulses",
                      "pileup stationary", "chi2nopulse", "chi2lowfreq")]


# ------------------------------------------------------- stated formulas
def formula(S, text, **env):
    """The abstract value of a Python expression over the given values."""
    from .loader import ModInfo
    names = sorted(env)
    key = "__spec__%s|%s" % (text, ",".join(names))
    mods = S.prog.mods
    if key not in mods:
        body = text if "return" in text else "return " + text
        src = ("import numpy as np\nimport scipy.constants as constants\n"
               "from scipy import signal, ndimage, interpolate, stats\n"
               "from itertools import product\n"
               "from numpy.fft import fft, ifft, rfft, irfft, fftfreq, "
               "rfftfreq\ndef spec(%s):\n    %s\n" % (
                   ", ".join(names), body.replace("\n", "\n    ")))
        mods[key] = ModInfo(key, "/__spec__", src)
    f = S.I.module_value(key, "spec")
    return S.call(f, **env)


def mu_own(at):
    """The step of the variable itself in
    mu(label, name, range, part, name1, start1, step1.., ...)."""
    a = at.args
    for i in range(4, len(a) - 2):
        if a[i] == a[1]:
            n = i + 2
            while n + 1 < len(a) and isinstance(a[n + 1], tm.Expr):
                n += 1
            return a[n]
    return a[-1]


def complete(rep, S, rule, name, v, where):
    """An array filled element by element in loops is filled over its whole
    extent."""
    g = S.I.gv_of(v) if isinstance(v, AV) else None
    at = g.single_atom() if g is not None else None
    while at is not None and at.kind == "fn" and at.name in (
            "mu", "get", "idx"):
        x = mu_own(at) if at.name == "mu" else at.args[0]
        at = x.single_atom() if isinstance(x, tm.Expr) else None
    if at is None or at.kind != "fn" or at.name != "stn" or v.sh is None or \
            not isinstance(at.args[1], tuple):
        return
    bad = None
    for d, x in enumerate(at.args[1]):
        if d >= len(v.sh) or v.sh[d] is None or not isinstance(x, tm.Expr):
            continue
        i = x.single_atom()
        if i is None or i.kind != "fn" or i.name != "i":
            continue
        lo, hi, step = i.args[:3]
        if tm.equal(lo, tm.ZERO) is False:
            bad = "starts at %s on axis %d" % (tm.fmt(lo, 3), d)
        elif tm.equal(hi, v.sh[d]) is False and numeq.compare(
                hi, v.sh[d]) is False:
            bad = "runs to %s of %s on axis %d" % (
                tm.fmt(hi, 3), tm.fmt(v.sh[d], 3), d)
        elif tm.equal(step, tm.ONE) is False:
            bad = "goes in steps of %s on axis %d" % (tm.fmt(step, 3), d)
    rep.put(bad is None, rule, name, "every element of %s must be set%s" % (
        name, "; the loop " + bad if bad else ""), where)


def peel_term(S, g):
    """Value of the generic element: arrays filled by complete loops are
    replaced by the value stored in one iteration."""
    def inner(x):
        # mu(label, name, range, part, ...) -> the last stored value
        at = x.single_atom() if isinstance(x, tm.Expr) else None
        if at is None:
            return None
        if at.name == "mu":
            v = mu_own(at)
            w = inner(v)
            return w if w is not None else (
                v if v is not at.args[-1] else None)
        if at.name in ("stn", "st", "mapst"):
            return at.args[-1]
        return None

    def rule(at, go):
        if at.kind != "fn":
            return None
        if at.name == "mu":
            v = inner(tm.of_atom(at))
            return go(v) if v is not None else None
        if at.name == "stn" and isinstance(at.args[-1], tm.Expr):
            return go(at.args[-1])
        if at.name in ("get", "idx", "getw"):
            b = go(at.args[0])
            if tm.is_scalar(b):
                return b
            if b != at.args[0]:
                return tm.fn(at.name, b, *at.args[1:], real=tm.is_real(b),
                             scalar=at.scalar)
            return tm.of_atom(at)
        return None
    return deep(g, rule)


def outer_keys(g):
    """Loop indices with which the elements of the array term are stored, by
    axis."""
    at = g.single_atom() if isinstance(g, tm.Expr) else None
    n = 0
    while at is not None and at.kind == "fn" and at.name == "mu" and n < 8:
        x = mu_own(at)
        at = x.single_atom() if isinstance(x, tm.Expr) else None
        n += 1
    if at is None or at.kind != "fn" or at.name != "stn" or \
            not isinstance(at.args[1], tuple):
        return []
    return list(at.args[1])


def generic(S, g):
    """The generic element of an array filled in loops; the loop indices are
    named after the axis they run over."""
    ks = outer_keys(g)
    ren = {}
    for d, k in enumerate(ks):
        a = k.single_atom() if isinstance(k, tm.Expr) else None
        if a is not None and a.kind == "fn" and a.name == "i":
            ren[a.id] = tm.sym("axis%d" % d, real=True, integer=True)
    rest = {}

    def rule(at, go):
        if at.kind == "fn" and at.name == "i":
            if at.id in ren:
                return ren[at.id]
            r = rest.get(at.id)
            if r is None:
                r = rest[at.id] = tm.fn(
                    "i", *(tuple(at.args[:3]) + (tm.num(len(rest) + 90),)),
                    real=True, integer=True, scalar=True)
            return r
        return None
    return deep(peel_term(S, g), rule)


def identity(rep, S, rule, name, lhs, rhs, what, where="", peel=False,
             square=False):
    try:
        a, b = S.I.gv_of(lhs), S.I.gv_of(rhs)
        if a is None or b is None:
            rep.und(rule, name, "%s: value not known" % what, where)
            return
        t, d = eq_terms(a, b)
        if t is not True and peel:
            t, d = eq_terms(peel_term(S, a), peel_term(S, b))
            if t is not True:
                t, d = eq_terms(generic(S, a), generic(S, b))
        if t is not True and square:
            # two positive square roots: compare the radicands
            t2, d2 = eq_terms(tm.powq(a, Fraction(2)),
                              tm.powq(b, Fraction(2)))
            if t2 or t is None:
                t, d = t2, d2
    except tm.TooBig:
        t, d = None, "too large"
    rep.put(t, rule, name, "%s; the code gives %s" % (what, d), where)


def iv_identities(rep, label, mk):
    S = Session()
    o = mk(S)
    try:
        S.meth(o, "calc_iv")
    except Raised as x:
        rep.und("iv-identity", label, "raises: %s" % x)
        return
    A = S.attrs(o)
    g = A.get
    w = "qetpy/core/_iv.py in IV.calc_iv"

    def idt(name, text, peel=False, **env):
        if g(name) is None or any(v is None for v in env.values()):
            rep.und("iv-identity", "%s %s" % (label, name), "no attribute")
            return
        identity(rep, S, "iv-identity", "%s %s" % (label, name), g(name),
                 formula(S, text, **env), "%s must equal %s" % (name, text),
                 w, peel)
    vb, vbe, di, die = g("vb"), g("vb_err"), g("dites"), g("dites_err")
    rl, rle = g("rload"), g("rload_err")
    idt("ites", "dites - ioff", True, dites=di, ioff=g("ioff"))
    idt("ites_err", "np.sqrt(dites_err**2 + ioff_err**2)", True,
        dites_err=die, ioff_err=g("ioff_err"))
    idt("r0", "vb/ites - rload", vb=vb, ites=g("ites"), rload=rl)
    idt("ptes", "ites*(vb - ites*rload)", vb=vb, ites=g("ites"), rload=rl)
    idt("r0_err", "np.sqrt((vb_err/ites)**2 + (vb*ites_err/ites**2)**2 "
        "+ rload_err**2)", vb=vb, vb_err=vbe, ites=g("ites"),
        ites_err=g("ites_err"), rload_err=rle)
    idt("ptes_err", "np.sqrt(((vb - 2*ites*rload)*ites_err)**2 + "
        "(ites*vb_err)**2 + (ites**2*rload_err)**2)", vb=vb, vb_err=vbe,
        ites=g("ites"), ites_err=g("ites_err"), rload=rl, rload_err=rle)
    ok = lambda x: isinstance(x, AV) and x.sh is not None  # noqa: E731
    if ok(rl) and ok(g("rfit")) and "scalar" in label:
        idt("rnorm", "rfit - rload", True, rfit=g("rfit"), rload=rl)
        idt("rnorm_err", "np.sqrt(rfit_err**2 + rload_err**2)", True,
            rfit_err=g("rfit_err"), rload_err=rle)
    for k in sorted(A):
        complete(rep, S, "iv-complete", "%s %s" % (label, k), A[k], w)
    used(rep, S)


def iv_id_tasks(tier):
    from .r_ibis import ivlines, LOADS
    out = [(ivlines, (k,), "iv lines %s" % k) for k in LOADS]
    for nd in (3, 2, 1):
        for rl in ("scalar", "nch", "temps") if nd == 3 else ("scalar",):
            for nrm in (True, False):
                out.append((iv_identities, (
                    "IV[%dd rload=%s%s]" % (nd, rl, "" if nrm else " auto"),
                    lambda S, nd=nd, rl=rl, nrm=nrm: specs.iv_obj(
                        S, nd, rl, nrm)), "iv %d %s %s" % (nd, rl, nrm)))
    return out
