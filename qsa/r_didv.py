"""dIdV: model algebra and agreement of fit results with the fitted model."""
from . import terms as tm
from . import specs
from . import arreval
from .values import *      # noqa
from .entry import Session, Raised
from .specs import *       # noqa
from .compare import eq_terms
from .rules import used, same, formula, identity, deep

DB = "qetpy/core/didv/_base_didv.py"
ZTXT = {
    1: "rsh + rp + 2j*np.pi*f*L",
    2: "rsh + rp + r0*(1 + beta) + 2j*np.pi*f*L "
       "+ r0*l/(1 - l)*(2 + beta)/(1 + 2j*np.pi*f*tau0/(1 - l))",
    3: "rsh + rp + r0*(1 + beta) + 2j*np.pi*f*L "
       "+ r0*l/(1 - l)*(2 + beta)/(1 + 2j*np.pi*f*tau0/(1 - l) "
       "- gratio/(1 - l)/(1 + 2j*np.pi*f*tau3))",
}
ATXT = {
    1: "A*(1 + 2j*np.pi*f*tau2)",
    2: "A*(1 + 2j*np.pi*f*tau2) + B/(1 + 2j*np.pi*f*tau1)",
    3: "A*(1 + 2j*np.pi*f*tau2) + B/(1 + 2j*np.pi*f*tau1 "
       "- C/(1 + 2j*np.pi*f*tau3))",
}


def model(rep, poles):
    S = Session()
    p = ssp(S, poles)
    f = frq(S)
    z = S.call(S.get(DIB, "compleximpedance"), f, **p)
    y = S.call(S.get(DIB, "complexadmittance"), f, **p)
    n = "%d-pole" % poles
    identity(rep, S, "impedance-formula", n, z, formula(
        S, ZTXT[poles], f=f, **p), "compleximpedance must be %s" % ZTXT[poles],
        DB)
    identity(rep, S, "admittance-is-inverse", n, y, formula(
        S, "1/z", z=z), "complexadmittance must be 1/compleximpedance", DB)
    f0 = S.sc("f0", HZ)
    y0 = S.call(S.get(DIB, "complexadmittance"), const(0), **p)
    identity(rep, S, "admittance-formula", n + " at zero frequency", y0,
             formula(S, "1/(%s)" % ZTXT[poles].replace("*f*", "*0*"), **p),
             "didv at zero frequency", DB)
    del f0
    # nesting of the models
    if poles == 3:
        q = dict(p, gratio=const(0))
        z3 = S.call(S.get(DIB, "compleximpedance"), f, **q)
        q = {k: v for k, v in p.items() if k not in ("gratio", "tau3")}
        z2 = S.call(S.get(DIB, "compleximpedance"), f, **q)
        identity(rep, S, "models-nest", "3-pole with gratio=0", z3, z2,
                 "must be the 2-pole impedance", DB)
    if poles == 2:
        q = dict(p, l=const(0))
        z2 = S.call(S.get(DIB, "compleximpedance"), f, **q)
        z1 = S.call(S.get(DIB, "compleximpedance"), f, rsh=p["rsh"],
                    rp=formula(S, "rp + r0*(1 + beta)", rp=p["rp"],
                               r0=p["r0"], beta=p["beta"]), L=p["L"])
        identity(rep, S, "models-nest", "2-pole with l=0", z2, z1,
                 "must be a resistor in series with the inductor", DB)
    # extra keywords, as in **smallsignalparams with dt, change nothing
    z4 = S.call(S.get(DIB, "compleximpedance"), f, dt=S.sc("dt", S_), **p)
    identity(rep, S, "extra-keys-ignored", n, z4, z,
             "a dt entry must not change the impedance", DB)
    used(rep, S)


def period(S):
    """Times of the samples; samples of the terms have one or two periods of
    the drive in the trace."""
    fs = S.sc("fs", HZ, pos=True)
    arreval.DOMAIN.clear()
    arreval.DOMAIN["sgfreq"] = lambda e, r: e.expr(S.I.gv_of(fs))*r.choice(
        (1, 1, 2))/e.n
    arreval.DOMAIN["dutycycle"] = lambda e, r: r.choice(
        (0.5, r.uniform(0.1, 0.9), r.uniform(0.1, 0.9)))
    return formula(S, "np.arange(n)/fs", n=AV(DLESS, N(S), E0, sh=()), fs=fs)


def square(rep, poles, duty):
    """The square-wave response is linear in the drive and uses the model."""
    S = Session()
    p = ssp(S, poles)
    n = "squarewaveresponse %d-pole duty=%s" % (
        poles, "half" if duty is None else "other")
    t = period(S)
    sg, sf = S.sc("sgamp", A_), S.sc("sgfreq", HZ, pos=True)
    kw = {} if duty is None else dict(dutycycle=S.sc("dutycycle"))
    fn = S.get(DIB, "squarewaveresponse")
    try:
        a = S.call(fn, t, sg, sf, **dict(p, **kw))
        b = S.call(fn, t, formula(S, "2*x", x=sg), sf, **dict(p, **kw))
        identity(rep, S, "linear-in-drive", n, b, formula(S, "2*x", x=a),
                 "doubling sgamp must double the response", DB)
        # the response to all resistances scaled by c is unchanged
        c = S.sc("c", pos=True)
        q = {k: formula(S, "c*x", c=c, x=v)
             if k in ("rsh", "rp", "r0", "L") else v for k, v in p.items()}
        b = S.call(fn, t, sg, sf, **dict(q, **kw))
        identity(rep, S, "scale-free", n, b, a, "scaling rsh, rp, r0 and L "
                 "together must not change the current divider", DB)
        if poles == 3:
            q = {k: v for k, v in p.items() if k not in ("gratio", "tau3")}
            a3 = S.call(fn, t, sg, sf, **dict(p, gratio=const(0), **kw))
            b3 = S.call(fn, t, sg, sf, **dict(q, **kw))
            identity(rep, S, "models-nest", n, a3, b3,
                     "3-pole response with gratio=0 must be the 2-pole one",
                     DB)
        if poles == 2:
            b2 = S.call(fn, t, sg, sf, **dict(p, l=const(0), **kw))
            a2 = S.call(fn, t, sg, sf, **dict(
                kw, rsh=p["rsh"], L=p["L"], rp=formula(
                    S, "rp + r0*(1 + beta)", rp=p["rp"], r0=p["r0"],
                    beta=p["beta"])))
            identity(rep, S, "models-nest", n, b2, a2,
                     "2-pole response with l=0 must be the 1-pole one", DB)
    except Raised as x:
        rep.und("square-wave", n, "raises: %s" % x)
    used(rep, S)


def drive(rep, duty):
    """Deconvolving the response of the model gives back its admittance: both
    directions use the same Fourier coefficients of the drive."""
    S = Session()
    n = "drive spectrum duty=%s" % ("half" if duty is None else "other")
    t = period(S)
    tr = S.arr("trace", A_, (N(S),))
    sg, sf = S.sc("sgamp", A_), S.sc("sgfreq", HZ, pos=True)
    rsh = S.sc("rsh", OHM, pos=True)
    d = const(0.5) if duty is None else S.sc("dutycycle")
    try:
        base = S.get(DIB, "_BaseDIDV")
        conv = S.I.get_attr(base, "_convolvedidv")
        dec = S.I.get_attr(base, "_deconvolvedidv")
        r = S.call(conv, t, const(1.0), const(0), const(0), const(0), const(0),
                   const(0), sg, rsh, sf, d)
        q = S.call(dec, t, tr, rsh, sg, sf, d)
        di = q.items[1]
    except (Raised, Exception) as x:
        rep.und("same-drive", n, "no private helpers: %s" % x)
        return
    # unit admittance: response = Re ifft(sf); didv = fft(trace)/sf
    a, b = S.I.gv_of(r), S.I.gv_of(di)
    if a is None or b is None:
        rep.und("same-drive", n, "value not known")
        return
    ga = spectra(a)
    gb = spectra(b)
    ok = bool(ga) and bool(gb)
    if not ok:
        rep.und("same-drive", n, "drive spectrum not identified")
    else:
        t_, dd = eq_terms(ga[0], gb[0])
        rep.put(t_, "same-drive", n, "the response and the deconvolution use "
                "different Fourier coefficients of the square wave: %s" % dd,
                DB)
    used(rep, S)


def spectra(e):
    """Drive spectra (argument of ifft, or the array divided by fft(trace))."""
    out = []

    def rule(at, go):
        if at.kind == "fn" and at.name == "ifft":
            out.append(at.args[0])
        if at.kind == "fn" and at.name == "st" and not out:
            out.append(at.args[0])
        return None
    deep(e, rule)
    return out


# --------------------------------------------------------------- fit results
def popt(e):
    """Replace fitted values of every fit by the symbols of its parameters."""
    def rule(at, go):
        if at.kind == "fn" and at.name == "lsqx" and len(at.args) == 2:
            return tm.sym("fitx%d" % at.args[1])
        if at.kind == "fn" and at.name == "ite":
            a, b = go(at.args[1]), go(at.args[2])
            if a == b:
                return a
            return tm.fn("ite", go(at.args[0]), a, b, real=at.real,
                         pos=at.pos, scalar=at.scalar, integer=at.integer)
        return None
    return deep(e, rule)


def parts(e):
    """Generic elements of the pieces an array was assembled from."""
    at = e.single_atom()
    if at is None or at.kind != "fn":
        return [e]
    if at.name in ("ststr", "stsl", "stn", "st"):
        base = at.args[0]
        r = [] if isinstance(base, tm.Expr) and base.is_zero() else \
            parts(base) if isinstance(base, tm.Expr) else []
        return r + parts(at.args[-1])
    if at.name in ("concat", "concatenate", "hstack", "append"):
        r = []
        for x in at.args:
            if isinstance(x, tm.Expr):
                r += parts(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tm.Expr):
                        r += parts(y)
        return r
    return [e]


def pdict(S, res, key):
    r = S.I.rec(res).items
    if key not in r or not isinstance(r[key], RefV):
        return None
    return dict(S.I.rec(r[key]).items)


def match(rep, S, rule, name, got, want, what, where):
    """Multisets of terms agree (up to the sign of each)."""
    left = list(want)
    und = None
    for g in got:
        hit = None
        for i, w in enumerate(left):
            t, d = eq_terms(g ** 2 if hasattr(g, "__pow__") else
                            tm.powq(g, 2), tm.powq(w, 2))
            if t is True:
                hit = i
                break
            if t is None:
                und = d
        if hit is None:
            rep.put(None if und is not None else False, rule, name,
                    "%s; %s" % (what, und or tm.fmt(g, 5)[:300]), where)
            return
        left.pop(hit)
    rep.put(True if not left else None, rule, name, "%s: %d pieces missing"
            % (what, len(left)), where)


def fit(rep, poles, priors, after=None):
    S = Session()
    n = "DIDV%s.dofit(%d)%s" % ("Priors" if priors else "", poles,
                                " after 2-pole" if after else "")
    where = "qetpy/core/didv/_didv%s.py in dofit" % (
        "_priors" if priors else "")
    f = S.arr("f", HZ, (N(S),))
    period(S)
    try:
        o = specs.didv_init(S)
        if priors:
            o2 = specs.didv_obj(S, True)
            a = S.I.rec(o2).attrs
            for k, v in S.attrs(o).items():
                if k in ("_didvmean", "_didvstd", "_tmean", "_freq", "_time",
                         "_flatinds", "_offset", "_offset_err"):
                    a[k] = v
            o = o2
        args = []
        if priors:
            m = len(SSP[poles]) + 1
            args = [S.arr("priors", None, (m,), pos=True),
                    S.arr("priorscov", None, (m, m))]
        if after:
            S.meth(o, "dofit", after)
        mk = S.I.mark()
        fc = S.sc("fcut", HZ, pos=True)
        S.meth(o, "dofit", poles, *args, fcutoff=fc)
        res = S.meth(o, "fitresult", poles)
        evs = S.I.events[mk:]
    except Raised as x:
        rep.und("fit", n, "raises: %s" % x)
        return
    P, E_ = pdict(S, res, "params"), pdict(S, res, "errors")
    if P is None or E_ is None:
        rep.und("fit", n, "no parameter dictionary")
        return
    items = S.I.rec(res).items
    w = {k: S.I.gv_of(v) for k, v in P.items()}
    if any(v is None for v in w.values()):
        rep.und("fit", n, "parameter values not known")
        return
    ps = {k: AV(v.dim, popt(w[k]), v.deps, sh=()) for k, v in P.items()}
    txt = (ZTXT if priors else ATXT)[poles]
    need = set((SSP if priors else IMP)[poles]) | {"dt"}
    if set(P) != need:
        rep.put(False if need - set(P) else None, "result-keys", n,
                "params has keys %s, documented %s" % (sorted(P),
                                                       sorted(need)), where)
        return
    rep.ok("result-keys", n)
    freq, mean, std = [S.attr(o, k) for k in ("_freq", "_didvmean",
                                              "_didvstd")]
    big = S.I.gv_of(S.I.get_attr(o, "_freq"))
    num = "rsh" if priors else "1"
    y = formula(S, "%s/(%s)*np.exp(-2j*np.pi*f*dt)" % (num, txt), f=freq, **ps)
    env = dict(y=y, mean=mean, std=std)
    if priors:
        env["r"] = S.attr(o, "_rsh")
        re_ = formula(S, "(mean*r - y).real/(std*r).real", **env)
        im_ = formula(S, "(mean*r - y).imag/(std*r).imag", **env)
    else:
        re_ = formula(S, "(mean - y).real/std.real", **env)
        im_ = formula(S, "(mean - y).imag/std.imag", **env)
    want = [S.I.gv_of(re_), S.I.gv_of(im_)]
    nfit = 0
    for e in evs:
        if e.kind != "lsq":
            continue
        g = S.I.gv_of(e.data["res"])
        if priors and not e.data["scalar"]:
            continue
        if priors:
            nfit += 1
            x = e.data["x"]
            ed = errordef(e.data["kw"].get("errordef"))
            pr = formula(S, "0.5*np.sqrt((p - x).dot(c).dot(p - x))**2",
                         p=args[0], x=x, c=formula(
                             S, "np.linalg.pinv(c)", c=args[1]))
            # the errors follow from the cost in units of errordef
            ms = [ssum(S, x) for x in (re_, im_)]
            q, d = S.I.gv_of(pr), ed
            if None not in ms + [q, d] and summed(
                    rep, S, n, g, lambda: (halves(*ms) + nosel(q)) *
                    tm.num(2) * d, "the cost must be half the squares of "
                    "(data - model)/error and of the distance from the "
                    "priors, in units of twice the errordef", where):
                continue
            got, extra = sumparts(nosel(g)) if g is not None else (None, None)
            if got is None:
                rep.und("residual-is-model", n, "cost not decomposed %s"
                        % (tm.fmt(g, 3) if g is not None else ""))
                continue
            match(rep, S, "residual-is-model", n, got, [nosel(x) for x in
                                                        want],
                  "the fitted residuals must be (data - model)/error with "
                  "the model of the returned parameter names", where)
            gp = S.I.gv_of(pr)
            if gp is None or extra is None:
                rep.und("prior-term", n, "prior term not known")
            else:
                t, d = eq_terms(extra, gp)
                rep.put(t, "prior-term", n, "the prior term of the cost: %s"
                        % d, where)
            continue
        nfit += 1
        if g is None or None in want:
            rep.und("residual-is-model", n, "residual not known")
            continue
        what = "the fitted residuals must be (data - model)/error with the " \
            "model of the returned parameter names"
        ms = [ssum(S, x) for x in (e.data["res"], re_, im_)]
        if None not in ms and summed(
                rep, S, "%s fit %d" % (n, nfit), halves(ms[0]),
                lambda: halves(*ms[1:]), what, where):
            continue
        match(rep, S, "residual-is-model", "%s fit %d" % (n, nfit),
              parts(nosel(g)), [nosel(x) for x in want], what, where)
    if not nfit:
        rep.und("residual-is-model", n, "no fit seen")
    del big
    cutoff(rep, S, n, evs, fc, where)
    if not priors and "cov" in items:
        covariance(rep, S, n, items["cov"], len(IMP[poles]) + 1, where)
    # errors are the square roots of the diagonal of the covariance
    cov = items.get("cov")
    order = (SSP if priors else IMP)[poles] + ("dt",)
    if cov is not None:
        for i, k in enumerate(order):
            identity(rep, S, "errors-from-cov", "%s %s" % (n, k), E_[k],
                     formula(S, "return np.sqrt(c[i, i])".replace(
                         "i", str(i)).replace("np.sqrt", "np.sqrt")
                         if False else "np.diag(c)[%d]**0.5" % i, c=cov),
                     "errors[%s] must be the square root of cov[%d,%d]" % (
                         k, i, i), where)
            identity(rep, S, "params-in-order", "%s %s" % (n, k),
                     ps[k], AV(None, tm.sym("fitx%d" % i), E0, sh=()),
                     "params[%s] must be parameter %d of the covariance" % (
                         k, i), where)
    if not priors:
        ss = pdict(S, res, "smallsignalparams")
        sv = {k: AV(v.dim, popt(S.I.gv_of(v)), v.deps, sh=())
              for k, v in ss.items()}
        if set(sv) == set(SSP[poles]) | {"dt"}:
            z = S.call(S.get(DIB, "compleximpedance"), f, **sv)
            identity(rep, S, "same-impedance", n, z, formula(
                S, txt, f=f, **{k: v for k, v in ps.items() if k != "dt"}),
                "the small-signal parameters must describe the same "
                "impedance as params", where)
            identity(rep, S, "same-impedance", n + " dt", sv["dt"], ps["dt"],
                     "smallsignalparams[dt] must be params[dt]", where)
            for k in ("rsh",) + (("r0", "rp") if poles > 1 else ()):
                identity(rep, S, "fixed-resistances", "%s %s" % (n, k),
                         sv[k], S.attr(o, "_" + k),
                         "%s must be the value given to DIDV" % k, where)
        else:
            rep.put(False if set(SSP[poles]) - set(sv) else None,
                    "result-keys", n + " smallsignalparams",
                    "has keys %s" % sorted(sv), where)
        d0 = {k: v for k, v in sv.items() if k != "dt"}
    else:
        d0 = {k: v for k, v in ps.items() if k != "dt"}
    if "didv0" in items:
        g = S.I.gv_of(items["didv0"])
        y0 = formula(S, "(1/(%s)).real" % ZTXT[poles].replace("*f*", "*0*"),
                     **d0)
        if g is None:
            rep.und("didv0", n, "value not known")
        else:
            identity(rep, S, "didv0", n, AV(None, popt(g), E0, sh=()), y0,
                     "didv0 must be the zero-frequency admittance of the "
                     "returned parameters", where)
    falltimes(rep, S, n, poles, priors, ps, evs, items, where)
    used(rep, S)


def masks(e):
    """Conditions that select elements of arrays, or None if not clear."""
    out = []

    def rule(at, go):
        if at.kind == "fn" and at.name == "sel":
            out.append((at.args[0], at.args[1]))
        return None
    deep(e, rule)
    seen = {}
    for x, m in out:
        if any(not isinstance(y, tm.Expr) for y in (x, m)):
            return None
        if masks(x) != []:
            return None
        seen[m] = 1
    return list(seen)


def cutoff(rep, S, n, evs, fc, where):
    """The frequencies below the cutoff, of either sign, are fitted."""
    want = S.I.gv_of(formula(S, "np.abs(np.fft.fftfreq(n, 1/fs)) < c", c=fc,
                             n=AV(DLESS, tm.sym("N"), E0, sh=()),
                             fs=S.sc("fs", HZ, pos=True)))
    for e in evs:
        g = S.I.gv_of(e.data["res"]) if e.kind == "lsq" else None
        if g is None:
            continue
        ms = masks(g)
        if not ms:
            rep.und("cutoff", n, "no selection of frequencies seen", where)
            continue
        for m in ms:
            t, d = eq_terms(m, want)
            rep.put(t, "cutoff", n, "the fit uses the frequencies of "
                    "magnitude below fcutoff, here %s" % d, where)


def covariance(rep, S, n, cov, npar, where):
    """inv(J^T J) of the Jacobian of the fit that is returned."""
    jac = tm.sym("JAC", scalar=False)
    jac.single_atom().shp = (tm.num(npar + 2), tm.num(npar))

    def rule(at, go):
        if at.kind == "fn" and at.name == "lsqjac":
            return jac
        if at.kind == "fn" and at.name == "ite":
            a, b = go(at.args[1]), go(at.args[2])
            if a == b:
                return a
        return None
    g = S.I.gv_of(cov)
    if g is None:
        rep.und("fit-covariance", n, "not known", where)
        return
    g = deep(g, rule)
    J = AV(None, jac, E0, sh=jac.single_atom().shp)
    identity(rep, S, "fit-covariance", n, AV(None, g, E0), formula(
        S, "np.linalg.inv(np.dot(J.T, J))", J=J), "the covariance must be "
        "the inverse of J^T J of the residuals divided by their errors",
        where)


def nosel(e):
    """Drop the selection of the frequencies that take part in the fit."""
    def rule(at, go):
        if at.kind == "fn" and at.name == "sel":
            return go(at.args[0])
        return None
    return deep(e, rule)


def errordef(v):
    """The rise of the cost at one standard deviation; iminuit takes 1 where
    nothing is given."""
    if v is None or isinstance(v, LibV) and v.name.endswith(
            ".LEAST_SQUARES"):
        return tm.ONE
    if isinstance(v, LibV) and v.name.endswith(".LIKELIHOOD"):
        return tm.num(Fraction(1, 2))
    if isinstance(v, AV) and v.gv is not None and v.gv.const() is not None:
        return v.gv
    return None


def ssum(S, v):
    """The sum of squares of an array, as it stands."""
    g = S.I.gv_of(v)
    return None if g is None else tm.fn(
        "sum", tm.powq(nosel(g), Fraction(2)), scalar=True)


def halves(*x):
    return sum(x, tm.ZERO) * tm.num(Fraction(1, 2))


def summed(rep, S, n, got, want, what, where):
    """The objective of a fit, in numbers."""
    if got is None:
        return False
    try:
        t, d = arreval.compare(nosel(got), want())
    except tm.TooBig:
        return False
    if t is None:
        return False
    rep.put(t, "residual-is-model", n, "%s: %s" % (what, d), where)
    return True


def sumparts(e):
    """cost = sum(parts**2)/2 + rest -> ([parts], rest)."""
    got, rest = None, tm.ZERO
    for m, c in e.t.items():
        at = tm.T.atoms[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
        x = at.args[0] if at is not None and at.name == "sum" else None
        one = x is not None and len(x.t) == 1
        if one:
            (mm, cc), = x.t.items()
            one = cc == 1 and len(mm) == 1 and mm[0][1] == 2
        p = parts(tm.of_atom(tm.T.atoms[mm[0][0]])) if one else []
        if len(p) > 1 or one and "didvmean" in tm.symbols(x):
            if c != Fraction(1, 2) or got is not None:
                return None, None
            got = p
        else:
            rest = rest + tm.Expr({m: c})
    return got, rest


def falltimes(rep, S, n, poles, priors, ps, evs, items, where):
    """The equations solved for the fall times hold for the inverse zeros of
    the impedance, whatever the parameters."""
    if poles == 1:
        ft = items.get("falltimes")
        g = S.I.gv_of(ft) if ft is not None else None
        e = formula(S, "np.array([%s])" % ("L/(rsh + rp)" if priors else
                                           "tau2"),
                    **{k: v for k, v in ps.items() if k in (
                        ("L", "rsh", "rp") if priors else ("tau2",))})
        if g is None:
            rep.und("falltime", n, "value not known")
        else:
            identity(rep, S, "falltime", n, AV(None, popt(g), E0,
                                               sh=(tm.ONE,)), e,
                     "the 1-pole fall time must be tau2", where)
        return
    ev = [e for e in evs if e.kind == "fsolve"]
    if not ev:
        rep.und("falltime", n, "no root finding seen")
        return
    d = ev[-1].data
    s = lambda k: tm.sym(k, real=True)  # noqa: E731
    t1, t2, a, tp, tm_, tn = [s("z_" + k) for k in ("t1", "t2", "a", "tp",
                                                    "tm", "tn")]
    inv = lambda x: tm.powq(x, -1)  # noqa: E731
    if poles == 2:
        rho = tp * tp * inv((t1 + t2) * tp - t1 * t2)
        tm_ = rho * t1 * t2 * inv(tp)
        vals = {"A": a, "B": a * (tm.ONE - rho) * inv(rho), "tau1": t1,
                "tau2": t2}
        roots = [tp, tm_]
    else:
        q, p = t1 * t2, t1 + t2
        p3 = tp * tm_ * tn
        p2 = tp * tm_ + tn * (tp + tm_)
        t3 = inv(p2 * inv(p3) - p * inv(q))
        K = p3 * inv(q * t3)
        # S1 = (t1 + u t2 + (1+b) t3) K with 1/K = u + b, u = 1 - C
        s1 = tp + tm_ + tn
        u = (s1 * inv(K) - t1 - t3 - t3 * inv(K)) * inv(t2 - t3)
        b = inv(K) - u
        vals = {"A": a, "B": a * b, "C": tm.ONE - u, "tau1": t1, "tau2": t2,
                "tau3": t3}
        roots = [tp, tm_, tn]
    # parameters of the impedance as seen by the fall-time equations
    x = d["x"]
    r = d["res"]
    its = r.items if isinstance(r, TupV) else None
    if its is None and isinstance(r, AV) and r.elems is not None:
        its = [r.elems[k] for k in sorted(r.elems)]
    if its is None and isinstance(r, RefV):
        its = S.I.static_iter(r)
    if its is None or priors:
        if priors:
            return
        rep.und("falltime", n, "equations not known")
        return
    order = IMP[poles] + ("dt",)
    sub = {"fitx%d" % i: vals[k] for i, k in enumerate(order) if k in vals}
    rsym = x.gv
    for j, v in enumerate(its):
        g = S.I.gv_of(v)
        if g is None:
            rep.und("falltime", "%s equation %d" % (n, j), "not known")
            continue
        g = popt(g)

        def rule(at, go):
            if at.kind == "fn" and at.name in ("idx", "get", "item") and \
                    isinstance(at.args[0], tm.Expr) and at.args[0] == rsym:
                k = at.args[1]
                if isinstance(k, tm.Expr):
                    k = k.const()
                if k is not None and int(k) < len(roots):
                    return roots[int(k)]
            return None
        try:
            g = tm.subst(deep(g, rule), sub)
            t, dd = eq_terms(g, tm.ZERO)
        except (tm.TooBig, ZeroDivisionError) as ex:
            t, dd = None, str(ex)
        rep.put(t, "falltime", "%s equation %d" % (n, j), "the equation for "
                "the fall times must hold for the inverse zeros of the "
                "impedance; left over: %s" % dd, where)


PROC = """
import warnings
p = fs/sgfreq
k = int(np.floor(n*dt/(1/sgfreq))*fs/sgfreq)
y = raw[:, :k]/gain
z = []
zero = None
for x in y:
    z.append(dec(t, x, rsh, amp, sgfreq, duty)[1])
z = np.array(z)
kept = ~np.any(np.isnan(y), axis=1)
y = y[kept]
z = z[kept]
"""


def processed(rep, phase, gain, nan, cls="DIDV"):
    """What is fitted: the mean admittance of the traces over whole periods of
    the drive, and its error."""
    S = Session()
    n = "processtraces%s%s%s%s" % (
        " of " + cls if cls != "DIDV" else "", " add180phase" if phase else "",
                                 " tracegain" if gain else "",
                                 " some traces with nan" if nan else "")
    w = "qetpy/core/didv/_base_didv.py in processtraces"
    arreval.DOMAIN.clear()
    fs = S.sc("fs", HZ, pos=True)
    arreval.DOMAIN["sgfreq"] = lambda e, r: e.expr(S.I.gv_of(fs)) / \
        r.choice((2, 3, 4))
    arreval.DOMAIN["M"] = lambda e, r: r.randint(3, 6)
    if nan:
        arreval.NANS["rawtraces"] = 0.06
    kw = dict(rawtraces=raws(S), fs=fs, sgfreq=S.sc("sgfreq", HZ, pos=True),
              sgamp=S.sc("sgamp", A_), rsh=S.sc("rsh", OHM, pos=True),
              dt0=S.sc("dt0", S_), dutycycle=S.sc("dutycycle"),
              add180phase=phase)
    if gain:
        kw["tracegain"] = S.sc("tracegain", D(D=1, A=-1))
    try:
        base = S.get(DIB, "_BaseDIDV")
        dec = S.I.get_attr(base, "_deconvolvedidv")
        o = S.call(S.get(DID if cls == "DIDV" else DIP, cls), **kw)
        S.meth(o, "processtraces")
        t = S.attr(o, "_time")
        env = dict(raw=kw["rawtraces"], fs=fs, sgfreq=kw["sgfreq"],
                   amp=kw["sgamp"], rsh=kw["rsh"], duty=kw["dutycycle"],
                   dt0=kw["dt0"], gain=kw.get("tracegain", const(1)),
                   dec=dec, t=t, n=AV(DLESS, N(S), E0, sh=()))
        pre = PROC.replace("n*dt/(1/sgfreq)", "n*sgfreq/fs")
        ph = " - 1/(2*sgfreq)" if phase else ""
        for k, body, what in (
                ("_time", "np.arange(k)/fs - dt0" + ph,
                 "the time from the start of the period, over whole periods"),
                ("_freq", "np.fft.fftfreq(k, 1/fs)",
                 "the frequencies of whole periods"),
                ("_tmean", "np.mean(y, axis=0)",
                 "the mean of the traces over whole periods"),
                ("_didvmean", "np.mean(z, axis=0)",
                 "the mean of the admittances of the traces"),
                ("_didvstd", "np.where(zero, 0, s)",
                 "the standard deviation of the mean of the admittances"),
                ("_didvstd ", "np.where(zero, (1 + 1j)*1e20, 0)",
                 "no weight for frequencies the drive does not have"),
                ("_offset", "np.mean(np.mean(y, axis=1))",
                 "the mean of the traces over whole periods"),
                ("_offset_err", "np.std(np.mean(y, axis=1))/"
                 "np.sqrt(len(y))", "the standard deviation of the mean")):
            v = S.attr(o, k.strip())
            if v is None:
                rep.und("fitted-data", "%s %s" % (n, k), "not an attribute",
                        w)
                continue
            p = pre
            if k.startswith("_didvstd"):
                p += ("s = (np.std(np.real(z), axis=0) + 1j*np.std(np.imag(z)"
                      ", axis=0))/np.sqrt(len(y))\n"
                      "i = dec(t, np.mean(y, axis=0), rsh, amp, sgfreq, "
                      "duty)[2]\nzero = np.zeros(k, dtype=bool)\n"
                      "zero[i] = True\n")
                v = formula(S, p + "return np.where(zero, %s)" % (
                    "v, 0" if k[-1] == " " else "0, v"), v=v, **env)
                if k[-1] == " ":
                    k = "drive-free"
            identity(rep, S, "fitted-data", "%s %s" % (n, k), v, formula(
                S, p + "return " + body, **env), what, w)
    except Raised as x:
        rep.und("fitted-data", n, "raises: %s" % x, w)
    finally:
        arreval.DOMAIN.clear()
        arreval.NANS.clear()
    used(rep, S)


def fromdata(rep, phase):
    """An object made from processed data holds that data, on its times and
    frequencies."""
    S = Session()
    n = "didvinitfromdata%s" % (" add180phase" if phase else "")
    w = "qetpy/core/didv/_didv.py in didvinitfromdata"
    try:
        o = specs.didv_init(S, phase)
        env = dict(fs=fsv(S), sgfreq=S.sc("sgfreq", HZ, pos=True),
                   dt0=S.sc("dt0", S_), n=AV(DLESS, N(S), E0, sh=()))
        ph = " - 1/(2*sgfreq)" if phase else ""
        for k, body, what in (
                ("_time", "np.arange(n)/fs - dt0" + ph,
                 "the time from the start of the period"),
                ("_freq", "np.fft.fftfreq(n, 1/fs)", "the frequencies")):
            identity(rep, S, "fitted-data", "%s %s" % (n, k), S.attr(o, k),
                     formula(S, body, **env), what, w)
        env = dict(tmean=S.arr("tmean", A_, (N(S),)),
                   didvmean=S.arr("didvmean", SIEM, (N(S),), real=False),
                   didvstd=S.arr("didvstd", SIEM, (N(S),), real=False),
                   offset=S.sc("offset", A_),
                   offset_err=S.sc("offset_err", A_))
        for k, v in env.items():
            identity(rep, S, "fitted-data", "%s %s" % (n, k),
                     S.attr(o, "_" + k), v, "the given " + k, w)
    except Raised as x:
        rep.und("fitted-data", n, "raises: %s" % x, w)
    used(rep, S)


def model_tasks(tier):
    out = [(model, (p,), "model %d" % p) for p in (1, 2, 3)]
    out += [(square, (p, d), "square %d %s" % (p, d)) for p in (1, 2, 3)
            for d in (None, "other")]
    out += [(drive, (d,), "drive %s" % d) for d in (None, "other")]
    return out


def fit_tasks(tier):
    out = [(fit, (p, pr), "fit %d %s" % (p, pr)) for p in (1, 2, 3)
           for pr in (False, True)]
    out += [(processed, a, "processed %s" % (a,)) for a in (
        (False, False, False), (True, True, False), (False, True, True),
        (True, True, False, "DIDVPriors"))]
    out += [(fromdata, (p,), "from data %s" % p) for p in (False, True)]
    return out + [(fit, (3, False, 2), "fit 3 after 2")]
