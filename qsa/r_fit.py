"""Nonlinear pulse fits: pulse models, residuals, chi-square, start, bounds."""
from . import terms as tm
from . import arreval
from .values import *      # noqa
from .entry import Session, Raised
from .specs import *       # noqa
from .rules import used, formula, identity

W = "qetpy/core/_fitting.py in %s"
POLE = {1: "onepole", 2: "twopole", 3: "threepole", 4: "fourpole"}
# time constants and amplitudes of the exponentials, as the docstrings have it
PARTS = {
    2: (("A", "tau_f"), ("-A", "tau_r")),
    3: (("A", "tau_f1"), ("B", "tau_f2"), ("-(A + B)", "tau_r")),
    4: (("A", "tau_f1"), ("B", "tau_f2"), ("C", "tau_f3"),
        ("-(A + B + C)", "tau_r")),
    5: (("A", "tau"),)}
PARTS[1] = PARTS[2]
PEAK = ("tm = np.log(tau_r/tau_f)*tau_r*tau_f/(tau_r - tau_f)\n"
        "A = A/(np.exp(-tm/tau_f) - np.exp(-tm/tau_r))\n")
MUON = ("A", "tau")


def freq(np_, scale, t0=True):
    """The Fourier transform of the sum of exponentials."""
    return (PEAK if scale and np_ < 3 else "") + \
        "w = 2*np.pi*np.fft.fftfreq(n, 1/fs)\nm = " + " + ".join(
            "(%s)*%s/(1 + 1j*w*%s)" % (a, t, t) for a, t in PARTS[np_]) + \
        "\nm = m*np.sqrt(fs/n)%s\n" % ("*np.exp(-1j*w*t0)" if t0 else "")


def time(np_, scale):
    return (PEAK if scale and np_ < 3 else "") + \
        "t = np.arange(n)/fs\nm = " + " + ".join(
            "(%s)*np.exp(-t/%s)" % p for p in PARTS[np_]) + \
        "\nreturn shift(m, int(t0*fs))"


def dom():
    arreval.DOMAIN.clear()
    for p in ("tau_r", "tau_f", "tau_f1", "tau_f2", "tau_f3", "tau"):
        arreval.DOMAIN[p] = lambda e, r: r.uniform(0.5, 4)
    arreval.DOMAIN["t0"] = lambda e, r: r.uniform(-1.5, 3.5)


def params(S, names):
    return {p: S.sc(p, pdim(p), pos=p.startswith("tau")) for p in names}


def size(S):
    return dict(n=AV(DLESS, tm.sym("N"), E0, sh=()),
                fs=S.sc("fs", HZ, pos=True))


def models(rep, np_, scale):
    """The models in the two domains are the documented pulse."""
    S = Session()
    dom()
    nm = POLE[np_]
    lab = "" if np_ > 2 else " [A is the height]" if scale else \
        " [A is the scale]"
    try:
        ps = params(S, PNAMES[np_])
        e = dict(ps, **size(S))
        if np_ == 1:
            e["tau_r"] = S.sc("tau_r", S_, pos=True)
        o = OFN(S)
        S.attrs(o)["scale_amplitude"] = const(scale)
        if np_ == 1:
            S.attrs(o)["taurise"] = e["tau_r"]
        got = S.meth(o, nm, *[ps[p] for p in PNAMES[np_]])
        identity(rep, S, "pulse-model", "OFnonlin.%s%s" % (nm, lab), got,
                 formula(S, freq(np_, scale) + "return m", **e),
                 "the transform of %s, delayed by t0, times sqrt(df)" %
                 " + ".join("(%s)*exp(-t/%s)" % p for p in PARTS[np_]),
                 W % ("OFnonlin." + nm))
        if np_ > 1:
            e["shift"] = S.get("qetpy.utils._utils", "shift")
            got = S.meth(o, nm + "time", *[ps[p] for p in PNAMES[np_]])
            identity(rep, S, "pulse-model", "OFnonlin.%stime%s" % (nm, lab),
                     got, formula(S, time(np_, scale), **e),
                     "%s, shifted by t0" % " + ".join(
                         "(%s)*exp(-t/%s)" % p for p in PARTS[np_]),
                     W % ("OFnonlin.%stime" % nm))
    except Raised as x:
        rep.und("pulse-model", nm + lab, "raises: %s" % x, W % nm)
    finally:
        arreval.DOMAIN.clear()
    used(rep, S)


DATA = "data = np.fft.fft(y)/np.sqrt(fs*n)\nerr = np.sqrt(psd/k)\n"


def relations(rep, S, lab, w, out, mk, names, model, env, ndof, guess=None,
              x0=None, bounds=None):
    """What is minimised, and what is returned for the minimum."""
    ev = [e for e in S.I.events[mk:] if e.kind == "lsq"]
    if len(ev) != 1:
        rep.und("fit-residual", lab, "%d fits" % len(ev), w)
        return
    d = ev[0].data

    def pars(v):
        return {p: formula(S, "v[%d]" % i, v=v) for i, p in enumerate(names)}
    pre = DATA + "psd[0] = 1e40\n" * 0
    ab = "np.sort(np.abs(z))"
    e = dict(env, **pars(d["x"]))
    identity(rep, S, "fit-residual", lab, formula(S, ab, z=d["res"]), formula(
        S, pre + model + "z = (data - m)/err\nz = np.stack((z.real, z.imag))"
        ".ravel()\nreturn " + ab, **e),
        "the residuals are the real and imaginary parts of (data - model) "
        "over the uncertainty", w)
    p = d["x0"]
    for nm, t in (x0 or {}).items():
        i = names.index(nm)
        identity(rep, S, "fit-start", "%s %s" % (lab, nm), formula(
            S, "p[%d]" % i, p=p), formula(S, t, **dict(env, **(guess or {}))),
            "the fit starts at %s" % t, w)
    b = d["kw"].get("bounds")
    if bounds:
        for i, nm in enumerate(names):
            for j, t in enumerate(bounds(nm)):
                identity(rep, S, "fit-bounds", "%s %s %s" % (
                    lab, nm, ("lower", "upper")[j]), formula(
                        S, "b[%d][%d]" % (j, i), b=b), formula(
                            S, t, g=formula(S, "p[%d]" % i, p=p), **env),
                    "the documented bound, " + t, w)
    identity(rep, S, "fit-result", lab + " parameters",
             out.items[0] if isinstance(out, TupV) else out, d["found"],
             "the parameters found by the minimisation", w)
    if not isinstance(out, TupV):
        return
    it = out.items
    e = dict(env, **pars(it[0]))
    identity(rep, S, "fit-result", lab + " chi-square", it[3], formula(
        S, pre + model + "return np.sum(np.abs(data - m)**2/err**2)" +
        ("/(n - %d)" % ndof if ndof else ""), **e),
        "chi-square of the returned parameters", w)
    identity(rep, S, "fit-result", lab + " errors", it[1], formula(
        S, "np.sqrt(np.diag(c))", c=it[2]),
        "square roots of the diagonal of the covariance", w)
    identity(rep, S, "fit-result", lab + " covariance", it[2], formula(
        S, "np.linalg.pinv(np.dot(j.T, j))", j=d["jac"]),
        "the inverse of the approximate Hessian J^T J of half the sum of "
        "squares", w)


def falltimes(rep, np_, full, given, template=False, scale=True, own=False):
    S = Session()
    dom()
    w = W % "OFnonlin.fit_falltimes"
    lab = "%d-pole fit%s%s%s" % (
        np_, " from a guess" if given else "", " with template" if template
        else "", ("" if scale else ", A is the scale") + (
            ", bounds given" if own else ""))
    names = PNAMES[np_]
    mk = S.I.mark()
    try:
        own = own and [[S.sc("%s_%s" % (p, x), pdim(p)) for p in names]
                       for x in ("lo", "up")]
        kw = dict(bounds=TupV([TupV(x) for x in own])) if own else {}
        out = fitpulse(S, np_, full, given, template, scale, **kw)
    except Raised as x:
        rep.und("fit-residual", lab, "raises: %s" % x, w)
        return
    n = N(S)
    psd = formula(S, "p = psd.copy()\np[0] = 1e40\nreturn p", psd=S.arr(
        "psd", D(P=1), (n,), pos=True))
    env = dict(size(S), y=S.arr("pulse", A_, (n,)), psd=psd,
               k=S.sc("errscale", DLESS, pos=True))
    if np_ == 1:
        env["tau_r"] = S.sc("taurise", S_, pos=True)
    g = {p + "_g": S.sc(p + "_g", pdim(p)) for p in names} if given else {}
    if given:
        x0 = {p: p + "_g" for p in names}
    else:
        x0 = {"t0": "np.argmax(y)/fs"}
        if template:
            x0["t0"] = "np.argmax(tpl)/fs"
            env["tpl"] = S.arr("template", DLESS, (n,))

    if own:
        env.update(("%s_%s" % (p, x), own[i][j]) for j, p in enumerate(names)
                   for i, x in enumerate(("lo", "up")))

    def bounds(p):
        if own:
            return p + "_lo", p + "_up"
        if p == "t0":
            return "g - 30/fs", "g + 30/fs"
        f = 10 if p.startswith("tau") else 100
        return "g/%d" % f, "g*%d" % f
    relations(rep, S, lab, w, out, mk, names, freq(np_, scale), env,
              len(names), g, x0, bounds)
    arreval.DOMAIN.clear()
    used(rep, S)


def muon(rep, full):
    S = Session()
    dom()
    w = W % "MuonTailFit.fitmuontail"
    n = N(S)
    try:
        o = MTF(S)
        ps = params(S, MUON)
        psd = S.arr("psd", D(P=1), (n,), pos=True)
        env = dict(size(S), y=S.arr("signal", A_, (n,)), psd=psd,
                   k=S.sc("errscale", DLESS, pos=True))
        if full:
            identity(rep, S, "pulse-model", "MuonTailFit.muontailfcn",
                     S.meth(o, "muontailfcn", *[ps[p] for p in MUON]),
                     formula(S, freq(5, False, False) + "return m", **dict(
                         ps, **size(S))),
                     "the transform of A*exp(-t/tau), times sqrt(df)",
                     W % "MuonTailFit.muontailfcn")
        mk = S.I.mark()
        out = S.meth(o, "fitmuontail", env["y"], lgcfullrtn=full,
                     errscale=env["k"])
        relations(rep, S, "muon tail fit", w, out, mk, list(MUON),
                  freq(5, False, False), env, 0)
    except Raised as x:
        rep.und("fit-residual", "muon tail fit", "raises: %s" % x, w)
    finally:
        arreval.DOMAIN.clear()
    used(rep, S)


def tasks(tier):
    r = []
    for n in (1, 2, 3, 4):
        for s in (True, False) if n < 3 else (True,):
            r.append((models, (n, s), "pulse model %d %s" % (n, s)))
        for full in (True, False):
            for given in (True, False):
                r.append((falltimes, (n, full, given), "fit %d" % n))
        for given in (True, False):
            r.append((falltimes, (n, True, given, False, True, True),
                      "fit %d bounds" % n))
    r.append((falltimes, (2, True, False, True, False), "fit template"))
    r.append((falltimes, (3, True, False, True), "fit template"))
    r.append((falltimes, (1, True, True, False, False), "fit scale"))
    return r + [(muon, (True,), "muon"), (muon, (False,), "muon short")]
