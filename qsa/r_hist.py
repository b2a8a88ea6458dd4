"""The analysis objects give the same results in every order of their steps."""
from . import terms as tm
from .values import *      # noqa
from .entry import Session, Raised
from .specs import *       # noqa
from .rules import used, same, identity
from .checks import all_deps


def attrs(S, o, names):
    return TupV([S.attr(o, n) for n in names])


def results(S, o, p):
    d = flat_dict(S, S.meth(o, "fitresult", p))
    return TupV([d[k] for k in sorted(d)])


def nl(S, o, np_, pulse, full=True, **kw):
    x = "" if pulse == "pulse" else "_" + pulse
    k = dict(npolefit=np_, lgcfullrtn=full, errscale=S.sc(
        "errscale" + x, DLESS, pos=True))
    if np_ == 1:
        k["taurise"] = S.sc("taurise" + x, S_, pos=True)
    k.update(kw)
    r = S.meth(o, "fit_falltimes", S.arr(pulse, A_, (N(S),)), **k)
    if full:
        r = TupV((S.I.static_iter(r) or [r])[:4])
    return r


def guessed(S, o, p, pulse):
    """A fit with every optional argument given."""
    n = {1: 3, 2: 4, 3: 6, 4: 8}[p]
    v = TupV([S.sc("guess_%s%d" % (pulse, i)) for i in range(n)])
    return nl(S, o, p, pulse, False, guess=v, scale_amplitude=False,
              bounds=TupV([v, v]), taurise=S.sc("taurise_" + pulse, S_))


def muon(S, o, sig):
    k = {} if sig == "signal" else dict(errscale=S.sc("errscale_" + sig))
    return S.meth(o, "fitmuontail", S.arr(sig, A_, (N(S),)), lgcfullrtn=True,
                  **k)


def fit_step(p, cut=False):
    def run(S, o):
        S.meth(o, "dofit", p, **(dict(fcutoff=S.sc("fcut", HZ, pos=True))
                                 if cut else {}))
        return results(S, o, p)
    return run


def sloped(run):
    def f(S, o):
        S.meth(o, "remove_trace_slope")
        return run(S, o)
    return f


def offsets(S, o):
    t, c = S.intsym("T"), Cn(S)
    S.meth(o, "analyze", **{k: S.arr(k + "_other", A_, (t, c, 1))
                            for k in ("yoff", "yoff_err", "xoff", "xoff_err")})


def step(meth, names):
    def run(S, o):
        S.meth(o, meth)
        return attrs(S, o, names)
    return run


def processed(S, priors=False):
    o = didv_obj(S, priors)
    S.meth(o, "processtraces")
    return o


def tes(m, fr):
    def run(S, o):
        return S.meth(o, m, **(dict(freqs=S.arr(
            "freqs2", HZ, (M(S),), pos=True)) if fr else {}))
    return run


def objects():
    """name, how it is made, the steps whose results are compared, the steps
    that may come before, where."""
    for p in (1, 2, 3, 4):
        yield ("OFnonlin", OFN, {"%d poles" % p: lambda S, o, p=p: nl(
            S, o, p, "pulse")}, {
            "%d poles of another pulse%s" % (q, x):
                lambda S, o, q=q, g=g: g(S, o, q, "other")
            for q in (1, 2, 3, 4) for x, g in (
                ("", lambda S, o, q, n: nl(S, o, q, n, q != p)),
                (" with guess", guessed))},
            "qetpy/core/_fitting.py in OFnonlin")
    yield ("MuonTailFit", MTF, {"fit": lambda S, o: muon(S, o, "signal")},
           {"a fit of another signal": lambda S, o: muon(S, o, "other")},
           "qetpy/core/_fitting.py in MuonTailFit")
    for m in sorted(TESM):
        yield ("TESnoise", TES, {m: tes(m, False)}, {
            "%s at other frequencies" % k: tes(k, True)
            for k in sorted({m, "s_itot", "s_ptot", "dIdP"})},
            "qetpy/sim/_sim.py in TESnoise")
    nz = {"calculate_psd": PSDN + ("freqs",),
          "calculate_corrcoeff": ("corrcoeff",), "calculate_csd": CSDN}
    st = {k: step(k, v) for k, v in nz.items()}
    for k in nz:
        yield ("Noise", noise_obj, {k: st[k]}, st,
               "qetpy/core/_noise.py in Noise." + k)
        yield ("Noise", noise_obj, {k + " without slope": sloped(st[k])}, st,
               "qetpy/core/_noise.py in Noise." + k)
    fits = {"dofit(%d)" % p: fit_step(p) for p in (1, 2, 3)}
    for k in sorted(fits):
        yield ("DIDV", processed, {k: fits[k]}, dict(
            fits, **{"%s up to fcutoff" % k: fit_step(int(k[-2]), True)}),
               "qetpy/core/didv/_didv.py in DIDV.dofit")
    fp = {"dofit(%d)" % p: prior_step(p) for p in (1, 2, 3)}
    for k in sorted(fp):
        yield ("DIDVPriors", lambda S: processed(S, True), {k: fp[k]}, fp,
               "qetpy/core/didv/_didv_priors.py in DIDVPriors.dofit")
    names = [n for n, _ in PTN]
    pt = {"processtraces": step("processtraces", names)}
    yield ("DIDV", didv_obj, pt, dict(pt, **{"dofit(2)": fits["dofit(2)"]}),
           "qetpy/core/didv/_base_didv.py in processtraces")
    an = {"analyze": step("analyze", IBNAMES)}
    for sc in (True, False):
        yield ("IBIS", lambda S, sc=sc: ibis_obj(S, sc), an, dict(
            an, **{"analyze with given offsets": offsets}),
               "qetpy/core/_ibis.py in IBIS.analyze")
    cv = {"calc_iv": step("calc_iv", IVNAMES)}
    yield ("IV", iv_obj, cv, cv, "qetpy/core/_iv.py in IV.calc_iv")


# the three-pole fit starts at the two-pole result if there is one
GUESS = {("DIDV", "dofit(3)", "dofit(2)")}


def history(rep, name, mk, steps, before, w):
    for k, f in steps.items():
        for b, g in before.items():
            if (name, k, b) in GUESS:
                continue
            S = Session()
            lab = "%s: %s after %s" % (name, k, b)
            try:
                want = f(S, mk(S))
            except Raised as x:
                rep.und("independent-of-earlier-steps", lab, "raises: %s" % x,
                        w)
                continue
            try:
                o = mk(S)
                g(S, o)
                got = f(S, o)
            except Raised as x:
                rep.und("independent-of-earlier-steps", lab, "raises: %s" % x,
                        w)
                continue
            if name != "IBIS" and any(
                    "other" in d for d in all_deps(S, got)):
                rep.bad("independent-of-earlier-steps", lab, "the result "
                        "depends on the data of the earlier step", w)
                continue
            if name in ("IBIS", "IV"):
                for n, x, y in zip(IBNAMES if name == "IBIS" else IVNAMES,
                                   got.items, want.items):
                    identity(rep, S, "independent-of-earlier-steps",
                             lab + ": " + n, x, y, "as on a fresh object", w,
                             peel=True)
            else:
                same(rep, S, "independent-of-earlier-steps", lab, got, want,
                     "another result than on a fresh object", w)
            used(rep, S)


def refused(rep, name, mk, step, before, w):
    """An argument a fresh object needs is not replaced by an earlier one."""
    for k, f in step.items():
        for b, g in before.items():
            S = Session()
            lab = "%s: %s after %s" % (name, k, b)
            try:
                f(S, mk(S))
                rep.und("needed-argument", lab, "does not raise", w)
                continue
            except Raised:
                pass
            try:
                o = mk(S)
                g(S, o)
            except Raised as x:
                rep.und("needed-argument", lab, "raises: %s" % x, w)
                continue
            try:
                f(S, o)
                rep.bad("needed-argument", lab, "raises ValueError on a fresh "
                        "object but uses what an earlier call left behind", w)
            except Raised:
                rep.ok("needed-argument", lab, "", w)
            used(rep, S)


def kept(rep, name, mk, reads, after, w):
    """What a step left behind stays as it is when another one follows."""
    for k, (f, get) in reads.items():
        for b, g in after.items():
            if b == k:
                continue
            S = Session()
            lab = "%s: results of %s after %s" % (name, k, b)
            try:
                o = mk(S)
                f(S, o)
                want = get(S, o)
                g(S, o)
                got = get(S, o)
            except Raised as x:
                rep.und("results-kept", lab, "raises: %s" % x, w)
                continue
            same(rep, S, "results-kept", lab, got, want,
                 "changed by the later step", w)
            used(rep, S)


def readers():
    nz = {"calculate_psd": PSDN + ("freqs", "traces", "fs"),
          "calculate_corrcoeff": ("corrcoeff", "traces", "fs"),
          "calculate_csd": CSDN}
    st = {k: (step(k, v), lambda S, o, v=v: attrs(S, o, v))
          for k, v in nz.items()}
    yield ("Noise", noise_obj, st, {k: f for k, (f, _) in st.items()},
           "qetpy/core/_noise.py in Noise")
    fits = {"dofit(%d)" % p: (fit_step(p), lambda S, o, p=p: results(S, o, p))
            for p in (1, 2, 3)}
    yield ("DIDV", processed, fits, {k: f for k, (f, _) in fits.items()},
           "qetpy/core/didv/_didv.py in DIDV.dofit")
    pr = {"dofit(%d)" % p: (prior_step(p), lambda S, o, p=p: results(S, o, p))
          for p in (1, 2, 3)}
    yield ("DIDVPriors", lambda S: processed(S, True), pr,
           {k: f for k, (f, _) in pr.items()},
           "qetpy/core/didv/_didv_priors.py in DIDVPriors.dofit")
    names = [n for n, _ in PTN]
    yield ("DIDV", didv_obj, {"processtraces": (
        step("processtraces", names), lambda S, o: attrs(S, o, names))}, {
            k: f for k, (f, _) in fits.items()},
        "qetpy/core/didv/_didv.py in DIDV.dofit")


def prior_step(p):
    def run(S, o):
        n = len(SSP[p]) + 1
        S.meth(o, "dofit", p, S.arr("priors%d" % p, None, (n,)),
               S.arr("priorscov%d" % p, None, (n, n)))
        return results(S, o, p)
    return run


def refusals():
    yield ("OFnonlin", OFN, {"one pole without taurise": lambda S, o: nl(
        S, o, 1, "pulse", taurise=None)}, {
            "%d poles of another pulse" % q: lambda S, o, q=q: guessed(
                S, o, q, "other") for q in (1, 2)},
        "qetpy/core/_fitting.py in OFnonlin.fit_falltimes")


def tasks(tier):
    return [(refused, x, "refused " + x[0]) for x in refusals()] + [(history, x, "%s %s" % (x[0], " ".join(x[2])))
            for x in objects()] + [
        (kept, x, "kept " + x[0]) for x in readers()]
