"""Arguments that contradict each other are rejected with ValueError."""
from . import terms as tm
from .values import *      # noqa
from .entry import Session, Raised
from .specs import *       # noqa
from .rules import used


def rejected(rep, label, run, where, valid=False):
    """Every path of the call raises ValueError (valid: none raises)."""
    S = Session()
    m = S.I.mark()
    try:
        run(S)
        res = None
    except Raised as x:
        res = x.events
    ev = [e for e in S.I.events[m:] if e.kind == "raise"]
    key = "accepts" if valid else "rejects"
    if valid:
        if res is not None:
            rep.bad(key, label, "valid arguments are rejected: %s" % "; ".join(
                e.msg for e in res), res[0].where() if res else where)
        elif ev:
            rep.und(key, label, "may raise", ev[0].where())
        else:
            rep.ok(key, label)
    elif res is None:
        if ev:
            rep.und(key, label, "raises on some paths only", ev[0].where())
        elif any(e.kind in ("shape", "indexerr", "keyerr", "arity")
                 for e in S.I.events[m:]):
            rep.und(key, label, "fails otherwise", where)
        else:
            rep.bad(key, label, "no path of this call raises", where)
    else:
        o = sorted({(e.data or {}).get("exc") or "?" for e in res} - {"ValueError"})
        if not res:
            rep.und(key, label, "no statement raises", where)
        elif o:
            rep.bad(key, label, "raises %s, documented is ValueError" %
                    ", ".join(o), res[0].where())
        else:
            rep.ok(key, label)
    used(rep, S)


def v(x, **kw):
    return AV(DLESS, tm.num(x), E0, sh=(), cst=x, **kw)


def of_call(n, ps=None, **kw):
    """A constrained fit of a trace of n samples."""
    def run(S):
        s = S.arr("signal", A_, (tm.num(n),))
        t = S.arr("template", D(T=1), (tm.num(n),))
        p = S.arr("psd", D(P=1), (tm.num(n),), pos=True)
        o = S.call(S.get(FIT, "OptimumFilter"), s, t, p,
                   S.sc("fs", HZ, pos=True))
        return S.meth(o, "ofamp_withdelay", **kw)
    return run


def lengths(name, short, two=False):
    def run(S):
        n = tm.num(6)
        k = tm.num(5 if short else 6)
        a = [S.arr("signal", A_, (n,)), S.arr("template", D(T=1), (n,)),
             S.arr("psd", D(P=1), (k,), pos=True), S.sc("fs", HZ, pos=True)]
        return S.call(S.get(FIT, name), *a)
    return run


def ibis(S, sh, names, rp=None, **kw):
    e = u
    return S.call(S.get(IBS, "IBIS"), S.arr("dites", A_, sh),
                  S.arr("dites_err", e(A_), sh), S.arr("ibias", A_, sh),
                  S.arr("ibias_err", e(A_), sh), S.sc("rsh", OHM),
                  S.sc("rsh_err", e(OHM)), range_(S),
                  S.sc("rp_guess", OHM) if rp is None else
                  S.arr("rp_guess", OHM, rp),
                  S.sc("rp_err_guess", e(OHM)) if rp is None else
                  S.arr("rp_err_guess", e(OHM), rp), names, **kw)


def range_(S):
    return S.arr("normalinds", DLESS, (S.intsym("nn"),), integer=True)


def iv(S, sh, names, rl=None):
    return S.call(S.get(IVM, "IV"), S.arr("dites", A_, sh),
                  S.arr("dites_err", A_, sh), S.arr("vb", V_, sh),
                  S.arr("vb_err", V_, sh),
                  S.sc("rload", OHM) if rl is None else
                  S.arr("rload", OHM, rl),
                  S.sc("rload_err", OHM) if rl is None else
                  S.arr("rload_err", OHM, rl), names)


def chans(S, n):
    return S.lst([const("chan%d" % i) for i in range(n)])


def sweeps(cls, mk):
    w = "qetpy/core/_%s.py in %s.__init__" % (cls.lower(), cls)
    sh = lambda *a: tuple(tm.num(x) for x in a)      # noqa
    kw = dict(fitsc=False) if cls == "IBIS" else {}
    for lab, s, nc, r, ok in (
            ("four dimensions", sh(2, 2, 3, 5), 2, None, False),
            ("three names for two channels", sh(3, 2, 5), 3, None, False),
            ("one name for two channels", sh(2, 5), 1, None, False),
            ("two names for one sweep", sh(5), 2, None, False),
            ("resistances of three of two channels", sh(3, 2, 5), 2, sh(4),
             False),
            ("resistances transposed", sh(3, 2, 5), 2, sh(2, 3), False),
            ("one channel", sh(5), 1, None, True),
            ("two channels", sh(2, 5), 2, None, True),
            ("two channels, three temperatures", sh(3, 2, 5), 2, None, True),
            ("a resistance per channel", sh(3, 2, 5), 2, sh(2), True),
            ("a resistance per channel and temperature", sh(3, 2, 5), 2,
             sh(3, 2), True),
            ("a resistance per point", sh(3, 2, 5), 2, sh(3, 2, 5), True)):
        yield ("%s: %s" % (cls, lab), lambda S, s=s, nc=nc, r=r: mk(
            S, s, chans(S, nc), r, **kw), w, ok)


def nonlin(np_, glen=None, **kw):
    def run(S):
        o = OFN(S)
        k = dict(npolefit=np_, **kw)
        if glen is not None:
            k["guess"] = TupV([S.sc("g%d" % i) for i in range(glen)])
        return S.meth(o, "fit_falltimes", S.arr("pulse", A_, (N(S),)), **k)
    return run


SP = {"rsh": OHM, "rp": OHM, "r0": OHM, "beta": DLESS, "l": DLESS,
      "L": HENRY, "tau0": S_, "gratio": DLESS, "tau3": S_}


def model(name, drop):
    def run(S):
        kw = {k: S.sc(k, d) for k, d in SP.items() if k not in drop}
        return S.call(S.get(DIB, name), S.arr("f", HZ, (N(S),)), **kw)
    return run


def cases():
    F = "qetpy/core/_fitting.py in _argmin_chi2"
    for n in (6, 7):
        lo, hi = -(n//2), n//2 - (n + 1) % 2
        for c, ok in ((lo, True), (hi, True), (0, True), (lo - 1, False),
                      (hi + 1, False)):
            yield ("window centre %d of %d bins" % (c, n), of_call(
                n, windowcenter=v(c)), F, ok)
        for c, ok in ((1, True), (n, True), (n + 3, True), (0, False),
                      (-1, False)):
            yield ("window of %d of %d bins" % (c, n), of_call(
                n, nconstrain=v(c)), F, ok)
        for c, ok in ((1, True), (-1, True), (0, True), (2, False),
                      (-2, False)):
            yield ("pulse direction %d, %d bins" % (c, n), of_call(
                n, pulse_direction_constraint=v(c)), F, ok)
    for f in ("ofamp", "ofamp_pileup", "ofamp_pileup_stationary"):
        for s in (True, False):
            yield ("%s with a psd %s" % (f, "one bin short" if s else
                                         "of the same length"),
                   lengths(f, s), "qetpy/core/_fitting.py in " + f, not s)
    F = "qetpy/core/_fitting.py in OFnonlin.fit_falltimes"
    yield "one pole without rise time", nonlin(1), F, False
    for p in (1, 2, 3, 4):
        kw = dict(taurise=v(1.0)) if p == 1 else {}
        for k in (-1, 0, 1):
            yield ("guess of %d values for %d poles" % (NPAR[p] + k, p),
                   nonlin(p, NPAR[p] + k, **kw), F, not k)
    for cls, mk in (("IBIS", ibis), ("IV", iv)):
        for x in sweeps(cls, mk):
            yield x
    yield ("IBIS: superconducting fit without indices", lambda S: ibis(
        S, (tm.num(2), tm.num(5)), chans(S, 2), fitsc=True),
        "qetpy/core/_ibis.py in IBIS.__init__", False)
    yield ("IBIS: superconducting fit with indices", lambda S: ibis(
        S, (tm.num(2), tm.num(5)), chans(S, 2), fitsc=True, scinds=range_(S)),
        "qetpy/core/_ibis.py in IBIS.__init__", True)
    F = "qetpy/core/_noise.py in Noise"

    def noise(sh, nc, meth=None):
        def run(S):
            o = S.call(S.get(NSE, "Noise"), S.arr("traces", ADU, tuple(
                tm.num(x) if isinstance(x, int) else x(S) for x in sh)),
                S.sc("fs", HZ, pos=True), chans(S, nc),
                S.sc("tracegain", GAIN))
            if meth:
                S.meth(o, meth)
        return run
    yield "Noise: one trace", noise((N,), 1), F, False
    yield "Noise: one channel", noise((M, N), 1), F, True
    yield "Noise: two channels", noise((M, 2, N), 2), F, True
    yield "Noise: one name for two channels", noise((M, 2, N), 1), F, False
    yield "Noise: two names for one channel", noise((M, N), 2), F, False
    for m in ("calculate_corrcoeff", "calculate_csd"):
        yield "Noise.%s: one channel" % m, noise((M, N), 1, m), F, False
        yield "Noise.%s: two channels" % m, noise((M, 2, N), 2, m), F, True
    for nm in ("complexadmittance", "compleximpedance"):
        F = "qetpy/core/didv/_base_didv.py in " + nm
        for drop, ok in (((), True), (("gratio",), True), (("L",), False),
                         (("rsh",), False), (("rp",), False)):
            yield ("%s without %s" % (nm, " and ".join(drop) or "omissions"),
                   model(nm, drop), F, ok)

    def didv(fs, sg, **kw):
        def run(S):
            return S.call(S.get(DID, "DIDV"), raws(S), v(fs), v(sg),
                          S.sc("sgamp", A_), S.sc("rsh", OHM, pos=True), **kw)
        return run
    F = "qetpy/core/didv/_base_didv.py in _BaseDIDV.__init__"
    yield "DIDV: sampling rate no multiple", didv(1000, 7), F, False
    yield "DIDV: sampling rate a multiple", didv(1000, 8), F, True
    for p in (0, 4):
        yield ("DIDV.dofit(%d)" % p, lambda S, p=p: S.meth(prep(didv_obj(
            S), S), "dofit", v(p)), "qetpy/core/didv/_didv.py", False)
        yield ("DIDVPriors.dofit(%d)" % p, lambda S, p=p: S.meth(prep(
            didv_obj(S, True), S), "dofit", v(p), S.arr("priors", None, (
                tm.num(4),)), S.arr("priorscov", None, (
                    tm.num(4), tm.num(4)))),
            "qetpy/core/didv/_didv_priors.py", False)
    F = "qetpy/utils/_utils.py"
    for a, b, ok in ((625e3, 200, True), (625000.5, 200, False),
                     (625e3, 80.5, False)):
        yield ("resample_factors(%s, %s)" % (a, b), lambda S, a=a, b=b:
               S.call(S.get(UTL, "resample_factors"), v(a), v(b)),
               F + " in resample_factors", ok)
    F += " in energy_absorbed"
    for kw, ok in ((dict(), False), (dict(fs=1), False), (dict(
            indbasepre=1), False), (dict(fs=1, indbasepre=1), True), (dict(
                time=1, baseline=1), True), (dict(baseline=1), False)):
        def run(S, kw=kw):
            mk = dict(fs=lambda: S.sc("fs", HZ, pos=True),
                      indbasepre=lambda: i_(S, "pre"),
                      time=lambda: S.arr("time", S_, (N(S),)),
                      baseline=lambda: S.arr("baseline", A_, (M(S), 1)))
            return S.call(S.get(UTL, "energy_absorbed"), S.arr(
                "trace", A_, (M(S), N(S))), S.sc("ioffset", A_), S.sc(
                    "qetbias", A_), S.sc("rload", OHM), S.sc("rsh", OHM),
                **{k: mk[k]() for k in kw})
        yield "energy_absorbed with %s" % (", ".join(sorted(kw)) or
                                           "no option"), run, F, ok
    F = "qetpy/sim/_sim.py in loadfromdidv"
    for kind, p, rn, ok in (
            ("other", 2, True, False), ("normal", 1, False, False)):
        def run(S, kind=kind, p=p, rn=rn):
            didv_fit(S, p)
            kw = dict(rnormal=S.sc("rnormal", OHM, pos=True)) if rn else {}
            return S.call(S.get(SIM, "loadfromdidv"), S.obj, noisetype=kind,
                          **kw)
        yield "loadfromdidv(%s)%s" % (kind, "" if rn else
                                      " without rnormal"), run, F, ok
    F = "qetpy/cut/_cut.py in itercov"
    yield ("itercov of one list of numbers", lambda S: S.call(
        S.get(CUT, "itercov"), S.arr("x", A_, (M(S),))), F, False)
    yield ("itercov of two lists of numbers", lambda S: S.call(
        S.get(CUT, "itercov"), S.arr("x", A_, (M(S),)), S.arr(
            "y", A_, (M(S),))), F, True)
    F = "qetpy/cut/_cut.py in "
    for f in ("baselinecut", "slopecut", "chi2cut", "pileupcut"):
        for a, ok in (("removeoutliers", True), ("iterstat", True),
                      ("other", False)):
            def run(S, f=f, a=a):
                return S.call(S.get(CUT, f), S.arr(
                    "traces", A_, (M(S), tm.num(8))), outlieralgo=a)
            yield "%s with outlieralgo %s" % (f, a), run, F + f, ok


def prep(o, S):
    S.meth(o, "processtraces")
    return o


def tasks(tier):
    return [(rejected, c, c[0]) for c in [
        (lab, run, w, ok) for lab, run, w, ok in cases()]]
