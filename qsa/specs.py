"""Catalogue of typed entry points: symbolic arguments, units and shapes of
the documented arguments and results, one entry per configuration."""
from . import terms as tm
from .values import *      # noqa
from .entry import Session, Raised

ENTRIES = []

A_ = D(A=1)
V_ = D(V=1)
S_ = D(s=1)
HZ = D(s=-1)
OHM = D(V=1, A=-1)
W_ = D(V=1, A=1)
HENRY = D(V=1, A=-1, s=1)
K_ = D(K=1)
PSDA = D(A=2, s=1)
PSDV = D(V=2, s=1)
PSDW = D(V=2, A=2, s=1)
ADU = D(D=1)
GAIN = D(D=1, A=-1)
EV = D(V=1)          # energy in eV: joule / elementary charge (A*s)


class Entry(object):
    def __init__(self, group, name, label, run, rets=None, opts=None):
        self.group = group      # which part of the package
        self.name = name        # public callable
        self.label = label      # configuration
        self.run = run          # Session -> result value
        self.rets = rets        # expected (dim, shape) structure or None
        self.opts = opts or {}

    @property
    def id(self):
        return "%s[%s]" % (self.name, self.label) if self.label else self.name


def spec(group, name, label, run, rets=None, **opts):
    ENTRIES.append(Entry(group, name, label, run, rets, opts))


class R(object):
    """Expected dimension and shape of one result (None = not stated)."""

    def __init__(self, dim=None, sh=None, struct=None):
        self.dim, self.sh = dim, sh


def N(S):
    return S.intsym("N")


def M(S):
    return S.intsym("M")


FIT = "qetpy.core._fitting"
UTL = "qetpy.utils._utils"
SIM = "qetpy.sim._sim"
NSE = "qetpy.core._noise"
IBS = "qetpy.core._ibis"
IVM = "qetpy.core._iv"
NSM = "qetpy.core._of_nsmb"
DID = "qetpy.core.didv._didv"
DIB = "qetpy.core.didv._base_didv"
DIP = "qetpy.core.didv._didv_priors"
CUT = "qetpy.cut._cut"


# =============================================================== optimum filter
def of_in(S, two=False):
    n = N(S)
    sig = S.arr("signal", A_, (M(S), n) if two else (n,))
    tmpl = S.arr("template", D(T=1), (n,))
    psd = S.arr("psd", D(P=1), (n,), pos=True)
    fs = S.sc("fs", HZ, pos=True)
    return sig, tmpl, psd, fs


def OF(S, coupling="DC", integralnorm=False):
    o = S.call(S.get(FIT, "OptimumFilter"), *of_in(S), coupling=coupling,
               integralnorm=integralnorm)
    return o


def i_(S, name, pos=False):
    return S.sc(name, DLESS, pos=pos, integer=True)


# The template has its own unit T and the power spectral density its own unit
# P: the units of the results then state how they respond to rescaling.
AT = D(A=1, T=-1)
CH = D(A=2, s=1, P=-1)
SG = D(P=Fraction(1, 2), s=Fraction(-1, 2), T=-1)
AMP = R(AT, ())
SIG = R(SG, ())
T0 = R(S_, ())
CHI = R(CH, ())

for cp in ("DC", "AC"):
    def _f(meth, label, kw, rets, pre=None, cp=cp, pos=lambda S: ()):
        def run(S):
            o = OF(S, cp)
            return S.meth(o, meth, *pos(S), **kw(S))
        spec("of", "OptimumFilter." + meth, (cp + " " + label).strip(), run,
             rets, coupling=cp)

    _f("ofamp_nodelay", "", lambda S: {}, (AMP, CHI))
    _f("ofamp_nodelay", "windowcenter",
       lambda S: dict(windowcenter=i_(S, "wc")), (AMP, CHI))
    _f("ofamp_withdelay", "", lambda S: {}, (AMP, T0, CHI))
    _f("ofamp_withdelay", "interp", lambda S: dict(interpolate_t0=True),
       (AMP, T0, CHI))
    _f("ofamp_withdelay", "window in pulse+",
       lambda S: dict(nconstrain=i_(S, "nc"), windowcenter=i_(S, "wc"),
                      pulse_direction_constraint=1), (AMP, T0, CHI))
    _f("ofamp_withdelay", "window out pulse- interp",
       lambda S: dict(nconstrain=i_(S, "nc"), lgcoutsidewindow=True,
                      windowcenter=i_(S, "wc"), interpolate_t0=True,
                      pulse_direction_constraint=-1), (AMP, T0, CHI))
    _f("ofamp_pileup_iterative", "", lambda S: {}, (AMP, T0, CHI),
       pos=lambda S: (S.sc("a1", AT), S.sc("t1", S_)))
    _f("ofamp_pileup_iterative", "window pulse interp",
       lambda S: dict(nconstrain=i_(S, "nc"), windowcenter=i_(S, "wc"),
                      lgcoutsidewindow=False, interpolate_t0=True,
                      pulse_direction_constraint=1), (AMP, T0, CHI),
       pos=lambda S: (S.sc("a1", AT), S.sc("t1", S_)))
    _f("ofamp_pileup_stationary", "", lambda S: {}, (AMP, AMP, T0, CHI))
    _f("ofamp_pileup_stationary", "window",
       lambda S: dict(nconstrain=i_(S, "nc"), windowcenter=i_(S, "wc"),
                      lgcoutsidewindow=False), (AMP, AMP, T0, CHI))
    _f("ofamp_baseline", "", lambda S: {}, (AMP, T0, CHI))
    _f("ofamp_baseline", "window pulse interp",
       lambda S: dict(nconstrain=i_(S, "nc"), windowcenter=i_(S, "wc"),
                      lgcoutsidewindow=True, interpolate_t0=True,
                      pulse_direction_constraint=-1), (AMP, T0, CHI))
    _f("energy_resolution", "", lambda S: {}, SIG)
    _f("time_resolution", "", lambda S: {},
       R(dmul(dmul(SG, D(T=1)), D(A=-1, s=1)), ()),
       pos=lambda S: (S.sc("amp", AT),))
    _f("chi2_nopulse", "", lambda S: {}, CHI)
    _f("chi2_lowfreq", "", lambda S: dict(fcutoff=S.sc("fcutoff", HZ)), CHI,
       pos=lambda S: (S.sc("amp", AT), S.sc("t0", S_)))
    _f("update_signal", "", lambda S: {}, None,
       pos=lambda S: (S.arr("signal2", A_, (N(S),)),))

    def _g(name, label, rets, kw=lambda S: {}, two=False, cp=cp):
        def run(S):
            return S.call(S.get(FIT, name), *of_in(S, two), coupling=cp,
                          **kw(S))
        spec("of", name, (cp + " " + label).strip(), run, rets, coupling=cp)

    _g("ofamp", "", (AMP, T0, CHI))
    _g("ofamp", "sigma", (AMP, T0, CHI, SIG), lambda S: dict(lgcsigma=True))
    _g("ofamp", "nodelay", (AMP, T0, CHI), lambda S: dict(withdelay=False))
    _g("ofamp", "window", (AMP, T0, CHI),
       lambda S: dict(nconstrain=i_(S, "nc")))
    _g("ofamp", "window out", (AMP, T0, CHI),
       lambda S: dict(nconstrain=i_(S, "nc"), lgcoutsidewindow=True))
    _g("ofamp", "many", (R(AT), R(S_), R(CH)), two=True)
    _g("ofamp", "many nodelay sigma",
       (R(AT), R(S_), R(CH), SIG),
       lambda S: dict(withdelay=False, lgcsigma=True), two=True)
    _g("ofamp_pileup", "", (AMP, T0, AMP, T0, CHI))
    _g("ofamp_pileup", "given", (AMP, T0, AMP, T0, CHI),
       lambda S: dict(a1=S.sc("a1", AT), t1=S.sc("t1", S_)))
    _g("ofamp_pileup", "window", (AMP, T0, AMP, T0, CHI),
       lambda S: dict(nconstrain1=i_(S, "nc"), nconstrain2=i_(S, "nc2"),
                      lgcoutsidewindow=False))
    _g("ofamp_pileup_stationary", "", (AMP, AMP, T0, CHI))
    _g("ofamp_pileup_stationary", "window", (AMP, AMP, T0, CHI),
       lambda S: dict(nconstrain=i_(S, "nc"), lgcoutsidewindow=True))

    def _h(label, two, cp=cp):
        def run(S):
            sig, tmpl, psd, fs = of_in(S, two)
            if two:
                amp = S.arr("amp", AT, (M(S),))
                t0 = S.arr("t0", S_, (M(S),))
            else:
                amp, t0 = S.sc("amp", AT), S.sc("t0", S_)
            return S.call(S.get(FIT, "chi2lowfreq"), sig, tmpl, amp, t0, psd,
                          fs, fcutoff=S.sc("fcutoff", HZ), coupling=cp)
        spec("of", "chi2lowfreq", cp + label, run, R(CH), coupling=cp)

        def run2(S):
            sig, tmpl, psd, fs = of_in(S, two)
            return S.call(S.get(FIT, "chi2_nopulse"), sig, psd, fs,
                          coupling=cp)
        spec("of", "chi2_nopulse", cp + label, run2, R(CH), coupling=cp)
    _h("", False)
    _h(" many", True)


def _init_integral(S):
    n = N(S)
    o = S.call(S.get(FIT, "OptimumFilter"), *of_in(S), integralnorm=True)
    return S.meth(o, "ofamp_withdelay")


spec("of", "OptimumFilter.ofamp_withdelay", "AC integralnorm", _init_integral,
     (R(D(A=1, s=1), ()), T0, CHI))


def _ofi(S):
    return S.call(S.get(FIT, "ofamp"), *of_in(S), integralnorm=True,
                  lgcsigma=True)


spec("of", "ofamp", "AC integralnorm", _ofi,
     (R(D(A=1, s=1), ()), T0, CHI, R(dmul(SG, D(T=1, s=1)), ())))


# ------------------------------------------------------------ nonlinear fits
NPAR = {1: 3, 2: 4, 3: 6, 4: 8}
PNAMES = {1: ("A", "tau_f", "t0"), 2: ("A", "tau_r", "tau_f", "t0"),
          3: ("A", "B", "tau_r", "tau_f1", "tau_f2", "t0"),
          4: ("A", "B", "C", "tau_r", "tau_f1", "tau_f2", "tau_f3", "t0")}


def pdim(p):
    return A_ if p in ("A", "B", "C") else S_


def OFN(S, template=False):
    n = N(S)
    kw = {}
    if template:
        kw["template"] = S.arr("template", DLESS, (n,))
    return S.call(S.get(FIT, "OFnonlin"), S.arr("psd", D(P=1), (n,), pos=True),
                  S.sc("fs", HZ, pos=True), **kw)


def fitpulse(S, np_, full, guess, template=False, scale=True, **kw):
    o = OFN(S, template)
    n = N(S)
    k = dict(npolefit=np_, lgcfullrtn=full, scale_amplitude=scale,
             errscale=S.sc("errscale", DLESS, pos=True))
    if guess:
        k["guess"] = TupV([S.sc(p + "_g", pdim(p)) for p in PNAMES[np_]])
    if np_ == 1:
        k["taurise"] = S.sc("taurise", S_, pos=True)
    k.update(kw)
    return S.meth(o, "fit_falltimes", S.arr("pulse", A_, (n,)), **k)


for np_ in (1, 2, 3, 4):
    for guess in (True, False):
        for full in (True, False):
            def run(S, np_=np_, guess=guess, full=full):
                return fitpulse(S, np_, full, guess)
            n_ = tm.num(NPAR[np_])
            r = R(None, (n_,))
            spec("ofnl", "OFnonlin.fit_falltimes", "%dpole%s%s" % (
                np_, " guess" if guess else "", " full" if full else ""),
                run, (r, R(None, (n_,)), R(None, (n_, n_)), CHI, R(None))
                if full else r, npole=np_)
spec("ofnl", "OFnonlin.fit_falltimes", "2pole template noscale",
     lambda S: fitpulse(S, 2, True, False, True, False), None)
spec("ofnl", "OFnonlin.fit_falltimes", "3pole template",
     lambda S: fitpulse(S, 3, True, False, True), None)

for m, np_ in (("onepole", 1), ("twopole", 2), ("threepole", 3),
               ("fourpole", 4)):
    def run(S, m=m, np_=np_):
        o = OFN(S)
        if np_ == 1:
            S.attrs(o)["taurise"] = S.sc("taurise", S_, pos=True)
        return S.meth(o, m, *[S.sc(p, pdim(p)) for p in PNAMES[np_]])
    spec("ofnl", "OFnonlin." + m, "", run,
         R(D(A=1, s=Fraction(1, 2)), (tm.sym("N"),)) and None)
    if np_ > 1:
        def run(S, m=m, np_=np_):
            o = OFN(S)
            return S.meth(o, m + "time",
                          *[S.sc(p, pdim(p)) for p in PNAMES[np_]])
        spec("ofnl", "OFnonlin." + m + "time", "", run, R(A_))


def MTF(S):
    n = N(S)
    return S.call(S.get(FIT, "MuonTailFit"),
                  S.arr("psd", D(P=1), (n,), pos=True), S.sc("fs", HZ, pos=True))


for full in (True, False):
    def run(S, full=full):
        return S.meth(MTF(S), "fitmuontail", S.arr("signal", A_, (N(S),)),
                      lgcfullrtn=full,
                      errscale=S.sc("errscale", DLESS, pos=True))
    r = R(None, (tm.num(2),))
    spec("ofnl", "MuonTailFit.fitmuontail", "full" if full else "", run,
         (r, R(None, (tm.num(2),)), R(None, (tm.num(2), tm.num(2))), CHI)
         if full else r)


# ======================================================================= utils
def _u(name, label, f, rets=None, **kw):
    spec("utils", name, label,
         lambda S: S.call(S.get(UTL, name), *f(S)[0], **f(S)[1]), rets, **kw)


_u("shift", "int", lambda S: ((S.arr("arr", A_, (N(S),)), i_(S, "num")), {}),
   R(A_))
_u("shift", "float", lambda S: ((S.arr("arr", A_, (N(S),)), S.sc("num")), {}),
   R(A_))
_u("make_template", "", lambda S: (
    (S.arr("t", S_, (N(S),)), S.sc("tau_r", S_, pos=True),
     S.sc("tau_f", S_, pos=True)), dict(offset=i_(S, "offset"))), R(DLESS))
_u("make_decreasing", "", lambda S: ((S.arr("y", A_, (N(S),)),), {}), R(A_))
_u("make_decreasing", "x", lambda S: (
    (S.arr("y", A_, (N(S),)),), dict(x=S.arr("x", S_, (N(S),)))), R(A_))
_u("calc_offset", "", lambda S: ((S.arr("x", A_, (M(S), N(S))),), {}),
   (R(A_, ()), R(A_, ())))
_u("calc_offset", "didv", lambda S: (
    (S.arr("x", A_, (M(S), N(S))),), dict(
        fs=S.sc("fs", HZ, pos=True), sgfreq=S.sc("sgfreq", HZ, pos=True),
        is_didv=True)), (R(A_), R(A_)))
_u("slope", "", lambda S: ((S.arr("x", S_, (N(S),)),
                            S.arr("y", S_, (N(S),))), {}), R(DLESS, ()))
_u("slope", "nomeans", lambda S: (
    (S.arr("x", S_, (N(S),)), S.arr("y", A_, (N(S),))),
    dict(removemeans=False)), R(D(A=1, s=-1), ()))
_u("fill_negatives", "", lambda S: ((S.arr("arr", A_, (N(S),)),), {}), R(A_),
   mutates=("arr",))
_u("lowpassfilter", "", lambda S: (
    (S.arr("traces", A_, (M(S), N(S))),), dict(
        cut_off_freq=S.sc("cut_off_freq", HZ, pos=True),
        fs=S.sc("fs", HZ, pos=True), order=i_(S, "order"))), R(A_))
for j in (True, False):
    _u("align_traces", "justshifts" if j else "", lambda S, j=j: (
        (S.arr("traces", A_, (M(S), N(S))),), dict(
            lgcjustshifts=j, n_cut=i_(S, "n_cut", True),
            cut_off_freq=S.sc("cut_off_freq", HZ, pos=True),
            fs=S.sc("fs", HZ, pos=True))),
       R(DLESS) if j else (R(DLESS), R(A_)))
for j in (True, False):
    _u("get_offset_from_muon", "full" if j else "", lambda S, j=j: (
        (S.arr("avemuon", A_, (N(S),)), S.sc("qetbias", A_),
         S.sc("rn", OHM), S.sc("rload", OHM)), dict(
            rsh=S.sc("rsh", OHM), nbaseline=i_(S, "nbaseline"),
            lgcfullrtn=j)),
       (R(A_, ()), R(OHM, ()), R(A_, ()), R(W_, ())) if j else R(A_, ()))
_u("powertrace_simple", "", lambda S: (
    (S.arr("trace", A_, (M(S), N(S))), S.sc("ioffset", A_),
     S.sc("qetbias", A_), S.sc("rload", OHM), S.sc("rsh", OHM)), {}),
   R(W_))


def _ea(S, **kw):
    return ((S.arr("trace", A_, (M(S), N(S))), S.sc("ioffset", A_),
             S.sc("qetbias", A_), S.sc("rload", OHM), S.sc("rsh", OHM)), kw)


_u("energy_absorbed", "fs baseline", lambda S: _ea(
    S, fs=S.sc("fs", HZ), baseline=S.arr("baseline", A_, (M(S), 1))), R(EV))
_u("energy_absorbed", "time pre", lambda S: _ea(
    S, time=S.arr("time", S_, (N(S),)), indbasepre=i_(S, "pre")), R(EV))
_u("energy_absorbed", "fs pre post", lambda S: _ea(
    S, fs=S.sc("fs", HZ), indbasepre=i_(S, "pre"),
    indbasepost=i_(S, "post")), R(EV))


def _eg(S, **kw):
    return ((S.sc("p0", W_, pos=True), S.sc("tc", K_, pos=True),
             S.sc("tbath", K_, pos=True)), kw)


_u("estimate_g", "", lambda S: _eg(S, p0_err=S.sc("p0_err", W_)),
   (R(D(V=1, A=1, K=-1), ()), R(D(V=1, A=1, K=-1), ())))
_u("resample_data", "", lambda S: (
    (S.arr("x", A_, (M(S), N(S))), S.sc("fs"), S.sc("sgfreq")), {}),
   (R(A_), R(DLESS, ())))
_u("resample_factors", "", lambda S: ((S.sc("fs"), S.sc("sgfreq")),
                                      {}), (R(DLESS, ()), R(DLESS, ())))


# ========================================================================= sim
def tes_kw(S, freqs=True, lgcb=True, **over):
    kw = dict(rload=S.sc("rload", OHM, pos=True),
              r0=S.sc("r0", OHM, pos=True),
              rshunt=S.sc("rshunt", OHM, pos=True), beta=S.sc("beta"),
              loopgain=S.sc("loopgain"), inductance=S.sc("inductance", HENRY),
              tau0=S.sc("tau0", S_), G=S.sc("G", D(V=1, A=1, K=-1)),
              qetbias=S.sc("qetbias", A_), tc=S.sc("tc", K_, pos=True),
              tload=S.sc("tload", K_, pos=True),
              tbath=S.sc("tbath", K_, pos=True), n=S.sc("n"), lgcb=lgcb,
              squiddc=S.sc("squiddc", D(A=1, s=Fraction(1, 2))),
              squidpole=S.sc("squidpole", HZ), squidn=S.sc("squidn"))
    if freqs:
        kw["freqs"] = S.arr("freqs", HZ, (N(S),), pos=True)
    kw.update(over)
    return kw


def TES(S, **kw):
    return S.call(S.get(SIM, "TESnoise"), **tes_kw(S, **kw))


TESM = {"dIdV": OHM and D(A=1, V=-1), "dIdP": D(V=-1), "s_vload": PSDV,
        "s_iload": PSDA, "s_pload": PSDW, "s_vtes": PSDV, "s_ites": PSDA,
        "s_ptes": PSDW, "s_ptfn": PSDW, "s_itfn": PSDA, "s_isquid": PSDA,
        "s_psquid": PSDW, "s_itot": PSDA, "s_ptot": PSDW,
        "dIdVnormal": D(A=1, V=-1), "s_iloadnormal": PSDA,
        "s_vtesnormal": PSDV, "s_itesnormal": PSDA, "s_itotnormal": PSDA,
        "dIdVsc": D(A=1, V=-1), "s_iloadsc": PSDA, "s_itotsc": PSDA}
for m, d in TESM.items():
    for fr in (False, True):
        for b in (True, False):
            def run(S, m=m, fr=fr, b=b):
                o = TES(S, lgcb=b)
                kw = {}
                if fr:
                    kw["freqs"] = S.arr("freqs2", HZ, (M(S),), pos=True)
                return S.meth(o, m, **kw)
            spec("tes", "TESnoise." + m, ("ballistic" if b else "diffusive")
                 + (" freqs" if fr else ""), run, R(d))
spec("tes", "energy_res_estimate", "", lambda S: S.call(
    S.get(SIM, "energy_res_estimate"), S.arr("freqs", HZ, (N(S),)),
    S.sc("tau_collect", S_), S.arr("Sp", PSDW, (N(S),), pos=True),
    S.sc("collection_eff")), R(EV))


# ======================================================================= noise
def Cn(S):
    return S.intsym("C")


def _n(name, label, f, rets=None, **kw):
    spec("noise", name, label,
         lambda S: S.call(S.get(NSE, name), *f(S)[0], **f(S)[1]), rets, **kw)


def fsv(S):
    return S.sc("fs", HZ, pos=True)


_n("foldpsd", "", lambda S: ((S.arr("psd", PSDA, (N(S),), pos=True), fsv(S)),
                             {}), (R(HZ), R(PSDA)))
for two in (False, True):
    for fo in (True, False):
        _n("calc_psd", ("many " if two else "") + ("folded" if fo else "two-sided"),
           lambda S, two=two, fo=fo: (
               (S.arr("x", A_, (M(S), N(S)) if two else (N(S),)),),
               dict(fs=fsv(S), folded_over=fo)), (R(HZ), R(PSDA)))
_n("smooth_psd", "", lambda S: ((S.arr("psd", PSDA, (N(S),), pos=True),), {}),
   R(PSDA))
_n("gen_noise", "", lambda S: (
    (S.arr("psd", PSDA, (N(S),), pos=True),),
    dict(fs=fsv(S), ntraces=i_(S, "ntraces", True))), R(A_))
_n("gen_noise", "infinite DC", lambda S: (
    (S.arr("psd", PSDA, (N(S),), pos=True, finite=False),),
    dict(fs=fsv(S), ntraces=i_(S, "ntraces", True))), R(A_))


def noise_obj(S, ndim=3, time=False):
    sh = (M(S), Cn(S), N(S)) if ndim == 3 else (M(S), N(S))
    nch = sh[1] if ndim == 3 else tm.num(1)
    kw = dict(tracegain=S.sc("tracegain", GAIN), name=const("name"))
    if time:
        kw["time"] = S.arr("time", S_, (N(S),))
    chans = S.lst([const("chan0")], root="channames") if ndim == 2 else \
        S.arr("channames", None, (nch,))
    return S.call(S.get(NSE, "Noise"), S.arr("traces", ADU, sh), fsv(S), chans,
                  **kw)


def attrs_after(mk, meths, names):
    def run(S):
        o = mk(S)
        for m in meths:
            if isinstance(m, tuple):
                S.meth(o, m[0], **m[1](S))
            else:
                S.meth(o, m)
        S.obj = o
        return TupV([S.attr(o, n) for n in names])
    return run


PSDN = ("psd", "real_psd", "imag_psd")
CSDN = ("csd", "real_csd", "imag_csd", "real_csd_std", "imag_csd_std")
for nd in (3, 2):
    sfx = "" if nd == 3 else "one channel"
    spec("noise", "Noise.calculate_psd", sfx, attrs_after(
        lambda S, nd=nd: noise_obj(S, nd), ["calculate_psd"],
        PSDN + ("freqs", "time", "traces")),
        (R(PSDA), R(PSDA), R(PSDA), R(HZ), R(S_), R(A_)), attrs=PSDN,
        meth="calculate_psd")
spec("noise", "Noise.remove_trace_slope", "", attrs_after(
    lambda S: noise_obj(S, 3, True), ["remove_trace_slope"], ("traces",)),
    (R(A_),), attrs=("traces",), meth="remove_trace_slope")
spec("noise", "Noise.calculate_corrcoeff", "", attrs_after(
    lambda S: noise_obj(S), ["calculate_corrcoeff"], ("corrcoeff",)),
    (R(DLESS),), attrs=("corrcoeff",), meth="calculate_corrcoeff")
spec("noise", "Noise.calculate_csd", "", attrs_after(
    lambda S: noise_obj(S), ["calculate_csd"], CSDN),
    tuple(R(PSDA) for _ in CSDN), attrs=CSDN, meth="calculate_csd")
spec("noise", "Noise.calculate_uncorr_noise", "", attrs_after(
    lambda S: noise_obj(S), ["calculate_uncorr_noise"],
    ("uncorrnoise", "corrnoise")), (R(PSDA), R(PSDA)),
    attrs=("uncorrnoise", "corrnoise"), meth="calculate_uncorr_noise")


# ======================================================================== IBIS
U = D(u=1)            # one power of "uncertainty"


def u(d):
    return dmul(d, U)


def ibis_obj(S, fitsc=True, nd=3, rp="scalar", err=True):
    sh = {3: (S.intsym("T"), Cn(S), N(S)), 2: (Cn(S), N(S)), 1: (N(S),)}[nd]
    T, C = (sh[0] if nd == 3 else tm.num(1)), (sh[-2] if nd > 1 else tm.num(1))
    e = u if err else (lambda d: d)
    if rp == "scalar":
        rpg, rpe = S.sc("rp_guess", OHM), S.sc("rp_err_guess", e(OHM))
    else:
        s2 = {"nch": (C,), "temps": (T, C), "full": (T, C, N(S))}[rp]
        rpg = S.arr("rp_guess", OHM, s2)
        rpe = S.arr("rp_err_guess", e(OHM), s2)
    kw = dict(rp_guess=rpg, rp_err_guess=rpe,
              chan_names=S.arr("chan_names", None, (C,)), fitsc=fitsc)
    if fitsc:
        kw["scinds"] = S.arr("scinds", DLESS, (S.intsym("ns"),), integer=True)
    return S.call(S.get(IBS, "IBIS"), S.arr("dites", A_, sh),
                  S.arr("dites_err", e(A_), sh), S.arr("ibias", A_, sh),
                  S.arr("ibias_err", e(A_), sh), S.sc("rsh", OHM),
                  S.sc("rsh_err", e(OHM)),
                  S.arr("normalinds", DLESS, (S.intsym("nn"),), integer=True),
                  **kw)


IBN = [("ioff", A_), ("ibias_off", A_), ("ibias_true", A_), ("ites", A_),
       ("rfit", OHM), ("rp", OHM), ("rnorm", OHM), ("r0", OHM),
       ("ptes", W_), ("vb", V_)]
IBNAMES = tuple(n for n, _ in IBN) + tuple(n + "_err" for n, _ in IBN)
IBR = tuple(R(d) for _, d in IBN) + tuple(R(u(d)) for _, d in IBN)


def offs(S):
    sh = (S.intsym("T"), Cn(S), N(S))
    return dict(yoff=S.arr("yoff", A_, sh), yoff_err=S.arr("yoff_err", u(A_), sh),
                xoff=S.arr("xoff", A_, sh), xoff_err=S.arr("xoff_err", u(A_), sh))


for sc in (True, False):
    for nd in (3, 2, 1):
        for rp in (("scalar", "nch", "temps", "full") if nd == 3 else ("scalar",)):
            if sc and rp != "scalar":
                continue
            spec("ibis", "IBIS.analyze", "%s %dd rp=%s" % (
                "sc" if sc else "nosc", nd, rp), attrs_after(
                    lambda S, sc=sc, nd=nd, rp=rp: ibis_obj(S, sc, nd, rp),
                    ["analyze"], IBNAMES), IBR, attrs=IBNAMES,
                meth="analyze", rp=rp, nd=nd)
    spec("ibis", "IBIS.analyze", "%s offsets" % ("sc" if sc else "nosc"),
         attrs_after(lambda S, sc=sc: ibis_obj(S, sc), [("analyze", offs)],
                     IBNAMES), IBR, attrs=IBNAMES, meth="analyze", rp="scalar",
         nd=3)


def iv_obj(S, nd=3, rl="scalar", norm=True):
    sh = {3: (S.intsym("T"), Cn(S), N(S)), 2: (Cn(S), N(S)), 1: (N(S),)}[nd]
    T, C = (sh[0] if nd == 3 else tm.num(1)), (sh[-2] if nd > 1 else tm.num(1))
    e = u if norm else (lambda d: d)
    if rl == "scalar":
        r, re = S.sc("rload", OHM), S.sc("rload_err", e(OHM))
    else:
        s2 = {"nch": (C,), "temps": (T, C), "full": (T, C, N(S))}[rl]
        r, re = S.arr("rload", OHM, s2), S.arr("rload_err", e(OHM), s2)
    kw = {}
    if norm:
        kw["normalinds"] = S.arr("normalinds", DLESS, (S.intsym("nn"),),
                                 integer=True)
    return S.call(S.get(IVM, "IV"), S.arr("dites", A_, sh),
                  S.arr("dites_err", e(A_), sh), S.arr("vb", V_, sh),
                  S.arr("vb_err", e(V_), sh), r, re,
                  S.arr("chan_names", None, (C,)), **kw)


IVN = [("ioff", A_), ("rfit", OHM), ("rnorm", OHM), ("ites", A_), ("r0", OHM),
       ("ptes", W_)]
IVNAMES = tuple(n for n, _ in IVN) + tuple(n + "_err" for n, _ in IVN)
for nd in (3, 2, 1):
    for rl in (("scalar", "nch", "temps", "full") if nd == 3 else ("scalar",)):
        for norm in (True, False):
            e = u if norm else (lambda d: d)
            spec("ibis", "IV.calc_iv", "%dd rload=%s%s" % (
                nd, rl, "" if norm else " auto"), attrs_after(
                    lambda S, nd=nd, rl=rl, norm=norm: iv_obj(S, nd, rl, norm),
                    ["calc_iv"], IVNAMES),
                tuple(R(d) for _, d in IVN) + tuple(R(e(d)) for _, d in IVN),
                attrs=IVNAMES, meth="calc_iv", rp=rl, nd=nd)


# ====================================================================== of_nsmb
def nsmb_sizes(S):
    n, nb = N(S), S.intsym("nb")
    return n, nb, tm.add(nb, tm.num(1))


def nsmb_in(S):
    n, nb, nsb = nsmb_sizes(S)
    return dict(
        pulset=S.arr("pulset", A_, (n,)),
        phi=S.arr("phi", D(A=-2), (nsb, n), real=False),
        sbtemplatef=S.arr("sbtemplatef", DLESS, (nsb, n), real=False),
        sbtemplate=S.arr("sbtemplate", DLESS, (n, nsb)),
        psddnu=S.arr("psddnu", D(A=2), (1, n), pos=True),
        fs=S.sc("fs", HZ, pos=True), ns=const(1), nb=S.intv(nb, "nb"))


def nsmb_win(S, extra=0):
    k = S.intsym("K")
    return S.lst([S.arr("indwindow", DLESS, (1, k), integer=True)] +
                 [S.arr("cwindow%d" % i, DLESS, (1, S.intsym("K%d" % i)),
                        integer=True) for i in range(extra)],
                 root="indwindow_nsmb")


def bitcombv(S):
    e = S.lst(elem=S.sc("bit", DLESS, integer=True), root="bitcomb")
    return S.lst(elem=e, root="bitcomb")


def _s(name, label, f, rets=None, **kw):
    spec("nsmb", name, label,
         lambda S: S.call(S.get(NSM, name), **f(S)), rets, **kw)


_s("of_nsmb_ffttemplate", "", lambda S: dict(
    stemplatet=S.arr("stemplatet", DLESS, (N(S), 1)),
    btemplatet=S.arr("btemplatet", DLESS, (N(S), S.intsym("nb")))),
   (R(DLESS), R(DLESS)))
_s("of_nsmb_getPf", "", lambda S: dict(
    sbtemplatef=S.arr("sbtemplatef", DLESS, (N(S), nsmb_sizes(S)[2]),
                      real=False),
    psddnu=S.arr("psddnu", D(A=2), (N(S), 1), pos=True), ns=const(1),
    nb=S.intv(S.intsym("nb")), nt=S.intv(N(S))),
   (R(D(A=-2)), R(D(A=-2)), R(D(A=-2))))
for bm in (False, True):
    _s("of_nsmb_getPt", "bitmask" if bm else "bitcomb", lambda S, bm=bm: dict(
        Pfs=S.arr("Pfs", D(A=-2), (nsmb_sizes(S)[2],) * 2),
        P=S.arr("P", D(A=-2), (nsmb_sizes(S)[2],) * 2 + (N(S),)),
        bindelay=i_(S, "bindelay"),
        **(dict(bitmask=S.arr("bitmask", DLESS, (nsmb_sizes(S)[2],),
                              integer=True)) if bm else
           dict(combind=i_(S, "combind"), bitcomb=bitcombv(S)))),
       (R(D(A=-2)), R(D(A=2))))
_s("of_nsmb_setup", "", lambda S: dict(
    stemplatet=S.arr("stemplatet", DLESS, (N(S),)),
    btemplatet=S.arr("btemplatet", DLESS, (N(S), S.intsym("nb"))),
    psd=S.arr("psd", PSDA, (N(S),), pos=True), fs=fsv(S)),
   (R(D(A=2)), R(D(A=-2)), R(D(A=-2)), R(D(A=-2)), R(DLESS), R(DLESS),
    R(D(A=2)), R(D(A=-2)), R(DLESS), R(DLESS), R(None), R(DLESS)))
_s("of_nsmb_getiP", "", lambda S: dict(
    P=S.arr("P", D(A=-2), (nsmb_sizes(S)[2],) * 2 + (N(S),))), R(D(A=2)))


def _mb(S, **kw):
    d = nsmb_in(S)
    nb = S.intsym("nb")
    d.update(iB=S.arr("iB", D(A=2), (nb, nb)), B=S.arr("B", D(A=-2), (nb, nb)))
    d.update(kw)
    return d


PLOTS = {}
for pol in (False, True):
    _s("of_mb", "polarity" if pol else "", lambda S, pol=pol: _mb(
        S, lfindex=i_(S, "lfindex"), **(dict(bkgpolarityconstraint=S.arr(
            "bpc", DLESS, (S.intsym("nb"),))) if pol else {})),
       (R(A_), R(DLESS), R(DLESS)))
_s("of_nsmb", "", lambda S: dict(
    nsmb_in(S), iPt=S.arr("iPt", D(A=2), (nsmb_sizes(S)[2],) * 2 + (N(S),)),
    indwindow_nsmb=nsmb_win(S), bitcomb=bitcombv(S), lfindex=i_(S, "lfindex")),
   (R(A_), R(S_), R(DLESS), R(DLESS), R(A_)))
for pol in (False, True):
    for ex in (0, 1):
        _s("of_nsmb_con", ("polarity " if pol else "") + "%d windows" % ex,
           lambda S, pol=pol, ex=ex: dict(
               nsmb_in(S),
               Pfs=S.arr("Pfs", D(A=-2), (nsmb_sizes(S)[2],) * 2),
               P=S.arr("P", D(A=-2), (nsmb_sizes(S)[2],) * 2 + (N(S),)),
               indwindow_nsmb=nsmb_win(S, ex), bitcomb=bitcombv(S),
               lfindex=i_(S, "lfindex"), **(dict(
                   bkgpolarityconstraint=S.arr(
                       "bpc", DLESS, (S.intsym("nb"),)),
                   sigpolarityconstraint=S.arr("spc", DLESS, (1,)))
                   if pol else {})),
           (R(A_), R(S_), R(DLESS), R(DLESS), R(A_), R(A_), R(DLESS), R(S_),
            R(A_), R(S_), R(DLESS), R(A_), R(DLESS), R(S_)))
# one background template
_s("of_nsmb_setup", "one background", lambda S: dict(
    stemplatet=S.arr("stemplatet", DLESS, (N(S),)),
    btemplatet=S.arr("btemplatet", DLESS, (N(S), tm.ONE)),
    psd=S.arr("psd", PSDA, (N(S),), pos=True), fs=fsv(S)),
   (R(D(A=2)), R(D(A=-2)), R(D(A=-2)), R(D(A=-2)), R(DLESS), R(DLESS),
    R(D(A=2)), R(D(A=-2)), R(DLESS), R(DLESS), R(None), R(DLESS)))


def nsmb1(S):
    n, m = N(S), tm.num(2)
    return dict(
        pulset=S.arr("pulset", A_, (n,)),
        phi=S.arr("phi", D(A=-2), (m, n), real=False),
        sbtemplatef=S.arr("sbtemplatef", DLESS, (m, n), real=False),
        sbtemplate=S.arr("sbtemplate", DLESS, (n, m)),
        psddnu=S.arr("psddnu", D(A=2), (1, n), pos=True),
        fs=S.sc("fs", HZ, pos=True), ns=const(1), nb=const(1))


def P1(S):
    m = tm.num(2)
    return dict(Pfs=S.arr("Pfs", D(A=-2), (m, m)),
                P=S.arr("P", D(A=-2), (m, m, N(S))))


for _a, _b in ((1, 1), (0, 1), (1, 0)):
    _s("of_nsmb_getPt", "mask %d%d" % (_a, _b), lambda S, _a=_a, _b=_b: dict(
        P1(S), bindelay=i_(S, "bindelay"), bitmask=S.lst(
            [const(_a), const(_b)])), (R(D(A=-2)), R(D(A=2))))
_s("of_mb", "one background", lambda S: dict(
    nsmb1(S), iB=S.arr("iB", D(A=2), (1, 1)), B=S.arr("B", D(A=-2), (1, 1)),
    lfindex=i_(S, "lfindex"), bkgpolarityconstraint=S.arr("bpc", DLESS, (1,))),
   (R(A_), R(DLESS), R(DLESS)))
_s("of_nsmb", "one background", lambda S: dict(
    nsmb1(S), iPt=S.arr("iPt", D(A=2), (2, 2) + (N(S),)),
    indwindow_nsmb=nsmb_win(S), bitcomb=bitcombv(S), lfindex=i_(S, "lfindex")),
   (R(A_), R(S_), R(DLESS), R(DLESS), R(A_)))
_s("of_nsmb_con", "one background", lambda S: dict(
    nsmb1(S), indwindow_nsmb=nsmb_win(S, 1), bitcomb=bitcombv(S),
    lfindex=i_(S, "lfindex"), bkgpolarityconstraint=S.arr(
        "bpc", DLESS, (1,)), sigpolarityconstraint=S.arr("spc", DLESS, (1,)),
    **P1(S)),
   (R(A_), R(S_), R(DLESS), R(DLESS), R(A_), R(A_), R(DLESS), R(S_),
    R(A_), R(S_), R(DLESS), R(A_), R(DLESS), R(S_)))
_s("get_slope_dc_template_nsmb", "", lambda S: dict(nbin=S.intv(N(S), "nbin")),
   (R(DLESS), R(DLESS)))
for pol in (False, True):
    _s("maketemplate_ttlfit_nsmb", "polarity" if pol else "",
       lambda S, pol=pol: dict(
           template=S.arr("template", DLESS, (N(S),)), fs=fsv(S),
           ttlrate=S.sc("ttlrate", HZ, pos=True), lgcconstrainpolarity=pol,
           notch_window_size=i_(S, "notch")),
       (R(DLESS), R(DLESS), R(DLESS), R(None)))


# ========================================================================= dIdV
SSP = {1: ("rsh", "rp", "L"),
       2: ("rsh", "rp", "r0", "beta", "l", "L", "tau0"),
       3: ("rsh", "rp", "r0", "beta", "l", "L", "tau0", "gratio", "tau3")}
IMP = {1: ("A", "tau2"), 2: ("A", "B", "tau1", "tau2"),
       3: ("A", "B", "C", "tau1", "tau2", "tau3")}
SIEM = D(A=1, V=-1)


def sdim(p):
    if p in ("rsh", "rp", "r0", "A", "B"):
        return OHM
    if p in ("L",):
        return HENRY
    if p.startswith("tau") or p == "dt":
        return S_
    return DLESS


def ssp(S, poles):
    return {p: S.sc(p, sdim(p), pos=p in ("rsh", "rp", "r0", "L"))
            for p in SSP[poles]}


def frq(S):
    return S.arr("freq", HZ, (N(S),))


spec("didv", "stdcomplex", "", lambda S: S.call(
    S.get(DIB, "stdcomplex"), S.arr("x", A_, (M(S), N(S)), real=False)), R(A_))
for p in (1, 2, 3):
    spec("didv", "compleximpedance", "%d poles" % p, lambda S, p=p: S.call(
        S.get(DIB, "compleximpedance"), frq(S), **ssp(S, p)), R(OHM), poles=p)
    spec("didv", "complexadmittance", "%d poles" % p, lambda S, p=p: S.call(
        S.get(DIB, "complexadmittance"), frq(S), **ssp(S, p)), R(SIEM),
        poles=p)
    for dc in ("half", "other"):
        spec("didv", "squarewaveresponse", "%d poles duty=%s" % (p, dc),
             lambda S, p=p, dc=dc: S.call(
                 S.get(DIB, "squarewaveresponse"), S.arr("t", S_, (N(S),)),
                 S.sc("sgamp", A_), S.sc("sgfreq", HZ, pos=True),
                 **dict(ssp(S, p), **({} if dc == "half" else
                                      dict(dutycycle=S.sc("dutycycle"))))),
             R(A_), poles=p)


def didv_kw(S, **over):
    kw = dict(tracegain=S.sc("tracegain", GAIN), dt0=S.sc("dt0", S_))
    kw.update(over)
    return kw


def raws(S):
    return S.arr("rawtraces", ADU, (M(S), N(S)))


def didv_obj(S, priors=False, phase=False, resample=False, **over):
    kw = didv_kw(S, add180phase=phase, **over)
    if not priors:
        kw.update(r0=S.sc("r0", OHM, pos=True), rp=S.sc("rp", OHM, pos=True))
    if resample:
        kw["autoresample"] = True
    return S.call(S.get(DIP if priors else DID,
                        "DIDVPriors" if priors else "DIDV"),
                  raws(S), S.sc("fs", HZ, pos=True),
                  S.sc("sgfreq", HZ, pos=True), S.sc("sgamp", A_),
                  S.sc("rsh", OHM, pos=True), **kw)


PTN = [("_time", S_), ("_traces", A_), ("_flatinds", DLESS), ("_tmean", A_),
       ("_didvstd", SIEM), ("_didvmean", SIEM), ("_offset", A_),
       ("_offset_err", A_), ("_freq", HZ)]
for ph in (False, True):
    for dc in ("half", "other"):
        for pr in (False, True):
            spec("didv", "DIDV%s.processtraces" % ("Priors" if pr else ""),
                 "duty=%s%s" % (dc, " 180" if ph else ""), attrs_after(
                     lambda S, ph=ph, dc=dc, pr=pr: didv_obj(
                         S, pr, ph, **({} if dc == "half" else dict(
                             dutycycle=S.sc("dutycycle")))),
                     ["processtraces"], [n for n, _ in PTN]),
                 tuple(R(d) for _, d in PTN), attrs=[n for n, _ in PTN],
                 meth="processtraces")


def flat_dict(S, v, prefix=""):
    """Flatten nested dictionaries to {path: value}."""
    r = S.I.rec(v) if isinstance(v, RefV) else None
    out = {}
    if r is None or getattr(r, "items", None) is None or \
            not isinstance(r.items, dict):
        return {prefix: v}
    for k, x in r.items.items():
        out.update(flat_dict(S, x, prefix + "." + str(k) if prefix else str(k)))
    return out


def resdims(poles, priors):
    """Expected units of the entries of a fit result."""
    names = (SSP if priors else IMP)[poles] + ("dt",)
    out = {}
    for n in names:
        out["params." + n] = sdim(n)
        out["errors." + n] = sdim(n)
    if not priors:
        for n in SSP[poles] + ("dt",):
            out["smallsignalparams." + n] = sdim(n)
    out["falltimes"] = S_
    out["cost"] = DLESS
    out["didv0"] = SIEM
    return out


def didv_fit(S, poles, priors=False, after=None, phase=False, cut=False,
             init=False, units=False):
    if init:
        o = didv_init(S, phase)
    else:
        o = didv_obj(S, priors, phase)
    kw = dict(fcutoff=S.sc("fcutoff", HZ)) if cut else {}
    args = []
    if priors:
        n = len(SSP[poles]) + 1
        args = [S.arr("priors", None, (n,)), S.arr("priorscov", None, (n, n))]
        if units:
            from .rules import formula
            el = {}
            for i, nm in enumerate(SSP[poles] + ("dt",)):
                x = formula(S, "p[%d]" % i, p=args[0])
                el[(i,)] = AV(sdim(nm), x.gv, x.deps, sh=())
            args[0].elems = el
    if after:
        S.meth(o, "dofit", after)
    S.meth(o, "dofit", poles, *args, **kw)
    S.obj = o
    return S.meth(o, "fitresult", poles)


def didv_init(S, phase=False):
    n = N(S)
    return S.call(S.get(DID, "didvinitfromdata"), S.arr("tmean", A_, (n,)),
                  S.arr("didvmean", SIEM, (n,), real=False),
                  S.arr("didvstd", SIEM, (n,), real=False),
                  S.sc("offset", A_), S.sc("offset_err", A_),
                  S.sc("fs", HZ, pos=True), S.sc("sgfreq", HZ, pos=True),
                  S.sc("sgamp", A_), S.sc("rsh", OHM, pos=True),
                  r0=S.sc("r0", OHM, pos=True), rp=S.sc("rp", OHM, pos=True),
                  add180phase=phase, dt0=S.sc("dt0", S_))


for p in (1, 2, 3):
    spec("didv", "DIDV.dofit", "%d poles" % p, lambda S, p=p: didv_fit(S, p),
         None, poles=p, fit=resdims(p, False))
    spec("didv", "DIDV.dofit", "%d poles cutoff" % p,
         lambda S, p=p: didv_fit(S, p, cut=True), None, poles=p,
         fit=resdims(p, False))
    spec("didv", "DIDV.dofit", "%d poles from data" % p,
         lambda S, p=p: didv_fit(S, p, init=True), None, poles=p,
         fit=resdims(p, False))
    spec("didv", "DIDVPriors.dofit", "%d poles" % p,
         lambda S, p=p: didv_fit(S, p, True), None, poles=p)
    spec("didv", "DIDVPriors.dofit", "%d poles, priors with units" % p,
         lambda S, p=p: didv_fit(S, p, True, units=True), None, poles=p,
         fit=resdims(p, True))
spec("didv", "DIDV.dofit", "3 poles after 2", lambda S: didv_fit(
    S, 3, after=2), None, poles=3, fit=resdims(3, False))


# ========================================================================= cuts
def trc(S):
    return S.arr("traces", A_, (M(S), N(S)))


def _c(name, label, f, rets=None, **kw):
    spec("cut", name, label,
         lambda S: S.call(S.get(CUT, name), *f(S)[0], **f(S)[1]), rets, **kw)


_c("removeoutliers", "", lambda S: ((S.arr("x", A_, (M(S),)),), {}), None,
   mask=-1)
for ub in (False, True):
    _c("iterstat", "unbiased" if ub else "", lambda S, ub=ub: (
        (S.arr("data", A_, (M(S),)),), dict(
            cut=S.sc("cut"), return_unbiased_estimates=ub)),
       (R(A_), R(A_), R(DLESS)), mask=2)
_c("itercov", "1 array", lambda S: (
    (S.arr("data", A_, (M(S), S.intsym("nd"))),), {}),
   (R(A_), R(D(A=2)), R(DLESS)), mask=2)
_c("itercov", "2 arrays", lambda S: (
    (S.arr("x", A_, (M(S),)), S.arr("y", A_, (M(S),))), {}),
   (R(A_), R(D(A=2)), R(DLESS)), mask=2)
_c("symmetrizedist", "", lambda S: ((S.arr("vals", A_, (M(S),)),), {}), None,
   mask=-1)
for al in ("removeoutliers", "iterstat"):
    for nm in ("pileupcut", "slopecut", "baselinecut", "chi2cut"):
        vs = {"": {}}
        if nm == "pileupcut":
            vs["removemeans"] = dict(removemeans=True)
        if nm in ("slopecut", "baselinecut"):
            vs["didv"] = dict(is_didv=True, sgfreq=None)
        if nm == "slopecut":
            vs["symmetrize"] = dict(symmetrizeflag=True)
        for lab, kw in vs.items():
            _c(nm, (al + " " + lab).strip(), lambda S, kw=kw, al=al: (
                (trc(S),), dict({k: v for k, v in kw.items()
                                 if v is not None}, outlieralgo=al, fs=fsv(S),
                                nsig=S.sc("nsig"), **(
                                    {"sgfreq": S.sc("sgfreq", HZ, pos=True)}
                                    if "sgfreq" in kw else {}))), None,
                mask=-1)
    for lab, kw in {"": {}, "didv": dict(is_didv=True, sgfreq=None),
                    "symmetrize": dict(symmetrizeflag=True),
                    "none": dict(lgcpileup1=False, lgcslope=False,
                                 lgcbaseline=False, lgcpileup2=False,
                                 lgcchi2=False)}.items():
        _c("autocuts", (al + " " + lab).strip(), lambda S, kw=kw, al=al: (
            (trc(S),), dict({k: v for k, v in kw.items() if v is not None}, outlieralgo=al, fs=fsv(S), **(
                {"sgfreq": S.sc("sgfreq", HZ, pos=True)} if "sgfreq" in kw
                else {}))), None, mask=-1)
_c("get_muon_cut", "", lambda S: ((trc(S),), {}), None, mask=-1)


# ==================================================================== plotting
IVP = "qetpy.plotting"


def plot_spec(name, label, run, save, **opts):
    """save: the entry was asked to write a figure."""
    spec("plot", name, label, run, None, save=save, **opts)


def sv(S, on, path="savepath", name=None, flag="lgcsave"):
    if not on:
        return {}
    kw = {flag: True, path: S.strv("savepath")}
    if name:
        kw[name] = S.strv("savename")
    return kw


def ibis_done(S, iv):
    o = iv_obj(S) if iv else ibis_obj(S)
    S.meth(o, "calc_iv" if iv else "analyze")
    return o


for iv in (False, True):
    for m in ("plot_iv", "plot_rv", "plot_pv", "plot_all_curves"):
        for s_ in (False, True):
            plot_spec("%s.%s" % ("IV" if iv else "IBIS", m),
                      "save" if s_ else "", lambda S, iv=iv, m=m, s_=s_:
                      S.meth(ibis_done(S, iv), m, **sv(S, s_,
                                                       name="savename")), s_,
                      names=("savepath", "savename"))


def noise_done(S):
    o = noise_obj(S)
    for m in ("calculate_psd", "calculate_corrcoeff", "calculate_csd",
              "calculate_uncorr_noise"):
        S.meth(o, m)
    return o


for m, kws in {"plot_psd": ({}, {"lgcoverlay": False}), "plot_reim_psd": ({},),
               "plot_corrcoeff": ({},), "plot_csd": ({}, {"lgcreal": False}),
               "plot_decorrelatednoise": (
                   {}, {"lgcoverlay": True},
                   {"lgccorrelated": True, "lgcsum": True})}.items():
    for kw in kws:
        for s_ in (False, True):
            plot_spec("Noise." + m, ",".join(sorted(kw)) + (" save" if s_
                                                            else ""),
                      lambda S, m=m, kw=kw, s_=s_: S.meth(
                          noise_done(S), m, **dict(kw, **sv(S, s_))), s_,
                      names=("savepath", "name"))
for s_ in (False, True):
    plot_spec("compare_noise", "save" if s_ else "", lambda S, s_=s_: S.call(
        S.get(IVP, "compare_noise"), S.lst([noise_done(S)]),
        S.lst([const("chan0")]), **sv(S, s_)), s_, names=("savepath",))
    for ty in ("current", "power", "normal", "sc"):
        plot_spec("plot_noise_sim", ty + (" save" if s_ else ""),
                  lambda S, s_=s_, ty=ty: S.call(
                      S.get(IVP, "plot_noise_sim"), S.arr("f", HZ, (N(S),)),
                      S.arr("psd", PSDA, (N(S),), pos=True), TES(S), ty,
                      S.sc("qetbias2", A_), **sv(S, s_, path="figsavepath")),
                  s_, names=("savepath",))
for m in ("plot_full_trace", "plot_single_period_of_trace",
          "plot_zoomed_in_trace", "plot_didv_flipped", "plot_re_im_didv",
          "plot_abs_phase_didv", "plot_re_vs_im_dvdi"):
    for s_ in (False, True):
        def run(S, m=m, s_=s_):
            o = didv_obj(S)
            S.meth(o, "processtraces")
            return S.meth(o, m, **sv(S, s_, name="savename", flag="saveplot"))
        plot_spec("DIDV." + m, "save" if s_ else "", run, s_,
                  names=("savepath", "savename"))

        def run(S, m=m, s_=s_):
            o = didv_obj(S)
            S.meth(o, "dofit", 2)
            return S.meth(o, m, poles=2,
                          **sv(S, s_, name="savename", flag="saveplot"))
        plot_spec("DIDV." + m, "fit" + (" save" if s_ else ""), run, s_,
                  names=("savepath", "savename"))
for s_ in (False, True):
    def run(S, s_=s_):
        d = nsmb_in(S)
        return S.call(S.get(IVP, "plotnsmb"), S.arr("pulset", A_, (1, N(S))), d["fs"],
                      S.sc("tdelmin", S_), S.arr("amin", A_, (nsmb_sizes(
                          S)[2], 1)), d["sbtemplatef"], d["ns"], d["nb"],
                      S.intv(N(S)), d["psddnu"], **(
                          {"lgcsaveplots": True, "savepath": S.strv(
                              "savepath")} if s_ else {}))
    plot_spec("plotnsmb", "save" if s_ else "", run, s_, names=("savepath",))
    for nm in ("of_mb", "of_nsmb", "of_nsmb_con"):
        def run(S, s_=s_, nm=nm):
            d = nsmb_in(S)
            d["lfindex"] = i_(S, "lfindex")
            if nm == "of_mb":
                d = _mb(S)
            else:
                d["indwindow_nsmb"] = nsmb_win(S)
                d["bitcomb"] = bitcombv(S)
            if nm == "of_nsmb":
                d["iPt"] = S.arr("iPt", D(A=2), (nsmb_sizes(S)[2],) * 2
                                 + (N(S),))
            if nm == "of_nsmb_con":
                d["Pfs"] = S.arr("Pfs", D(A=-2), (nsmb_sizes(S)[2],) * 2)
                d["P"] = S.arr("P", D(A=-2), (nsmb_sizes(S)[2],) * 2 +
                               (N(S),))
            d["lgcplot"] = True
            if s_:
                d["lgcsaveplots"] = True
            return S.call(S.get(NSM, nm), **d)
        plot_spec(nm, "plot" + (" save" if s_ else ""), run, s_, plots=True)
for np_ in (1, 2, 3, 4):
    plot_spec("OFnonlin.fit_falltimes", "%dpole plot" % np_,
              lambda S, np_=np_: fitpulse(S, np_, False, True, lgcplot=True),
              False, plots=True)


def _save(S):
    o = noise_obj(S)
    return S.meth(o, "save", S.strv("savepath"))


plot_spec("Noise.save", "", _save, True, names=("savepath", "name"))
