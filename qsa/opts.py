"""Callables whose every documented argument must have an effect."""
from . import terms as tm
from .values import *      # noqa
from .specs import *       # noqa
from .specs import _mb
from .checks import Opt, r_options

OPTS = []


def opt(name, get, args, **kw):
    OPTS.append(Opt(name, get, args, **kw))


def dic(names, vals):
    return dict(zip(names, vals))


OFARGS = ("signal", "template", "inputpsd", "fs")


def ofa(S):
    return dic(OFARGS, of_in(S))


def ofcls(S):
    return S.get(FIT, "OptimumFilter")


cpl = lambda S: S.strv("coupling")           # noqa: E731
fl = lambda nm: (lambda S: S.sc(nm))         # noqa: E731


def iv_(nm):
    return lambda S: i_(S, nm)


opt("OptimumFilter", ofcls,
    lambda S: dic(("signal", "template", "psd", "fs"), of_in(S)),
    over=dict(coupling=cpl), post=lambda S, r: S.meth(r, "ofamp_withdelay"))
for m, args in {
        "ofamp_nodelay": (), "ofamp_withdelay": (),
        "ofamp_pileup_iterative": ("a1", "t1"),
        "ofamp_pileup_stationary": (), "ofamp_baseline": (),
        "energy_resolution": (), "time_resolution": ("amp",),
        "chi2_nopulse": (), "chi2_lowfreq": ("amp", "t0")}.items():
    def get(S, m=m):
        S.obj = OF(S)
        return S.I.get_attr(S.obj, m)

    def args_(S, args=args):
        return {a: S.sc(a, AT if a in ("a1", "amp") else S_) for a in args}
    opt("OptimumFilter." + m, get, args_, over=dict(
        nconstrain=iv_("nconstrain"), windowcenter=iv_("windowcenter"),
        fcutoff=lambda S: S.sc("fcutoff", HZ)))
for nm in ("ofamp", "ofamp_pileup", "ofamp_pileup_stationary",
           "chi2lowfreq", "chi2_nopulse"):
    def get(S, nm=nm):
        return S.get(FIT, nm)
    names = {"chi2lowfreq": ("signal", "template", None, "fs")}
    def args_(S, nm=nm):
        f = S.get(FIT, nm)
        ps = [a.arg for a in f.node.args.args]
        sig, tmpl, psd, fs = of_in(S)
        pool = {"signal": sig, "template": tmpl, "inputpsd": psd, "psd": psd,
                "fs": fs}
        out = {p: pool[p] for p in ps if p in pool}
        for p in ps:
            if nm == "ofamp_pileup" and p in ("a1", "t1"):
                out[p] = None
                continue
            if p in ("amp", "a1"):
                out[p] = S.sc(p, AT)
            if p in ("t0", "t1"):
                out[p] = S.sc(p, S_)
        return out
    opt(nm, get, args_, over=dict(
        coupling=cpl, nconstrain=iv_("nconstrain"),
        nconstrain1=iv_("nconstrain1"), nconstrain2=iv_("nconstrain2"),
        fcutoff=lambda S: S.sc("fcutoff", HZ)))


def fits(S):
    S.obj = OFN(S, True)
    return S.I.get_attr(S.obj, "fit_falltimes")


for np_ in (1, 2, 3, 4):
    def args_(S, np_=np_):
        d = dict(pulse=S.arr("pulse", A_, (N(S),)), npolefit=np_,
                 guess=TupV([S.sc("guess%d" % i, pdim(p))
                             for i, p in enumerate(PNAMES[np_])]),
                 bounds=TupV([TupV([S.sc("lo%d" % i, pdim(p)) for i, p in
                                    enumerate(PNAMES[np_])]),
                              TupV([S.sc("hi%d" % i, pdim(p)) for i, p in
                                    enumerate(PNAMES[np_])])]),
                 errscale=S.sc("errscale"), lgcfullrtn=True)
        if np_ == 1:
            d["taurise"] = S.sc("taurise", S_, pos=True)
        return d
    opt("OFnonlin.fit_falltimes(%dpole)" % np_, fits, args_,
        skip=("lgcplot",) + (("taurise",) if np_ > 1 else ()) +
        (("scale_amplitude",) if np_ > 2 else ()))

opt("OFnonlin", lambda S: S.get(FIT, "OFnonlin"), lambda S: dict(
    psd=S.arr("psd", PSDA, (N(S),), pos=True), fs=S.sc("fs", HZ, pos=True),
    template=S.arr("template", DLESS, (N(S),))))
opt("MuonTailFit", lambda S: S.get(FIT, "MuonTailFit"), lambda S: dict(
    psd=S.arr("psd", PSDA, (N(S),), pos=True), fs=S.sc("fs", HZ, pos=True)))


def mt(S):
    return S.I.get_attr(MTF(S), "fitmuontail")


opt("MuonTailFit.fitmuontail", mt, lambda S: dict(
    signal=S.arr("signal", A_, (N(S),)), guess=TupV([S.sc("g0", A_),
                                                     S.sc("g1", S_)]),
    bounds=TupV([TupV([S.sc("lo%d" % i) for i in range(2)]),
                 TupV([S.sc("hi%d" % i) for i in range(2)])]),
    lgcfullrtn=True))


def u_(name, args, **kw):
    opt(name, lambda S: S.get(UTL, name), args, **kw)


trs = lambda S: S.arr("traces", A_, (M(S), N(S)))     # noqa: E731
u_("shift", lambda S: dict(arr=S.arr("arr", A_, (N(S),))))
u_("make_template", lambda S: dict(t=S.arr("t", S_, (N(S),))),
   over=dict(tau_r=lambda S: S.sc("tau_r", S_, pos=True),
             tau_f=lambda S: S.sc("tau_f", S_, pos=True)))
u_("make_decreasing", lambda S: dict(y=S.arr("y", A_, (N(S),)),
                                     x=S.arr("x", S_, (N(S),))))
u_("calc_offset", lambda S: dict(x=S.arr("x", A_, (M(S), N(S))),
                                 is_didv=True))
u_("slope", lambda S: dict(x=S.arr("x", S_, (N(S),)),
                           y=S.arr("y", S_, (N(S),))))
u_("lowpassfilter", lambda S: dict(traces=trs(S)))
u_("align_traces", lambda S: dict(traces=trs(S)))
u_("get_offset_from_muon", lambda S: dict(avemuon=S.arr("avemuon", A_, (
    N(S),)), lgcfullrtn=True))
u_("powertrace_simple", lambda S: dict(trace=trs(S)))
for lab, kw in {"fs": ("fs", "baseline"), "time": ("time", "baseline"),
                "indices": ("fs", "indbasepre", "indbasepost")}.items():
    def args_(S, kw=kw):
        d = dict(trace=trs(S))
        for k in ("fs", "time", "baseline", "indbasepre", "indbasepost"):
            d[k] = None
        if "fs" in kw:
            d["fs"] = S.sc("fs", HZ)
        if "time" in kw:
            d["time"] = S.arr("time", S_, (N(S),))
        if "baseline" in kw:
            d["baseline"] = S.arr("baseline", A_, (M(S), 1))
        if "indbasepre" in kw:
            d["indbasepre"] = i_(S, "indbasepre")
        if "indbasepost" in kw:
            d["indbasepost"] = i_(S, "indbasepost")
        return d
    opt("energy_absorbed(%s)" % lab, lambda S: S.get(UTL, "energy_absorbed"),
        args_)
u_("estimate_g", lambda S: {}, skip=("p0_err",), over=dict(
    p0=lambda S: S.sc("p0", W_, pos=True), tc=lambda S: S.sc("tc", K_, pos=True),
    tbath=lambda S: S.sc("tbath", K_, pos=True)))
u_("estimate_g", lambda S: dict(cov=None), over=dict(
    p0=lambda S: S.sc("p0", W_, pos=True), tc=lambda S: S.sc("tc", K_, pos=True),
    tbath=lambda S: S.sc("tbath", K_, pos=True)))
u_("resample_data", lambda S: dict(x=S.arr("x", A_, (M(S), N(S)))))
u_("resample_factors", lambda S: {})

opt("energy_res_estimate", lambda S: S.get(SIM, "energy_res_estimate"),
    lambda S: dict(freqs=S.arr("freqs", HZ, (N(S),)),
                   Sp=S.arr("Sp", PSDW, (N(S),), pos=True)))
opt("TESnoise", lambda S: S.get(SIM, "TESnoise"), tes_kw,
    post=lambda S, r: TupV([S.meth(r, "s_itot"), S.meth(r, "s_ptot")]))
# thermal voltage and phonon noise are white: no frequency dependence
WHITE = ("s_vload", "s_vtes", "s_ptfn", "s_vtesnormal")
for m in TESM:
    def get(S, m=m):
        return S.I.get_attr(TES(S), m)
    opt("TESnoise." + m, get, lambda S: dict(
        freqs=S.arr("freqs2", HZ, (M(S),), pos=True)),
        skip=("freqs",) if m in WHITE else ())


def n_(name, args, **kw):
    opt(name, lambda S: S.get(NSE, name), args, **kw)


n_("foldpsd", lambda S: dict(psd=S.arr("psd", PSDA, (N(S),), pos=True)))
n_("calc_psd", lambda S: dict(x=S.arr("x", A_, (M(S), N(S)))))
n_("smooth_psd", lambda S: dict(psd=S.arr("psd", PSDA, (N(S),), pos=True)))
n_("gen_noise", lambda S: dict(psd=S.arr("psd", PSDA, (N(S),), pos=True)),
   over=dict(ntraces=iv_("ntraces")))


def c_(name, args, **kw):
    opt(name, lambda S: S.get(CUT, name), args, **kw)


alg = dict(outlieralgo=lambda S: S.strv("outlieralgo"),
           sgfreq=lambda S: S.sc("sgfreq", HZ, pos=True), fs=fsv)
c_("removeoutliers", lambda S: dict(x=S.arr("x", A_, (M(S),))))
c_("iterstat", lambda S: dict(data=S.arr("data", A_, (M(S),))))
for lab, th in (("", False), ("(threshold None)", True)):
    opt("itercov" + lab, lambda S: S.get(CUT, "itercov"),
        lambda S, th=th: dict(threshold=None) if th else {},
        skip=("args",) + (("threshold",) if th else ()),
        pos=lambda S: (S.arr("x", A_, (M(S),)), S.arr("y", A_, (M(S),))))
c_("symmetrizedist", lambda S: dict(vals=S.arr("vals", A_, (M(S),))))
for nm in ("pileupcut", "slopecut", "baselinecut", "chi2cut"):
    c_(nm, lambda S: dict(traces=trs(S)), over=alg)
c_("autocuts", lambda S: dict(traces=trs(S)), over=alg)
c_("get_muon_cut", lambda S: dict(traces=trs(S)))


# ---------------------------------------------------------------- dI/dV
def dcls(pr):
    return lambda S: S.get(DIP if pr else DID, "DIDVPriors" if pr else "DIDV")


def dargs(S):
    return dict(rawtraces=raws(S), fs=fsv(S),
                sgfreq=S.sc("sgfreq", HZ, pos=True), sgamp=S.sc("sgamp", A_),
                rsh=S.sc("rsh", OHM, pos=True))


opt("DIDV", dcls(False), dargs, post=lambda S, r: TupV([S.meth(
    r, "dofit", 2) or const(0), S.meth(r, "fitresult", 2)]),
    over=dict(r0=lambda S: S.sc("r0", OHM, pos=True),
              rp=lambda S: S.sc("rp", OHM, pos=True),
              dt0=lambda S: S.sc("dt0", S_)))
for p in (1, 2, 3):
    opt("complexadmittance(%d)" % p, lambda S: S.get(DIB, "complexadmittance"),
        lambda S, p=p: dict(freq=frq(S), **ssp(S, p)),
        skip=set(SSP[3]) - set(SSP[p]))
    opt("compleximpedance(%d)" % p, lambda S: S.get(DIB, "compleximpedance"),
        lambda S, p=p: dict(freq=frq(S), **ssp(S, p)),
        skip=set(SSP[3]) - set(SSP[p]))
    opt("squarewaveresponse(%d)" % p,
        lambda S: S.get(DIB, "squarewaveresponse"),
        lambda S, p=p: dict(t=S.arr("t", S_, (N(S),)), sgamp=S.sc("sgamp", A_),
                            sgfreq=S.sc("sgfreq", HZ, pos=True),
                            **ssp(S, p)), skip=set(SSP[3]) - set(SSP[p]))


# ---------------------------------------------------------------- nSmB
def s_(name, args, **kw):
    # arguments documented for plotting or for other callers only, and the
    # numbers of templates, which the shapes of the other arguments give
    opt(name, lambda S: S.get(NSM, name), args,
        skip=("lgcplot", "lgcsaveplots", "background_templates_shifts",
              "sbtemplate", "ns", "nb") + tuple(kw.pop("skip", ())), **kw)


s_("of_mb", lambda S: _mb(S, bkgpolarityconstraint=S.arr(
    "bpc", DLESS, (S.intsym("nb"),))), over=dict(lfindex=iv_("lfindex")),
   skip=("sbtemplatef", "fs", "nb", "sigpolarityconstraint"))
s_("of_nsmb", lambda S: dict(
    nsmb_in(S), iPt=S.arr("iPt", D(A=2), (nsmb_sizes(S)[2],) * 2 + (N(S),)),
    indwindow_nsmb=nsmb_win(S), bitcomb=bitcombv(S)),
   over=dict(lfindex=iv_("lfindex")), skip=("bitcomb",))
s_("of_nsmb_con", lambda S: dict(
    nsmb_in(S), Pfs=S.arr("Pfs", D(A=-2), (nsmb_sizes(S)[2],) * 2),
    P=S.arr("P", D(A=-2), (nsmb_sizes(S)[2],) * 2 + (N(S),)),
    indwindow_nsmb=nsmb_win(S, 1), bitcomb=bitcombv(S),
    bkgpolarityconstraint=S.arr("bpc", DLESS, (S.intsym("nb"),)),
    sigpolarityconstraint=S.arr("spc", DLESS, (1,))),
   over=dict(lfindex=iv_("lfindex")))
s_("of_nsmb_setup", lambda S: dict(
    stemplatet=S.arr("stemplatet", DLESS, (N(S),)),
    btemplatet=S.arr("btemplatet", DLESS, (N(S), S.intsym("nb"))),
    psd=S.arr("psd", PSDA, (N(S),), pos=True), fs=fsv(S)))
s_("maketemplate_ttlfit_nsmb", lambda S: dict(
    template=S.arr("template", DLESS, (N(S),)), fs=fsv(S)),
   over=dict(ttlrate=lambda S: S.sc("ttlrate", HZ, pos=True),
             notch_window_size=iv_("notch")))


# ------------------------------------------------------------- IV / IBIS
def ib_args(S):
    sh = (S.intsym("T"), Cn(S), N(S))
    return dict(dites=S.arr("dites", A_, sh),
                dites_err=S.arr("dites_err", u(A_), sh),
                ibias=S.arr("ibias", A_, sh),
                ibias_err=S.arr("ibias_err", u(A_), sh),
                rsh=S.sc("rsh", OHM), rsh_err=S.sc("rsh_err", u(OHM)),
                normalinds=S.arr("normalinds", DLESS, (S.intsym("nn"),),
                                 integer=True),
                rp_guess=S.sc("rp_guess", OHM),
                rp_err_guess=S.sc("rp_err_guess", u(OHM)),
                chan_names=S.arr("chan_names", None, (Cn(S),)))


def ib_post(S, r):
    S.meth(r, "analyze")
    return TupV([S.attr(r, n) for n in IBNAMES + ("chan_names",)])


opt("IBIS(superconducting)", lambda S: S.get(IBS, "IBIS"), lambda S: dict(
    ib_args(S), fitsc=True, scinds=S.arr(
        "scinds", DLESS, (S.intsym("ns"),), integer=True)), post=ib_post,
    skip=("rp_guess", "rp_err_guess"))
opt("IBIS(no superconducting)", lambda S: S.get(IBS, "IBIS"), lambda S: dict(
    ib_args(S), fitsc=False), post=ib_post, skip=("scinds",))


def iv_args(S):
    sh = (S.intsym("T"), Cn(S), N(S))
    return dict(dites=S.arr("dites", A_, sh),
                dites_err=S.arr("dites_err", u(A_), sh),
                vb=S.arr("vb", V_, sh), vb_err=S.arr("vb_err", u(V_), sh),
                rload=S.sc("rload", OHM), rload_err=S.sc("rload_err", u(OHM)),
                chan_names=S.arr("chan_names", None, (Cn(S),)),
                normalinds=S.arr("normalinds", DLESS, (S.intsym("nn"),),
                                 integer=True))


def iv_post(S, r):
    S.meth(r, "calc_iv")
    return TupV([S.attr(r, n) for n in IVNAMES + ("chan_names",)])


opt("IV", lambda S: S.get(IVM, "IV"), iv_args, post=iv_post)


# --------------------------------------------------- loading, fits, CSDs
def stubfit(S):
    """A dI/dV object whose fits have these parameters."""
    o = didv_init(S)
    m = S.I.get_attr(o, "fitresult")
    q = getattr(getattr(m, "fn", m), "qual", None)
    ks = ("rsh", "rp", "r0", "beta", "l", "L", "tau0", "dt")
    ps = {k: S.sc("didv_" + k, sdim(k), pos=True) for k in ks}

    def fitresult(I, vals):
        t = "{'smallsignalparams': {%s}, 'falltimes': dt}" % ", ".join(
            "'%s': %s" % (k, k) for k in ks)
        from .rules import formula
        return formula(S, t, **ps)
    if q is not None:
        S.I.stubs[q] = fitresult
    return o


for kind in ("superconducting", "normal", "transition"):
    def args_(S, kind=kind):
        d = {k: v for k, v in tes_kw(S, freqs=False).items() if k in (
            "G", "qetbias", "tc", "tload", "tbath", "squiddc", "squidpole",
            "squidn")}
        return dict(d, DIDVobj=stubfit(S), noisetype=kind,
                    rnormal=S.sc("rnormal", OHM, pos=True))

    def post_(S, r):
        kw = dict(freqs=S.arr("freqs2", HZ, (M(S),), pos=True))
        return TupV([S.meth(r, m, **kw) for m in (
            "s_itot", "s_ptot", "s_itotnormal", "s_itotsc")])
    opt("loadfromdidv(%s)" % kind, lambda S: S.get(SIM, "loadfromdidv"), args_,
        post=post_, skip=("DIDVobj",) + {
            "normal": ("G",), "superconducting": ("G", "rnormal"),
            "transition": ("rnormal",)}[kind])


def fitted(p, *args):
    def f(S, r):
        S.meth(r, "dofit", p, *[a(S) for a in args])
        return S.meth(r, "fitresult", p)
    return f


def prs(p):
    n = len(SSP[p]) + 1
    return (lambda S: S.arr("priors", None, (n,)),
            lambda S: S.arr("priorscov", None, (n, n)))


DOV = dict(r0=lambda S: S.sc("r0", OHM, pos=True),
           rp=lambda S: S.sc("rp", OHM, pos=True),
           dt0=lambda S: S.sc("dt0", S_))
for p in (1, 2, 3):
    opt("DIDV(%d)" % p, dcls(False), dargs, post=fitted(p), over=DOV,
        skip=("r0", "rp") if p == 1 else ())
    opt("DIDVPriors(%d)" % p, dcls(True), dargs, post=fitted(p, *prs(p)),
        over=DOV)

    def data_(S):
        n = N(S)
        return dict(tmean=S.arr("tmean", A_, (n,)),
                    didvmean=S.arr("didvmean", SIEM, (n,), real=False),
                    didvstd=S.arr("didvstd", SIEM, (n,), real=False),
                    offset=S.sc("offset", A_),
                    offset_err=S.sc("offset_err", A_),
                    fs=S.sc("fs", HZ, pos=True),
                    sgfreq=S.sc("sgfreq", HZ, pos=True),
                    sgamp=S.sc("sgamp", A_), rsh=S.sc("rsh", OHM, pos=True))
    opt("didvinitfromdata(%d)" % p, lambda S: S.get(DID, "didvinitfromdata"),
        data_, over=DOV, post=fitted(p), state=lambda S: S.obj
        if getattr(S, "obj", None) is not None else const(0),
        skip=("offset", "offset_err") + (("r0", "rp") if p == 1 else ()))

    def dget(S, pr=False):
        S.obj = didv_obj(S, pr)
        return S.I.get_attr(S.obj, "dofit")
    opt("DIDV.dofit(%d)" % p, dget, lambda S, p=p: dict(poles=p),
        over=dict(fcutoff=lambda S: S.sc("fcutoff", HZ)),
        state=lambda S, p=p: S.meth(S.obj, "fitresult", p))
    opt("DIDVPriors.dofit(%d)" % p, lambda S, dget=dget: dget(S, True),
        lambda S, p=p: dict(poles=p, **dict(zip(
            ("priors", "priorscov"), [a(S) for a in prs(p)]))),
        over=dict(fcutoff=lambda S: S.sc("fcutoff", HZ)),
        state=lambda S, p=p: S.meth(S.obj, "fitresult", p))

for m, a in {"fourpole": "A B C tau_r tau_f1 tau_f2 tau_f3 t0",
             "threepole": "A B tau_r tau_f1 tau_f2 t0",
             "twopole": "A tau_r tau_f t0", "onepole": "A tau_f t0"}.items():
    for t in ("", "time"):
        if m + t == "onepoletime":
            continue

        def get(S, m=m + t):
            return S.I.get_attr(OFN(S), m)
        opt("OFnonlin." + m + t, get, lambda S, a=a: {
            k: S.sc(k, pdim(k), pos=k.startswith("tau")) for k in a.split()})
opt("MuonTailFit.muontailfcn", lambda S: S.I.get_attr(MTF(S), "muontailfcn"),
    lambda S: dict(A=S.sc("A", A_), tau=S.sc("tau", S_, pos=True)))


def noi(S):
    return dict(traces=S.arr("traces", ADU, (M(S), Cn(S), N(S))), fs=fsv(S),
                channames=S.arr("channames", None, (Cn(S),)),
                tracegain=S.sc("tracegain", GAIN),
                name=S.strv("name"), time=S.arr("time", S_, (N(S),)))


def noipost(S, r):
    S.meth(r, "calculate_psd")
    S.meth(r, "calculate_csd")
    return TupV([S.attr(r, n) for n in ("psd", "csd", "freqs", "time", "name",
                                        "channames")])


opt("Noise", lambda S: S.get(NSE, "Noise"), noi, post=noipost)

s_("of_nsmb_getPf", lambda S: dict(
    sbtemplatef=S.arr("sbtemplatef", DLESS, (N(S), S.intsym("nsb")),
                      real=False),
    psddnu=S.arr("psddnu", D(A=2), (N(S), tm.ONE), pos=True),
    ns=iv_("ns")(S), nb=iv_("nb")(S), nt=AV(DLESS, N(S), E0, sh=())),
    skip=("ns", "nb", "nt"))
s_("of_nsmb_ffttemplate", lambda S: dict(
    stemplatet=S.arr("stemplatet", DLESS, (N(S), S.intsym("ns"))),
    btemplatet=S.arr("btemplatet", DLESS, (N(S), S.intsym("nb")))))
s_("of_nsmb_getiP", lambda S: dict(
    P=S.arr("P", D(A=-2), (S.intsym("nsb"), S.intsym("nsb"), N(S)))))


def ian(S):
    S.obj = ibis_obj(S)
    return S.I.get_attr(S.obj, "analyze")


opt("IBIS.analyze", ian, lambda S: offs(S), state=lambda S: TupV(
    [S.attr(S.obj, n) for n in IBNAMES]))
