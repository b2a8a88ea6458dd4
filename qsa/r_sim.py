"""Simulated TES noise: the Irwin model and its sums and conversions."""
from . import terms as tm
from . import arreval
from . import specs
from .values import *      # noqa
from .entry import Session, Raised
from .specs import *       # noqa
from .rules import used, formula, identity, same

W = "qetpy/sim/_sim.py in %s"
ETF = "w = 2*np.pi*f\nd = 1 - loopgain + 1j*w*tau0\n" \
    "z = rload + r0*(1 + beta) + 1j*w*inductance + " \
    "loopgain*r0*(2 + beta)/d\ni0 = qetbias*rshunt/(r0 + rload)\n" \
    "didv = 1/z\ndidp = -loopgain/(i0*d*z)\nk = constants.k\n"
TFN = {True: "F = ((tbath/tc)**(n + 1) + 1)/2\n",
       False: "x = tbath/tc\n"
       "F = n/(2*n + 1)*(x**(2*n + 1) - 1)/(x**n - 1)\n"}
SRC = {
    "dIdV": "didv", "dIdP": "didp",
    "s_vload": "4*k*tload*rload*np.ones(len(f))",
    "s_iload": "4*k*tload*rload*np.abs(didv)**2",
    "s_vtes": "4*k*tc*r0*(1 + beta)**2*np.ones(len(f))",
    "s_ites": "4*k*tc*r0*(1 + beta)**2*np.abs(didv - i0*didp)**2",
    "s_ptfn": "4*k*tc**2*G*F*np.ones(len(f))",
    "s_itfn": "4*k*tc**2*G*F*np.abs(didp)**2",
    "s_isquid": "(squiddc*(1 + (squidpole/f)**squidn))**2",
    "dIdVnormal": "1/(rload + r0 + 1j*w*inductance)",
    "s_iloadnormal": "4*k*tload*rload/np.abs(rload + r0 + "
    "1j*w*inductance)**2",
    "s_vtesnormal": "4*k*tc*r0*np.ones(len(f))",
    "s_itesnormal": "4*k*tc*r0/np.abs(rload + r0 + 1j*w*inductance)**2",
    "dIdVsc": "1/(rload + 1j*w*inductance)",
    "s_iloadsc": "4*k*tload*rload/np.abs(rload + 1j*w*inductance)**2"}
SUMS = {
    "s_itot": ("s_iload", "s_ites", "s_itfn", "s_isquid"),
    "s_ptot": ("s_pload", "s_ptes", "s_ptfn", "s_psquid"),
    "s_itotnormal": ("s_iloadnormal", "s_itesnormal", "s_isquid"),
    "s_itotsc": ("s_iloadsc", "s_isquid")}
POWER = {"s_pload": "s_iload", "s_ptes": "s_ites", "s_ptfn": "s_itfn",
         "s_psquid": "s_isquid", "s_ptot": "s_itot"}


def dom():
    arreval.DOMAIN.clear()
    arreval.DOMAIN.update({
        "n": lambda e, r: r.uniform(2, 6),
        "loopgain": lambda e, r: r.uniform(2, 20),
        "squidn": lambda e, r: r.uniform(0.5, 1.5)})


def noise(rep, b, given):
    S = Session()
    dom()
    kw = tes_kw(S, lgcb=b)
    lab = ("ballistic" if b else "diffusive") + (
        ", freqs given" if given else "")
    try:
        o = S.call(S.get(SIM, "TESnoise"), **kw)
    except Raised as x:
        rep.und("tes-noise", lab, "raises: %s" % x)
        return
    f = S.arr("freqs2", HZ, (M(S),), pos=True) if given else kw["freqs"]
    a = dict(freqs=f) if given else {}
    got = {}
    for m in list(SRC) + list(SUMS) + list(POWER):
        if m not in got:
            try:
                got[m] = S.meth(o, m, **a)
            except Raised as x:
                rep.und("tes-noise", m, "raises: %s" % x, W % m)
    env = {k: v for k, v in kw.items() if k not in ("freqs", "lgcb")}
    for m, t in SRC.items():
        if m in got:
            identity(rep, S, "tes-noise", "TESnoise.%s [%s]" % (m, lab),
                     got[m], formula(S, TFN[b] + ETF + "return " + t, f=f,
                                     **env),
                     "must equal %s of the linearised TES circuit" % t,
                     W % ("TESnoise." + m))
    for m, ps in SUMS.items():
        if m in got and all(p in got for p in ps):
            identity(rep, S, "noise-sum", "TESnoise.%s [%s]" % (m, lab),
                     got[m], formula(S, " + ".join(ps), **{
                         p: got[p] for p in ps}),
                     "the total is the sum of its sources",
                     W % ("TESnoise." + m))
    for m, i in POWER.items():
        if m in got and i in got and "dIdP" in got:
            identity(rep, S, "power-referred", "TESnoise.%s [%s]" % (m, lab),
                     got[m], formula(S, "s/np.abs(d)**2", s=got[i],
                                     d=got["dIdP"]),
                     "current noise over |dIdP|^2", W % ("TESnoise." + m))
    used(rep, S)


def resolution(rep):
    S = Session()
    dom()
    f = S.arr("freqs", HZ, (N(S),))
    tau, ce = S.sc("tau_collect", S_), S.sc("ce")
    sp = S.arr("Sp", PSDW, (N(S),), pos=True)
    try:
        r = S.call(S.get(SIM, "energy_res_estimate"), f, tau, sp, ce)
        identity(rep, S, "energy-resolution", "energy_res_estimate", r,
                 formula(S, "w = 2*np.pi*f\ng = 2*ce**2/(1 + (w*tau)**2)/"
                         "(np.pi*sp)\nreturn 1/np.sqrt(np.sum((g[1:] + "
                         "g[:-1])/2*(w[1:] - w[:-1])))/constants.e",
                         f=f, tau=tau, sp=sp, ce=ce),
                 "1/sigma^2 is the integral of 2|p(w)|^2/(pi S_p(w)) over "
                 "the angular frequency", W % "energy_res_estimate")
    except Raised as x:
        rep.und("energy-resolution", "energy_res_estimate", "raises: %s" % x)
    used(rep, S)


KEYS = ("rsh", "rp", "L", "r0", "beta", "l", "tau0", "dt")
DIM = dict(rsh=OHM, rp=OHM, r0=OHM, L=HENRY, beta=DLESS, l=DLESS, tau0=S_,
           dt=S_)
LOAD = {
    "superconducting": dict(rload="rsh + rp", r0="0", inductance="L",
                            rshunt="rsh"),
    "normal": dict(rload="rsh + rp - rnormal", r0="rnormal", inductance="L",
                   rshunt="rsh"),
    "transition": dict(rload="rsh + rp", r0="r0", inductance="L",
                       rshunt="rsh", beta="beta", loopgain="l",
                       tau0="tau0")}


def load(rep, kind, key):
    S = Session()
    dom()
    w = W % "loadfromdidv"
    nm = "loadfromdidv[%s, %s]" % (kind, key)
    ps = {k: S.sc("didv_" + k, DIM[k], pos=True) for k in KEYS}
    bad = {k: S.sc("other_" + k, DIM[k], pos=True) for k in KEYS}
    asked = []

    def fitresult(I, vals):
        p = vals.get("poles")
        asked.append(p.cst if isinstance(p, AV) else None)
        t = "{'params': {%s}, 'falltimes': %s}" % (", ".join(
            "'%s': %s_" % (k, k) for k in KEYS), "dt_")
        if key == "smallsignalparams":
            t = t[:-1] + ", 'smallsignalparams': {%s}}" % ", ".join(
                "'%s': %s" % (k, k) for k in KEYS)
        e = {k: ps[k] for k in KEYS} if key == "smallsignalparams" else {}
        e.update({k + "_": (bad if key == "smallsignalparams" else ps)[k]
                  for k in KEYS})
        return formula(S, t, **e)
    try:
        o = specs.didv_init(S)
        m = S.I.get_attr(o, "fitresult")
        q = getattr(getattr(m, "fn", m), "qual", None)
        if q is None:
            rep.und("parameters-loaded", nm, "fitresult not found", w)
            return
        S.I.stubs[q] = fitresult
        kw = {k: v for k, v in tes_kw(S, freqs=False).items() if k in (
            "G", "qetbias", "tc", "tload", "tbath", "squiddc", "squidpole",
            "squidn")}
        rn = S.sc("rnormal", OHM, pos=True)
        t = S.call(S.get(SIM, "loadfromdidv"), o, noisetype=kind, rnormal=rn,
                   **kw)
    except Raised as x:
        rep.und("parameters-loaded", nm, "raises: %s" % x, w)
        return
    want = 2 if kind == "transition" else 1
    if asked:
        rep.put(all(p == want for p in asked if p is not None) if asked
                else None, "parameters-loaded", nm + " poles",
                "the %s model comes from the %d-pole fit" % (kind, want), w)
    for a, x in LOAD[kind].items():
        identity(rep, S, "parameters-loaded", nm + " " + a, S.attr(t, a),
                 formula(S, x, **{k: v for k, v in dict(
                     ps, rnormal=rn).items() if k in x}),
                 "%s must be %s of the fit" % (a, x), w)
    for a in kw:
        if a == "G" and kind != "transition":
            continue
        identity(rep, S, "parameters-loaded", nm + " " + a, S.attr(t, a),
                 kw[a], "%s is passed on" % a, w)
    # the noise model and the fit describe the same circuit
    f = S.arr("freqs2", HZ, (M(S),), pos=True)
    meth, pole = {"transition": ("dIdV", 2), "normal": ("dIdVnormal", 1),
                  "superconducting": ("dIdVsc", 1)}[kind]
    ks = ("rsh", "rp", "L") + (("r0", "beta", "l", "tau0")
                               if pole == 2 else ())
    try:
        same(rep, S, "same-circuit", nm, S.meth(t, meth, freqs=f), S.call(
            S.get(DIB, "complexadmittance"), f, **{k: ps[k] for k in ks}),
            "the dIdV of the noise model is the fitted dIdV", w)
    except Raised as x:
        rep.und("same-circuit", nm, "raises: %s" % x, w)
    used(rep, S)


def tasks(tier):
    return [(noise, (b, g), "tes %s %s" % (b, g)) for b in (True, False)
            for g in (True, False)] + [(resolution, (), "resolution")] + [
        (load, (k, p), "load %s %s" % (k, p)) for k in LOAD
        for p in ("smallsignalparams", "params")]
