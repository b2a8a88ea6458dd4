"""Noise spectra: definition and normalisation of power spectral densities,
noise generation and the Noise class."""
from . import terms as tm
from . import arreval
from .values import *      # noqa
from .entry import Session, Raised
from .specs import *       # noqa
from .rules import used, formula, identity, same, complete, peel_term

W = "qetpy/core/_noise.py in %s"
ONES = ("k = np.arange(n//2 + 1)\n"
        "w = np.where((k == 0) | (2*k == n), 1, 2)\n")


def define(rep, S, rule, name, got, text, what, where, peel=False, **env):
    """got equals the value of the text."""
    identity(rep, S, rule, name, got, formula(S, text, **env),
             "%s: %s" % (what, text.strip().replace("\n", "; ")), where, peel)


def psds(rep):
    S = Session()
    n = N(S)
    fs = fsv(S)
    nn = AV(DLESS, n, E0, sh=())
    for two in (False, True):
        x = S.arr("x2" if two else "x1", A_, (M(S), n) if two else (n,))
        P = "P = np.abs(fft(x))**2/(n*fs)\n" + (
            "P = np.mean(P, axis=0)\n" if two else "")
        e = dict(x=x, n=nn, fs=fs)
        lab = "calc_psd[%s]" % ("many traces" if two else "one trace")
        w = W % "calc_psd"
        try:
            f, p = S.call(S.get(NSE, "calc_psd"), x, fs=fs,
                          folded_over=False).items
            define(rep, S, "psd-definition", lab + " two-sided", p,
                   P + "return P", "periodogram of the trace", w, **e)
            define(rep, S, "psd-frequencies", lab + " two-sided", f,
                   "k = np.arange(n)\nreturn np.where(2*k < n, k, k - n)*fs/n",
                   "frequencies of the bins", w, n=nn, fs=fs)
            g, q = S.call(S.get(NSE, "calc_psd"), x, fs=fs,
                          folded_over=True).items
            define(rep, S, "psd-definition", lab + " folded", q,
                   P + ONES + "return P[:n//2 + 1]*w", "folded periodogram: "
                   "every bin with a negative partner counts twice", w, **e)
            define(rep, S, "psd-frequencies", lab + " folded", g,
                   "return np.arange(n//2 + 1)*fs/n",
                   "frequencies of the bins", w, n=nn, fs=fs)
            h, r = S.call(S.get(NSE, "foldpsd"), p, fs).items
            same(rep, S, "psd-folding", lab, r, q, "folding the two-sided "
                 "spectrum gives the folded one", W % "foldpsd")
            same(rep, S, "psd-folding", lab + " frequencies", h, g,
                 "same frequencies", W % "foldpsd")
            ms = formula(S, "np.mean(np.abs(x)**2)", x=x)
            for l, s in (("two-sided", p), ("folded", q)):
                identity(rep, S, "psd-parseval", lab + " " + l, formula(
                    S, "np.sum(p)*fs/n", p=s, fs=fs, n=nn), ms,
                    "the integral of the spectrum is the mean square", w)
        except Raised as x_:
            rep.und("psd-definition", lab, "raises: %s" % x_, w)
    try:
        p = S.arr("psd", PSDA, (n,), pos=True)
        f, q = S.call(S.get(NSE, "foldpsd"), p, fs).items
        define(rep, S, "psd-folding", "foldpsd", q,
               ONES + "return p[:n//2 + 1]*w", "every bin with a negative "
               "partner counts twice", W % "foldpsd", p=p, n=nn)
        define(rep, S, "psd-frequencies", "foldpsd", f,
               "return np.arange(n//2 + 1)*fs/n", "frequencies of the bins",
               W % "foldpsd", n=nn, fs=fs)
        o = S.call(S.get(NSE, "smooth_psd"), p)
        define(rep, S, "smooth-even", "smooth_psd", o,
               "return o[(-np.arange(n)) % n]", "the smoothed spectrum is "
               "even in the frequency", W % "smooth_psd", o=o, n=nn)
        d = S.call(S.get("qetpy.utils._utils", "make_decreasing"),
                   formula(S, "p[:n//2 + 1]", p=p, n=nn))
        define(rep, S, "smooth-decreasing", "smooth_psd", formula(
            S, "o[:n//2 + 1]", o=o, n=nn), "return d + 0", "the non-negative "
            "frequencies are make_decreasing of those of the input",
            W % "smooth_psd", d=d)
    except Raised as x_:
        rep.und("psd-folding", "foldpsd", "raises: %s" % x_)
    used(rep, S)




def rngs(g):
    """The random arrays occurring in a term."""
    out = {}
    from .compare import atoms_deep
    for i in atoms_deep(g):
        at = tm.T.atoms[i]
        if at.kind == "sym" and at.name.startswith("rng#"):
            out[at.name] = at
    return out


def gen(rep, inf):
    S = Session()
    n = N(S)
    fs = fsv(S)
    w = W % "gen_noise"
    lab = "gen_noise" + (" infinite DC" if inf else "")
    nn = AV(DLESS, n, E0, sh=())
    h = S.arr("half", PSDA, (n,), pos=True)
    # a spectrum even in the frequency
    p = formula(S, "q = np.arange(n)\np = h + h[(-q) % n]\n" + (
        "p[0] = np.inf\n" if inf else "") + "return p", h=h, n=nn)
    try:
        o = S.call(S.get(NSE, "gen_noise"), p, fs=fs, ntraces=i_(
            S, "ntraces", True))
        g = S.I.gv_of(o)
        if g is None:
            rep.und("noise-shaping", lab, "value not known", w)
            return
        rs = rngs(g)
        if len(rs) != 1 or o.sh is None or len(o.sh) != 2:
            rep.und("noise-shaping", lab, "not one array of random numbers",
                    w)
            return
        at = list(rs.values())[0]
        v = AV(DLESS, tm.of_atom(at), E0, sh=o.sh)
        define(rep, S, "noise-shaping", lab, o,
               "p = p + 0\n" + ("p[0] = 0\n" if inf else "") +
               "return np.real(ifft(fft(v)*np.sqrt(p*fs)))",
               "unit white noise shaped with the square root of the spectrum "
               "in units of the sample rate", w, p=p, v=v, fs=fs)
    except Raised as x_:
        rep.und("noise-shaping", lab, "raises: %s" % x_, w)
    used(rep, S)


def nobj(S, time=False, nd=3):
    """Noise object and its traces in amperes."""
    o = noise_obj(S, nd, time)
    x = S.arr("traces", ADU, (M(S), Cn(S), N(S)) if nd == 3 else
              (M(S), N(S)))
    x = formula(S, "x/g" + ("" if nd == 3 else "\n").strip(), x=x,
                g=S.sc("tracegain", GAIN))
    return o, x


def noise_class(rep, nd):
    S = Session()
    n = N(S)
    fs = fsv(S)
    nn = AV(DLESS, n, E0, sh=())
    o, x = nobj(S, nd=nd)
    w = W % "Noise.%s"
    lab = "Noise[%dd]." % nd
    e = dict(x=x, n=nn, fs=fs)
    try:
        S.meth(o, "calculate_psd")
        for q, part in (("psd", "np.abs(F)**2"),
                        ("real_psd", "np.real(F)**2"),
                        ("imag_psd", "np.imag(F)**2")):
            got = S.attr(o, q)
            if nd == 2:
                got = formula(S, "p[0]", p=got)
            define(rep, S, "noise-psd", lab + q, got,
                   ONES + "F = rfft(x)\nreturn np.mean(%s, axis=0)*w/(n*fs)"
                   % part, "average folded spectrum of the traces",
                   w % "calculate_psd", **e)
        define(rep, S, "noise-frequencies", lab + "freqs", S.attr(o, "freqs"),
               "return np.arange(n//2 + 1)*fs/n", "frequencies of the bins",
               w % "__init__", n=nn, fs=fs)
        define(rep, S, "noise-frequencies", lab + "time", S.attr(o, "time"),
               "return np.arange(n)/fs", "times of the samples",
               w % "__init__", n=nn, fs=fs)
    except Raised as x_:
        rep.und("noise-psd", lab, "raises: %s" % x_, w)
    used(rep, S)


def noise_slope(rep):
    S = Session()
    w = W % "Noise.remove_trace_slope"
    o, x = nobj(S, time=True)
    try:
        S.meth(o, "remove_trace_slope")
        got = S.attr(o, "traces")
        complete(rep, S, "noise-slope", "traces", got, w)
        t = S.arr("time", S_, (N(S),))
        # the remaining slope of every trace vanishes
        g = peel_term(S, S.I.gv_of(got)) if S.I.gv_of(got) is not None \
            else None
        if g is None:
            rep.und("noise-slope", "slope", "value not known", w)
        else:
            y = AV(A_, g, E0, sh=(N(S),))
            rep_ = formula(S, "np.sum((t - np.mean(t))*y)", t=t, y=y)
            identity(rep, S, "noise-slope", "slope", rep_, formula(
                S, "0*np.sum(y)", y=y), "the slope of a trace after "
                "remove_trace_slope is zero", w)
    except Raised as x_:
        rep.und("noise-slope", "slope", "raises: %s" % x_, w)
    used(rep, S)


def noise_csd(rep):
    S = Session()
    w = W % "Noise.%s"
    o, x = nobj(S)
    n = N(S)
    e = dict(x=x, fs=fsv(S), n=AV(DLESS, n, E0, sh=()),
             C=AV(DLESS, Cn(S), E0, sh=()), M=AV(DLESS, M(S), E0, sh=()))
    try:
        S.meth(o, "calculate_csd")
        for k in ("csd", "real_csd", "imag_csd", "real_csd_std",
                  "imag_csd_std"):
            complete(rep, S, "csd-definition", k, S.attr(o, k),
                     w % "calculate_csd")
        define(rep, S, "csd-definition", "csd", S.attr(o, "csd"),
               "F = n//2 + 1\nout = np.zeros((C, C, F), dtype=complex)\n"
               "t = np.zeros((C, C, M, F), dtype=complex)\n"
               "for i in range(C):\n  for j in range(C):\n"
               "    for m in range(M):\n"
               "      t[i, j, m] = signal.csd(x[m, i], x[m, j], fs=fs, "
               "nperseg=n, nfft=n)[1]\n"
               "    out[i, j] = np.mean(t[i, j], axis=0)\nreturn out",
               "average cross spectrum of the two channels of the element",
               w % "calculate_csd", True, **e)
        S.meth(o, "calculate_uncorr_noise")
        csd, re = S.attr(o, "csd"), S.attr(o, "real_csd")
        u, c = S.attr(o, "uncorrnoise"), S.attr(o, "corrnoise")
        define(rep, S, "noise-decorrelated", "uncorrnoise", u,
               "inv = np.zeros_like(csd)\nF = csd.shape[2]\n"
               "for f in range(F):\n"
               "  inv[:, :, f] = np.linalg.inv(csd[:, :, f])\n"
               "out = np.zeros((C, F))\nfor j in range(C):\n"
               "  out[j] = 1/np.abs(inv[j, j, :])\nreturn out",
               "inverse of the diagonal of the inverse matrix",
               w % "calculate_uncorr_noise", True, csd=csd, C=e["C"])
        define(rep, S, "noise-decorrelated", "corrnoise", c,
               "out = np.zeros_like(u)\nfor j in range(C):\n"
               "  out[j] = re[j, j, :] - u[j]\nreturn out",
               "what is left of the spectrum of the channel",
               w % "calculate_uncorr_noise", True, u=u, re=re, C=e["C"])
        S.meth(o, "calculate_corrcoeff")
        define(rep, S, "noise-correlation", "corrcoeff", S.attr(
            o, "corrcoeff"),
               "F = n//2 + 1\nA = np.abs(np.fft.rfft(x))\n"
               "A = np.swapaxes(A, 0, 1)\n"
               "out = np.zeros((F, C, C))\nfor f in range(F):\n"
               "  out[f] = np.corrcoef(A[:, :, f])\n"
               "return np.swapaxes(out, 0, 2)",
               "correlation of the channels, frequency by frequency",
               w % "calculate_corrcoeff", True, **e)
    except Raised as x_:
        rep.und("csd-definition", "csd", "raises: %s" % x_, w)
    used(rep, S)


def tasks(tier):
    return [(psds, (), "psds")] + \
        [(gen, (i,), "gen %s" % i) for i in (False, True)] + \
        [(noise_class, (d,), "noise %d" % d) for d in (3, 2)] + \
        [(noise_slope, (), "slope"), (noise_csd, (), "csd")]
