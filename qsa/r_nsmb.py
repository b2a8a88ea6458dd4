"""The multi-template (NSMB) filter: its matrices, fits and templates."""
from . import terms as tm
from . import arreval
from .values import *      # noqa
from .entry import Session, Raised
from .specs import *       # noqa
from .rules import used, formula, identity

W = "qetpy/core/_of_nsmb.py in %s"
PRE = "p = psd*fs/n\np[0] = p[1]\n"
TPL = "T = [st] + [bt[:, i] for i in range(%d)]\n"
FT = "F = [np.fft.fft(t)/n for t in T]\n"


def size(S):
    return dict(n=AV(DLESS, tm.sym("N"), E0, sh=()),
                fs=S.sc("fs", HZ, pos=True))


def setup(rep, nb):
    """The matrices are the inner products weighted by the inverse PSD."""
    S = Session()
    n = N(S)
    m = nb + 1
    w = W % "of_nsmb_setup"
    lab = "%d background%s" % (nb, "s" * (nb > 1))
    try:
        e = dict(size(S), st=S.arr("st", DLESS, (n,)),
                 bt=S.arr("bt", DLESS, (n, tm.num(nb))),
                 psd=S.arr("psd", D(P=1), (n,), pos=True))
        o = S.call(S.get(NSM, "of_nsmb_setup"), e["st"], e["bt"], e["psd"],
                   e["fs"])
        it = S.I.static_iter(o)
        if it is None or len(it) != 12:
            rep.und("nsmb-setup", lab, "not a tuple of 12", w)
            return
        out = dict(zip("pd phi Pfs P sf tt iB B ns nb bc lf".split(), it))
        pre = PRE + TPL % nb + FT

        def idt(nm, code, ref, what):
            identity(rep, S, "nsmb-setup", "%s: %s" % (lab, nm), formula(
                S, code, **out), formula(S, pre + "return " + ref, **e),
                what, w)
        idt("psddnu", "pd[:, 0]", "p", "the noise power per bin is psd*fs/N, "
            "its first bin that of the second")
        for i in range(m):
            idt("template %d" % i, "tt[:, %d]" % i, "T[%d]" % i,
                "the signal template first, then the backgrounds")
            idt("transform %d" % i, "sf[:, %d]" % i, "F[%d]" % i,
                "the templates' Fourier transforms over N")
            idt("phi %d" % i, "phi[%d]" % i, "np.conj(F[%d])/p" % i,
                "the filter is the conjugate template over the noise power")
            for j in range(m):
                idt("Pfs %d,%d" % (i, j), "Pfs[%d, %d]" % (i, j),
                    "np.real(np.sum(np.conj(F[%d])*F[%d]/p))" % (i, j),
                    "the sum over frequencies of conj(s_i) s_j/psd")
                if (i == 0) == (j == 0):
                    c = "np.real(np.sum(np.conj(F[%d])*F[%d]/p))*np.ones(n)"\
                        % (min(i, j), max(i, j))
                    t = "constant in the delay, the inner product itself"
                else:
                    c = "n*np.real(np.fft.ifft(np.conj(F[0])*F[%d]/p))" % max(
                        i, j)
                    t = "the inner product of the signal delayed by each "\
                        "bin with the background"
                idt("P %d,%d" % (i, j), "P[%d, %d]" % (i, j), c, t)
        b = "b = np.zeros((%d, %d))\nfor i in range(%d):\n    for j in " \
            "range(%d):\n        b[i, j] = np.real(np.sum(np.conj(F[i + 1])*"\
            "F[j + 1]/p))\n" % (nb, nb, nb, nb)
        if nb > 1:
            pre += b
            idt("B", "B", "b", "the backgrounds' block of the matrix")
            idt("iB", "iB", "np.linalg.pinv(b)", "the inverse of that block")
        for k, v in (("ns", 1), ("nb", nb)):
            idt(k, k, str(v), "the number of templates")
    except Raised as x:
        rep.und("nsmb-setup", lab, "raises: %s" % x, w)
    used(rep, S)


def inverse(rep, m):
    """getiP inverts the matrix of every delay."""
    S = Session()
    n = N(S)
    w = W % "of_nsmb_getiP"
    try:
        P = S.arr("P", D(A=-2), (tm.num(m), tm.num(m), n))
        r = S.call(S.get(NSM, "of_nsmb_getiP"), P)
        for k in (0, 1, -1):
            identity(rep, S, "nsmb-inverse", "delay bin %d, %d templates" % (
                k, m), formula(S, "r[:, :, %d]" % k, r=r), formula(
                S, "np.linalg.pinv(P[:, :, %d])" % k, P=P),
                "the inverse of the matrix of that delay", w)
    except Raised as x:
        rep.und("nsmb-inverse", "getiP", "raises: %s" % x, w)
    used(rep, S)


MASKS = {2: ((1, 1), (0, 1), (1, 0)),
         3: ((1, 1, 1), (1, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 0))}


def masked(rep, mask):
    """getPt is the masked matrix of one delay and its inverse."""
    S = Session()
    n = N(S)
    m = len(mask)
    w = W % "of_nsmb_getPt"
    lab = "mask %s" % "".join(map(str, mask))
    try:
        P = S.arr("P", D(A=-2), (tm.num(m), tm.num(m), n))
        Pfs = S.arr("Pfs", D(A=-2), (tm.num(m), tm.num(m)))
        r = S.call(S.get(NSM, "of_nsmb_getPt"), Pfs, P, bindelay=const(1),
                   bitmask=formula(S, "np.array(%r)" % (list(mask),)))
        it = S.I.static_iter(r)
        if it is None or len(it) != 2:
            rep.und("nsmb-mask", lab, "not a pair", w)
            return
        ix = [i for i in range(m) if mask[i]]
        ref = "q = np.zeros((%d, %d))\n" % (len(ix), len(ix))
        for a, i in enumerate(ix):
            for b, j in enumerate(ix):
                c = "Pfs[%d, %d]" % (i, j) if (i == 0) == (j == 0) else \
                    "P[0, %d, 1]" % max(i, j)
                ref += "q[%d, %d] = %s\n" % (a, b, c)
        e = dict(P=P, Pfs=Pfs)
        if len(ix) == 1:
            it = [formula(S, "np.sum(q)", q=q) for q in it]
            ref = ref.split("=", 2)[2]
            ref = ref.strip()
            identity(rep, S, "nsmb-mask", lab, it[0], formula(S, ref, **e),
                     "the one element kept", w)
            identity(rep, S, "nsmb-mask", lab + " inverse", it[1], formula(
                S, "1/" + ref, **e), "its inverse", w)
            used(rep, S)
            return
        identity(rep, S, "nsmb-mask", lab, it[0], formula(
            S, ref + "return q", **e), "the rows and columns kept, the "
            "signal-background ones at the delay", w)
        identity(rep, S, "nsmb-mask", lab + " inverse", it[1], formula(
            S, ref + "return np.linalg.pinv(q)", **e), "its inverse", w)
    except Raised as x:
        rep.und("nsmb-mask", lab, "raises: %s" % x, w)
    used(rep, S)


def inputs(S, nb, psd=True):
    n = N(S)
    m = tm.num(nb + 1)
    return dict(
        pulset=S.arr("pulset", A_, (n,)),
        phi=S.arr("phi", D(A=-2), (m, n), real=False),
        sbtemplatef=S.arr("sbtemplatef", DLESS, (m, n), real=False),
        sbtemplate=S.arr("sbtemplate", DLESS, (n, m)),
        psddnu=S.arr("psddnu", D(A=2), (tm.ONE, n), pos=True),
        fs=S.sc("fs", HZ, pos=True), ns=const(1), nb=const(nb))


def fit(rep, nb):
    """The unconstrained fit."""
    S = Session()
    n = N(S)
    m = nb + 1
    w = W % "of_nsmb"
    lab = "%d background%s" % (nb, "s" * (nb > 1))
    arreval.DOMAIN.clear()
    try:
        kw = inputs(S, nb)
        k = S.intsym("K")
        kw["iPt"] = S.arr("iPt", D(A=2), (tm.num(m), tm.num(m), n))
        win = S.arr("indwindow", DLESS, (1, k), integer=True)
        kw["indwindow_nsmb"] = S.lst([win])
        kw["bitcomb"] = bitcombv(S)
        kw["lfindex"] = const(2)
        mk = S.I.mark()
        r = S.call(S.get(NSM, "of_nsmb"), **kw)
        it = S.I.static_iter(r)
        if it is None or len(it) != 5:
            rep.und("nsmb-fit", lab, "not a tuple of 5", w)
            return
        a, td, chi, lf, res = it
        e = dict(size(S), y=kw["pulset"], phi=kw["phi"], sf=kw[
            "sbtemplatef"], pd=kw["psddnu"], iPt=kw["iPt"], win=win)
        pre = "m = %d\nY = np.fft.fft(y)/n\np = pd[0]\n" % m + \
            "q = [n*np.real(np.fft.ifft(phi[0]*Y))] + [np.real(np.sum(" \
            "phi[j]*Y)) + np.zeros(n) for j in range(1, m)]\n" \
            "a = [sum([iPt[i, j]*q[j] for j in range(m)]) for i in " \
            "range(m)]\nchi = np.sum(np.abs(Y)**2/p) - sum([a[i]*q[i] for " \
            "i in range(m)])\nw = np.mod(win[0], n)\n" \
            "k = w[np.argmin(chi[w])]\n"
        what = {"chi": "sum |Y|^2/psd - q.a at the best delay of the window",
                "td": "the delay of least chi-square, wrapped",
                "amp": "the inverse matrix times the filtered trace"}
        identity(rep, S, "nsmb-fit", lab + " chi2", chi, formula(
            S, pre + "return np.min(chi[w])", **e), what["chi"], w)
        identity(rep, S, "nsmb-fit", lab + " delay", formula(
            S, "np.sum(t)", t=td), formula(
            S, pre + "return (k - n*(k > n/2))/fs", **e), what["td"], w)
        for i in range(m):
            identity(rep, S, "nsmb-fit", "%s amplitude %d" % (lab, i),
                     formula(S, "a[%d]" % i, a=a), formula(
                         S, pre + "return a[%d][k]" % i, **e), what["amp"],
                     w)
        f = dict(e, a=a, t=td, r=res)
        pre = "f = np.fft.fftfreq(n, 1/fs)\nT = a[0]*sf[0]*np.exp(-2j*np.pi"\
            "*f*np.sum(t)) + sum([a[i]*sf[i] for i in range(1, %d)])\n" % m
        identity(rep, S, "nsmb-fit", lab + " residual", formula(
            S, "r[0]", r=res), formula(
            S, pre + "return y - np.real(np.fft.ifft(T))*n", **f),
            "the trace minus the templates times the returned amplitudes, "
            "the signal at the returned delay", w)
        identity(rep, S, "nsmb-fit", lab + " low-frequency chi2", formula(
            S, "np.sum(c)", c=lf), formula(
            S, "z = np.fft.fft(r[0])/n\nreturn np.sum((np.abs(z)**2/pd[0])"
            "[:2])", **f), "the chi-square of the residual below lfindex", w)
    except Raised as x:
        rep.und("nsmb-fit", lab, "raises: %s" % x, w)
    finally:
        arreval.DOMAIN.clear()
    used(rep, S)


def background(rep, nb, con):
    """The fit without a signal."""
    S = Session()
    n = N(S)
    m = nb + 1
    w = W % "of_mb"
    lab = "%d background%s%s" % (nb, "s" * (nb > 1), ", constrained" * con)
    arreval.DOMAIN.clear()
    try:
        kw = inputs(S, nb)
        kw["iB"] = S.arr("iB", D(A=2), (nb, nb))
        kw["B"] = S.arr("B", D(A=-2), (nb, nb))
        kw["lfindex"] = const(2)
        if con:
            kw["bkgpolarityconstraint"] = S.arr("bpc", DLESS, (nb,),
                                                integer=True)
        r = S.call(S.get(NSM, "of_mb"), **kw)
        it = S.I.static_iter(r)
        if it is None or len(it) != 3:
            rep.und("nsmb-background", lab, "not a tuple of 3", w)
            return
        a, chi, lf = it
        e = dict(size(S), y=kw["pulset"], t=kw["sbtemplate"],
                 pd=kw["psddnu"], a=a)
        pre = "r = y%s\n" % "".join(
            " - t[:, %d]*%s" % (i + 1, "np.sum(a)" if nb == 1 else
                                "a[%d]" % i) for i in range(nb))
        pre += "z = np.abs(np.fft.fft(r)/n)**2/pd[0]\n"
        if nb > 1:
            q = "Y = np.fft.fft(y)/n\nq = [np.real(np.sum(phi[i + 1]*Y)) " \
                "for i in range(2)]\nb = [iB[i, 0]*q[0] + iB[i, 1]*q[1] " \
                "for i in range(2)]\nf = np.linalg.pinv(B)\n"
            q += "c = bpc\nk = [~((b[i] < 0) & (c[i] == 1) | (b[i] > 0) & " \
                "(c[i] == -1)) for i in range(2)]\n" if con else \
                "k = [b[i] == b[i] for i in range(2)]\n"
            g = dict(e, phi=kw["phi"], iB=kw["iB"], B=kw["B"])
            if con:
                g["bpc"] = kw["bkgpolarityconstraint"]
            for i in range(nb):
                identity(rep, S, "nsmb-background", "%s amplitude %d" % (
                    lab, i), formula(S, "a[%d]" % i, a=a), formula(
                    S, q + "return np.where(k[%d], np.where(k[%d], f[%d, 0]*"
                    "q[0] + f[%d, 1]*q[1], q[%d]/B[%d, %d]), 0)" % (
                        i, 1 - i, i, i, i, i, i), **g),
                    "the least squares solution of the backgrounds whose "
                    "unconstrained amplitude has an allowed sign", w)
        identity(rep, S, "nsmb-background", lab + " chi2", formula(
            S, "np.sum(c)", c=chi), formula(S, pre + "return np.sum(z)", **e),
            "the chi-square of the trace minus the backgrounds times the "
            "returned amplitudes", w)
        identity(rep, S, "nsmb-background", lab + " low-frequency chi2",
                 formula(S, "np.sum(c)", c=lf), formula(
                     S, pre + "return np.sum(z[:2])", **e),
                 "the part of it below lfindex", w)
    except Raised as x:
        rep.und("nsmb-background", lab, "raises: %s" % x, w)
    finally:
        arreval.DOMAIN.clear()
    used(rep, S)


def slope(rep):
    """The backgrounds for the slope and offset."""
    S = Session()
    n = N(S)
    w = W % "get_slope_dc_template_nsmb"
    try:
        r = S.call(S.get(NSM, "get_slope_dc_template_nsmb"), S.intv(n))
        it = S.I.static_iter(r)
        if it is None or len(it) != 2:
            rep.und("nsmb-slope", "templates", "not a pair", w)
            return
        e = size(S)
        for i, c in ((0, "np.arange(n)/n"), (1, "np.ones(n)")):
            identity(rep, S, "nsmb-slope", "template %d" % i, formula(
                S, "t[:, %d]" % i, t=it[0]), formula(S, c, **e),
                "rising from 0 by 1/N per bin" if i == 0 else "constant", w)
    except Raised as x:
        rep.und("nsmb-slope", "templates", "raises: %s" % x, w)
    used(rep, S)


def left(S, avs):
    """The arrays a loop over the delays leaves, named in these values."""
    out = {}
    for v in avs:
        for y in tm.symbols(S.I.gv_of(v)):
            if y in S.I.left:
                out[y] = S.I.left[y]
    return out


def con(rep, nb):
    """The constrained fit: what is returned of the arrays over delays."""
    S = Session()
    S.I.named_loops = True
    n = N(S)
    m = nb + 1
    w = W % "of_nsmb_con"
    lab = "constrained, %d background%s" % (nb, "s" * (nb > 1))
    arreval.DOMAIN.clear()
    try:
        kw = inputs(S, nb)
        kw["Pfs"] = S.arr("Pfs", D(A=-2), (tm.num(m),) * 2)
        kw["P"] = S.arr("P", D(A=-2), (tm.num(m),) * 2 + (n,))
        w0 = S.arr("w0", DLESS, (1, S.intsym("K")), integer=True)
        w1 = S.arr("w1", DLESS, (S.intsym("K1"),), integer=True)
        kw["indwindow_nsmb"] = S.lst([w0, w1])
        kw["bitcomb"] = bitcombv(S)
        kw["lfindex"] = const(2)
        r = S.call(S.get(NSM, "of_nsmb_con"), **kw)
        it = S.I.static_iter(r)
        if it is None or len(it) != 14:
            rep.und("nsmb-constrained", lab, "not a tuple of 14", w)
            return
        o = dict(zip("a td chi lf res aw chiw tw ai ti chii awi chiwi twi"
                     .split(), it))
        e = dict(size(S), y=kw["pulset"], sf=kw["sbtemplatef"],
                 pd=kw["psddnu"], w0=w0, w1=w1)
        lx = left(S, [o["chiw"]])
        la = {k: v for k, v in left(S, [o["a"], o["aw"]]).items()
              if k not in lx}
        pre = "f = np.fft.fftfreq(n, 1/fs)\nT = a[0]*sf[0]*np.exp(-2j*np.pi"\
            "*f*np.sum(td)) + sum([a[i]*sf[i] for i in range(1, %d)])\n" % m

        def idt(nm, got, ref, what, **k):
            identity(rep, S, "nsmb-constrained", "%s %s" % (lab, nm), formula(
                S, "return " + got, **dict(e, **dict(o, **k))), formula(
                S, ref, **dict(e, **dict(o, **k))), what, w)
        idt("residual", "res[0]", pre + "return y - np.real(np.fft.ifft(T))"
            "*n", "the trace minus the templates times the returned "
            "amplitudes, the signal at the returned delay")
        zz = "z = np.fft.fft(res[0])/n\nz = np.abs(z)**2/pd[0]\n"
        idt("chi2", "np.sum(chi)", zz + "return np.sum(z)",
            "the chi-square of that residual")
        idt("low-frequency chi2", "np.sum(lf)", zz + "return np.sum(z[:2])",
            "the part of it below lfindex")
        if len(lx) != 1 or len(la) != 1:
            rep.und("nsmb-constrained", lab, "the arrays over the delays are "
                    "not found", w)
            used(rep, S)
            return
        x = formula(S, "np.squeeze(x)", x=list(lx.values())[0])
        g = dict(x=x, A=list(la.values())[0])
        k0 = "k = w0[0][np.argmin(x[w0[0]])]\n"
        idt("delay", "np.sum(td)", k0 + "return (k - n*(k > n/2))/fs",
            "the delay of least chi-square in the window, wrapped", **g)
        for i in range(m):
            idt("amplitude %d" % i, "a[%d]" % i, k0 + "return A[%d, k]" % i,
                "the amplitudes at that delay", **g)
        h = "R = np.roll(x, n//2)\nQ = np.roll(A[0], n//2)\n" \
            "j = np.argmin(R[w1])\nk = w1[j]\n"
        idt("window chi2", "np.sum(chiw)", h + "return np.min(R[w1])",
            "the least chi-square in the window, in delays from -N/2 to "
            "N/2", **g)
        idt("window delay", "np.sum(tw)", h + "return k/fs",
            "the delay of it", **g)
        idt("window amplitude", "np.sum(aw)", h + "return Q[k]",
            "the signal's amplitude at that delay", **g)
        fit = "p = np.polyfit(%s[q - 1:q + 2], %s[q - 1:q + 2], 2)\n" \
            "v = -p[1]/(2*p[0])\n"
        val = "s = np.polyfit(%s[q - 1:q + 2], %s[q - 1:q + 2], 2)\n" \
            "return np.where(E, %s, s[0]*v**2 + s[1]*v + s[2])"
        h0 = k0 + "q = np.mod(k, n)\nE = (q == 0) | (q == n - 1)\n" \
            "t = np.arange(n)/fs\n" + fit % ("t", "x")
        h1 = h + "q = j\nE = (j == 0) | (j == len(w1) - 1)\nX = R[w1]\n" \
            "B = Q[w1]\nt = w1/fs\n" + fit % ("t", "X")
        vx = "the vertex of the parabola through the three points about it"
        at = "the parabola through its three points at that vertex"
        idt("interpolated chi2", "chii", h0 + val % (
            "t", "x", "x[q]"), at, **g)
        idt("interpolated amplitude", "ai", h0 + val % (
            "t", "A[0]", "np.sum(A[0, q])"), at, **g)
        idt("interpolated delay", "ti", h0 + "v = np.where(E, t[q], "
            "v)\nreturn v - n*(v > n/fs/2)/fs", vx, **g)
        idt("window interpolated chi2", "np.sum(chiwi)", h1 + val % (
            "t", "X", "X[q]"), at, **g)
        idt("window interpolated amplitude", "np.sum(awi)", h1 + val % (
            "t", "B", "B[q]"), at, **g)
        idt("window interpolated delay", "np.sum(twi)", h1 +
            "return np.where(E, t[q], v)", vx, **g)
    except Raised as x:
        rep.und("nsmb-constrained", lab, "raises: %s" % x, w)
    finally:
        arreval.DOMAIN.clear()
    used(rep, S)


def ttl(rep, n, fs, rate, notch, con, pos):
    """The backgrounds for laser pulses fired at a fixed rate."""
    S = Session()
    w = W % "maketemplate_ttlfit_nsmb"
    k = fs / rate
    m = int(n / fs * rate)
    at = [int(round(k * i)) for i in range(m)]
    lab = "%d bins, %s bins apart%s" % (n, k, ", constrained" * con)

    def v(x):
        return AV(DLESS, tm.num(x), E0, sh=(), cst=x)
    arreval.DOMAIN.clear()
    try:
        t = S.arr("tpl", DLESS, (tm.num(n),))
        r = S.call(S.get(NSM, "maketemplate_ttlfit_nsmb"), t, v(fs), v(rate),
                   con, pos, v(notch))
        it = S.I.static_iter(r)
        if it is None or len(it) != 4:
            rep.und("nsmb-ttl", lab, "not a tuple of 4", w)
            return
        e = dict(t=t, b=it[0], s=it[1], c=it[2], win=it[3])

        def idt(nm, got, ref, what):
            identity(rep, S, "nsmb-ttl", "%s: %s" % (lab, nm), formula(
                S, got, **e), formula(S, ref, **e), what, w)
        for i, d in enumerate(at):
            idt("background %d" % i, "b[:, %d]" % i, "f = np.roll(t, -%d)\n"
                "r = np.zeros(%d)\nr[%d:] = f[:%d]\nreturn r" % (
                    int(m * k / 2), n, d, n - d), "the pulse moved to the "
                "first firing, then by whole periods rounded to a bin, "
                "with nothing before")
            idt("shift %d" % i, "s[%d]" % i, str(d), "the bins it is moved")
            idt("polarity %d" % i, "c[%d]" % i, str(
                (1 if pos else -1) if con else 0), "1 for positive, -1 for "
                "negative pulses, 0 without a constraint")
        for i, q in ((m, "np.arange(%d)/%d" % (n, n)), (
                m + 1, "np.ones(%d)" % n)):
            idt("background %d" % i, "b[:, %d]" % i, q,
                "then the slope and the offset")
            idt("shift %d" % i, "int(np.isnan(s[%d]))" % i, "1",
                "slope and offset have no shift: nan")
            idt("polarity %d" % i, "c[%d]" % i, "0", "and no constraint")
        out = {(d + j) % n for d in at for j in range(-notch, notch + 1)}
        idt("window", "np.sort(win[0].ravel())", "np.array(%r)" % (
            [j for j in range(n) if j not in out],), "every bin but those "
            "within notch_window_size of a firing")
    except Raised as x:
        rep.und("nsmb-ttl", lab, "raises: %s" % x, w)
    finally:
        arreval.DOMAIN.clear()
    used(rep, S)


CON = "q = [np.real(np.fft.ifft(phi[0]*np.fft.fft(y)))[d]] + [np.real(" \
    "np.sum(phi[j]*np.fft.fft(y)))/n for j in range(1, m)]\n" \
    "base = np.sum(np.abs(np.fft.fft(y)/n)**2/pd[0])\n"
# the best of the solutions with none, one or both amplitudes free
BEST = "D = r*t - v*v\nb0 = (t*q[0] - v*q[1])/D\nb1 = (r*q[1] - v*q[0])/D\n" \
    "c0, c1 = q[0]/r, q[1]/t\n" \
    "both = (b0*k0 >= 0) & (b1*k1 >= 0)\n" \
    "g0 = np.where(c0*k0 >= 0, q[0]*c0, 0)\n" \
    "g1 = np.where(c1*k1 >= 0, q[1]*c1, 0)\n" \
    "a0 = np.where(both, b0, np.where((g0 >= g1) & (g0 > 0), c0, 0))\n" \
    "a1 = np.where(both, b1, np.where(g1 > g0, c1, 0))\n"


def optimum(rep, signs, last):
    """The amplitudes of one delay, for signal and one background."""
    S = Session()
    w = W % "of_nsmb_con"
    n, m = 3, 2
    d = n - 1 if last else 0
    lab = "delay %d, constraints %s" % (d, signs)
    arreval.DOMAIN.clear()
    try:
        N_, M_ = tm.num(n), tm.num(m)
        kw = inputs(S, 1)
        kw.update(
            pulset=S.arr("pulset", A_, (N_,)),
            phi=S.arr("phi", D(A=-2), (M_, N_), real=False),
            sbtemplatef=S.arr("sbtemplatef", DLESS, (M_, N_), real=False),
            sbtemplate=S.arr("sbtemplate", DLESS, (N_, M_)),
            psddnu=S.arr("psddnu", D(A=2), (tm.ONE, N_), pos=True))
        # symmetric and positive: the inner products of two templates
        e = dict(r_=S.sc("ppr"), t_=S.sc("ppt"), v_=S.sc("ppv"))
        pre = "r = 1 + r_**2\nt = 1 + t_**2\nv = v_/(1 + v_**2)\n"
        kw["Pfs"] = formula(S, pre + "return np.array([[r, 0*v], [0*v, t]])",
                            **e)
        kw["P"] = formula(
            S, pre + "o = np.array([%s])\nP = np.zeros((2, 2, 3))\n"
            "P[0, 0] = r\nP[1, 1] = t\nP[0, 1] = o*v\nP[1, 0] = o*v\n"
            "return P" % ", ".join("1.0" if i == d else "0.4"
                                   for i in range(n)), **e)
        kw["indwindow_nsmb"] = S.lst([formula(S, "np.array([[%d]])" % d)])
        kw["bitcomb"] = S.lst([S.lst([const(i), const(j)])
                               for i in (0, 1) for j in (0, 1)])
        kw["lfindex"] = const(2)
        for k, x in zip(("sigpolarityconstraint", "bkgpolarityconstraint"),
                        signs):
            if x is not None:
                kw[k] = formula(S, "np.array([%d])" % x)
        it = S.I.static_iter(S.call(S.get(NSM, "of_nsmb_con"), **kw))
        if it is None or len(it) != 14:
            rep.und("nsmb-optimum", lab, "not a tuple of 14", w)
            return
        f = dict(e, y=kw["pulset"], phi=kw["phi"], pd=kw["psddnu"])
        pre += "n = %d\nm = %d\nd = %d\nk0, k1 = %d, %d\n" % (
            n, m, d, signs[0] or 0, signs[1] or 0)
        ref = pre + CON + BEST
        for i in range(m):
            identity(rep, S, "nsmb-optimum", "%s amplitude %d" % (lab, i),
                     formula(S, "a[%d]" % i, a=it[0]), formula(
                         S, ref + "return a%d" % i, **f), "the amplitudes "
                     "of least chi-square among those of allowed sign", w)
        identity(rep, S, "nsmb-optimum", lab + " chi2", formula(
            S, "np.sum(c)", c=it[10]), formula(
                S, ref + "return base - 2*(a0*q[0] + a1*q[1]) + r*a0**2 + "
                "t*a1**2 + 2*v*a0*a1", **f), "the chi-square of those", w)
    except Raised as x:
        rep.und("nsmb-optimum", lab, "raises: %s" % x, w)
    finally:
        arreval.DOMAIN.clear()
    used(rep, S)


def tasks(tier):
    return [(setup, (1,), "setup 1"), (setup, (2,), "setup 2"),
            (inverse, (2,), "inverse 2"), (inverse, (3,), "inverse")] + [
        (masked, (x,), "mask") for m in MASKS.values() for x in m] + [
        (fit, (1,), "fit 1"), (fit, (2,), "fit 2"), (slope, (), "slope")] + [
        (background, (n, c), "background %d %d" % (n, c))
        for n in (2,) for c in (False, True)] + [
        (con, (k,), "constrained %d" % k) for k in (1, 2)] + [
        (ttl, a, "ttl %s" % (a,)) for a in (
            (11, 4.0, 1.0, 1, True, False), (12, 5.0, 2.0, 0, True, True),
            (13, 4.0, 1.0, 0, False, True))] + [
        (optimum, a, "optimum %s" % (a,)) for a in (
            ((None, None), False), ((None, 1), False), ((None, -1), True),
            ((1, None), True), ((-1, 1), False), ((1, 1), False))]
