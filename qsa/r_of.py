"""Optimum filter: definition of amplitude and chi-square, additivity,
special cases of the pile-up and delayed fits."""
from fractions import Fraction
from . import terms as tm
from .compare import deep
from . import arreval
from .values import *      # noqa
from .entry import Session, Raised
from .specs import *       # noqa
from .rules import used, formula, identity, of_new, of_call, same, OFM

W = "qetpy/core/_fitting.py in OptimumFilter.%s"


def new(S, cp, sig=None, tmpl=None):
    n = N(S)
    if tmpl is None:
        tmpl = S.arr("template", D(T=1), (n,))
    psd = S.arr("psd", D(P=1), (n,), pos=True)
    fs = S.sc("fs", HZ, pos=True)
    if sig is None:
        sig = S.arr("signal", A_, (n,))
    return S.call(S.get(FIT, "OptimumFilter"), sig, tmpl, psd, fs,
                  coupling=cp)


def psdf(cp):
    return ("p = np.zeros(len(psd))\np[:] = psd\n" +
            ("p[0] = np.inf\n" if cp == "AC" else ""))


PRE = ("n = len(signal)\ndf = fs/n\nv = fft(signal)/n/df\n"
       "s = fft(template)/n/df\n")


def env(S):
    n = N(S)
    return dict(signal=S.arr("signal", A_, (n,)),
                template=S.arr("template", D(T=1), (n,)),
                psd=S.arr("psd", D(P=1), (n,), pos=True),
                fs=S.sc("fs", HZ, pos=True))


def definition(rep, cp):
    r = "of-definition"
    w = W % "%s"

    def go(m, kw, *fs):
        S = Session()
        try:
            o = new(S, cp)
            k = kw(S)
            out = S.meth(o, m, **k)
            outs = out.items if isinstance(out, TupV) else [out]
            for i, text in enumerate(fs):
                if text is None:
                    continue
                e = env(S)
                for q in ("amp", "chi2"):
                    pass
                ks = dict(k)
                if len(outs) > 1:
                    ks["out0"] = outs[0]
                want = formula(S, PRE + psdf(cp) + text, **e, **ks)
                identity(rep, S, r, "%s[%s][%d]" % (m, cp, i), outs[i], want,
                         text.replace("\n", "; "), w % m)
        except Raised as x:
            rep.und(r, m, "raises: %s" % x, w % m)
        used(rep, S)
    go("ofamp_nodelay", lambda S: {},
       "return np.real(np.sum(s.conjugate()*v/p))/"
       "np.sum(np.abs(s)**2/p)",
       "return np.sum(np.abs(v - out0*s)**2/p)*df")
    go("ofamp_nodelay", lambda S: dict(windowcenter=i_(S, "wc")),
       "f = fftfreq(n, d=1/fs)\nreturn np.real(np.sum(s.conjugate()*v*"
       "np.exp(2j*np.pi*f*windowcenter/fs)/p))/"
       "np.sum(np.abs(s)**2/p)",
       "f = fftfreq(n, d=1/fs)\nreturn np.sum(np.abs(v - out0*s*"
       "np.exp(-2j*np.pi*f*windowcenter/fs))**2/p)*df")
    go("chi2_nopulse", lambda S: {}, "return np.sum(np.abs(v)**2/p)*df")
    go("energy_resolution", lambda S: {},
       "return 1/np.sqrt(np.sum(np.abs(s)**2/p)*df)")
    go("time_resolution", lambda S: dict(amp=S.sc("amp0", AT)),
       "f = fftfreq(n, d=1/fs)\nreturn 1/np.sqrt(np.sum((2*np.pi*f)**2*"
       "np.abs(s)**2/p)*df*amp**2)")
    go("chi2_lowfreq", lambda S: dict(
        amp=S.sc("amp0", AT), t0=S.sc("t00", S_), fcutoff=S.sc(
            "fcutoff", HZ)),
       "f = fftfreq(n, d=1/fs)\nc = np.abs(v - amp*s*np.exp(-2j*np.pi*f*t0))"
       "**2/p*df\nreturn np.sum(c[np.abs(f) <= fcutoff])")
    # the delayed fit: chi-square belongs to the returned amplitude
    go("ofamp_withdelay", lambda S: {}, None, None,
       "return np.sum(np.abs(v)**2/p)*df - out0**2*np.sum(np.abs(s)**2/p)*df")
    go("ofamp_withdelay", lambda S: dict(nconstrain=i_(S, "nc"),
                                         windowcenter=i_(S, "wc")),
       None, None, None)


def additive(rep, cp, m):
    S = Session()
    r = "of-additive"
    nm = "%s[%s]" % (m, cp)
    n = N(S)
    x, y = S.arr("x", A_, (n,)), S.arr("y", A_, (n,))
    try:
        def amp(sig, **k):
            return S.meth(new(S, cp, sig), m, **k).items[0]
        a, b = amp(x), amp(y)
        c = amp(formula(S, "x + y", x=x, y=y))
        identity(rep, S, r, nm, c, formula(S, "a + b", a=a, b=b),
                 "the amplitude of a sum is the sum of the amplitudes", W % m)
        k = S.sc("k", None)
        tm_ = S.arr("template", D(T=1), (n,))
        o = new(S, cp, formula(S, "k*t", k=S.sc("k", AT), t=tm_))
        out = S.meth(o, m).items
        identity(rep, S, "of-template", nm, out[0], S.sc("k", AT),
                 "a scaled template has its scale as amplitude", W % m)
        identity(rep, S, "of-template", nm + " chi2", out[1], formula(
            S, "0*k", k=S.sc("k", AT)),
            "a scaled template has zero chi-square", W % m)
    except Raised as e:
        rep.und(r, nm, "raises: %s" % e)
    used(rep, S)


def onebin(S, v):
    """Bins of shifted and transformed arrays written out; the window is
    taken to lie inside the trace."""
    from .compare import assume, first_ite, atoms_deep, deep
    g = S.I.gv_of(v)
    if g is None:
        return v
    for _ in range(6):
        cs = [tm.T.atoms[i].args[0] for i in atoms_deep(g)
              if tm.T.atoms[i].kind == "fn" and tm.T.atoms[i].name == "ite"]
        cs = [c for c in cs if "count" in {tm.T.atoms[i].name
                                           for i in atoms_deep(c)}]
        if not cs:
            break
        g = assume(g, cs[0], False)
    return AV(None, bins(S, g), E0, sh=())


def const_of(e):
    return e.const() if isinstance(e, tm.Expr) else None


def pick(S, x, j):
    """Element j of the array term x, or None."""
    n = N(S)
    bad = []

    def one(at, j):
        if at.kind == "fn":
            if at.name == "roll" and isinstance(at.args[1], tm.Expr):
                return el(at.args[0], j - at.args[1])
            if at.name == "conj":
                return tm.conj(el(at.args[0], j))
            if at.name == "ifft":
                ph = tm.exp_(tm.J * tm.num(2) * tm.sym("pi", pos=True) * j *
                             tm.fn("fftint", n, real=True, integer=True) / n)
                return tm.linear("sum", at.args[0] * ph, scalar=True) / n
            if at.name == "fftint" and const_of(j) == 0:
                return tm.ZERO
            if at.name == "fft" and const_of(j) == 0 and len(at.args) == 1:
                return tm.linear("sum", at.args[0], scalar=True)
            if at.name == "slice" and len(at.args) == 3:
                return el(at.args[0], j + at.args[1])
            if at.name in ("stsl", "st"):
                lo = const_of(at.args[1])
                jj = const_of(j)
                if lo is not None and (
                        jj is not None or at.name == "stsl" and lo == 1 and
                        at.args[2] == n):
                    # a symbolic index stands for any bin but the first
                    inside = (jj is None or jj >= lo) if at.name == "stsl" \
                        else jj == lo
                    if inside:
                        v = at.args[-1]
                        return v if at.name == "st" else el(v, j - at.args[1])
                    return el(at.args[0], j)
        bad.append(at)
        return tm.of_atom(at)

    def el(e, j):
        def f(at):
            if at.scalar or at.kind == "sym" and at.name in ("J", "pi"):
                return tm.of_atom(at)
            if at.kind == "poly" or at.name == "box":
                return el(at.args[0], j)
            if at.kind == "exp":
                return tm.exp_(el(at.args[0], j))
            if at.kind == "root":
                return tm.powq(el(at.args[0], j), Fraction(1, at.args[1]))
            return one(at, j)
        return tm.map_atoms(e, f)
    r = el(x, j)
    if bad:
        return None
    inf = {i for i in r.atoms() if tm.T.atoms[i].name == "inf"}
    return tm.Expr({m: c for m, c in r.t.items() if not any(
        a in inf and k < 0 for a, k in m)}) if inf else r


def stores(e):
    """Elementwise occurrences of arrays with a stored first element."""
    out = []

    def rule(at, go):
        if at.scalar:
            return tm.of_atom(at)
        if at.kind == "fn" and at.name == "st" and \
                const_of(at.args[1]) == 0 and \
                "inf" not in tm.symbols(at.args[2]):
            out.append(at)
            return tm.of_atom(at)
        return None
    deep(e, rule)
    return out


def bins(S, g):
    """Bins of shifted and transformed arrays written out."""
    n = N(S)

    def unstore(e):
        """sum over an array with a separately stored first element"""
        for t in stores(e):
            b = deep(e, lambda at, go: t.args[0] if at is t else
                     tm.of_atom(at) if at.scalar else None)
            x, y = pick(S, e, tm.ZERO), pick(S, b, tm.ZERO)
            if x is None or y is None:
                return None
            return tm.linear("sum", b, scalar=True) - y + x
        return None

    def norm(j):
        # bins are periodic
        def f(at):
            if at.name == "mod" and at.args[1] == n:
                return norm(at.args[0])
            if at.name == "rint" and at.args[0].single_atom() is not None \
                    and at.args[0].single_atom().integer:
                return at.args[0]
            return tm.of_atom(at)
        return tm.map_atoms(j, f)

    def rule(at, go):
        if at.kind == "fn" and at.name == "idx" and len(at.args) == 2 and \
                isinstance(at.args[1], tm.Expr):
            r = pick(S, at.args[0], norm(go(at.args[1])))
            return go(r) if r is not None else None
        if at.kind == "fn" and at.name == "sum" and len(at.args) == 1:
            r = unstore(at.args[0])
            return go(r) if r is not None else None
        return None
    return deep(g, rule)


def baseline(rep, cp):
    """Amplitude fitted together with a constant offset."""
    S = Session()
    m = "ofamp_baseline"
    n = N(S)
    w = W % m
    nm = "%s[%s]" % (m, cp)
    r = "of-fit"
    try:
        out = S.meth(new(S, cp), m).items
        v, arg = best(S, out)
        arg1 = arg
        if v is not None and arg:
            v, arg = best(S, v, name="jfirst")
        if v is None or not arg:
            rep.und(r, nm, "best bin not found", w)
            return
        a, t, c = v
        jb, j1 = [AV(DLESS, tm.sym(k, real=True, scalar=True, integer=True),
                     E0, sh=()) for k in ("jbest", "jfirst")]
        e = env(S)
        pre = PRE + (
            "p = psd\nf = fftfreq(n, d=1/fs)\nd = 1/df\n"
            "E1 = np.exp(-2j*np.pi*f*j1/fs)\n"
            "E2 = np.exp(-2j*np.pi*f*(j - n//2)/fs)\n"
            "ss = np.sum(np.abs(s)**2/p)\n"
            "if ac:\n"
            "    p = np.zeros(len(psd))\n    p[:] = psd\n    p[0] = np.inf\n"
            "    ss = np.sum(np.abs(s)**2/p) + np.abs(s[0])**2/psd[0]\n"
            "def dot(E):\n"
            "    x = np.real(np.sum((s*E).conjugate()*v/p))\n"
            "    if ac:\n"
            "        x = x + np.real(s[0].conjugate()*v[0])/psd[0]\n"
            "    return x\n"
            "b2 = np.real(s[0].conjugate()*d)/psd[0]\n"
            "c1 = np.real(v[0]*d)/psd[0]\nc2 = d**2/psd[0]\n"
            "A = (dot(E1)*c2 - b2*c1)/(ss*c2 - b2**2)\n"
            "b = (c1 - A*b2)/c2\n"
            "a = (dot(E2) - b*b2)/ss\n")
        e["j"], e["j1"] = jb, j1
        e["ac"] = const(cp == "AC")
        def want(text):
            g = S.I.gv_of(formula(S, pre + text, **e))
            return AV(None, bins(S, g) if g is not None else None, E0, sh=())
        identity(rep, S, r, nm + " amplitude", a, want("return a"), "the amplitude is the fit with the "
            "baseline of the best joint fit", w)
        v2, _ = best(S, [AV(None, arg1[0].args[0], E0)], name="jfirst")
        crit(rep, S, r, nm, [tm.fn("argmin", v2[0].gv).single_atom()], c, w)
        crit(rep, S, r, nm + " joint", arg, want(
            "vv = np.sum(np.abs(v)**2/p)\n"
            "if ac:\n    vv = vv + np.abs(v[0])**2/psd[0]\n"
            "return (vv - A*dot(E1) - b*c1)*df"), w, "jfirst")
        identity(rep, S, r, nm + " time", t, formula(
            S, "(j - n//2)/fs", j=jb, n=AV(DLESS, n, E0, sh=()),
            fs=e["fs"]), "the time is the best bin", w)
        identity(rep, S, r, nm + " chi2", c, want(
            "vv = np.sum(np.abs(v)**2/p)\n"
            "if ac:\n    vv = vv + np.abs(v[0])**2/psd[0]\n"
            "return (vv - 2*b*c1 + b**2*c2 - a**2*ss)*df"),
            "the chi-square is the one of the fit", w)
    except Raised as x:
        rep.und(r, nm, "raises: %s" % x, w)
    used(rep, S)


def best(S, vs, at=None, name="jbest"):
    """The values at the best bin, named jbest (or the bin of no delay)."""
    from .compare import atoms_deep
    gs = [S.I.gv_of(v) for v in vs]
    if any(g is None for g in gs):
        return None, None
    arg = []
    for g in gs:
        # outermost argmin first
        top = [tm.T.atoms[i] for i in atoms_deep(g)
               if tm.T.atoms[i].kind == "fn" and
               tm.T.atoms[i].name == "argmin"]
        for t in top:
            if t not in arg:
                arg.append(t)
    j = at if at is not None else tm.sym(name, real=True, scalar=True,
                                         integer=True)
    outer = [t for t in arg if not any(
        t is not u and t.id in atoms_deep(tm.of_atom(u)) for u in arg)]

    def rule(at_, go):
        if at_ in outer:
            return j if at_ is outer[0] else None
        return None
    return [AV(None, bins(S, deep(g, rule)), E0, sh=()) for g in gs], outer


def crit(rep, S, r, lab, arg, c, w, name="jbest"):
    """The best bin is chosen by the chi-square."""
    j = tm.sym(name, real=True, scalar=True, integer=True)
    x = pick(S, arg[0].args[0], j)
    if x is None:
        rep.und(r, lab + " criterion", "argument of argmin not known", w)
        return
    identity(rep, S, r, lab + " criterion", AV(None, bins(S, x), E0, sh=()),
             c, "the best bin minimises the chi-square", w)


def fits(rep, cp, m):
    """The returned chi-square is the one of the returned amplitudes and
    times, the amplitudes minimise it, and the time is the best bin."""
    S = Session()
    n = N(S)
    w = W % m
    nm = "%s[%s]" % (m, cp)
    r = "of-fit"
    e = env(S)
    one = "np.exp(-2j*np.pi*f*%s)"
    try:
        kw, extra = {}, {}
        if m == "ofamp_pileup_iterative":
            k1 = i_(S, "k1")
            t1 = formula(S, "k/fs", k=k1, fs=e["fs"])
            a1 = S.sc("a1", AT)
            kw = dict(a1=a1, t1=t1)
            extra = dict(kw)
        out = S.meth(new(S, cp), m, **kw).items
        for zero in (False, True):
            jz = tm.fn("floordiv", n, tm.num(2), real=True, integer=True,
                       scalar=True) if zero else None
            v, arg = best(S, out, jz)
            if v is None or not arg:
                rep.und(r, nm, "best bin not found", w)
                continue
            lab = nm + (" no delay" if zero else "")
            if m == "ofamp_withdelay":
                a, t, c = v
                x = dict(a2=a, t2=t, c=c)
                model = "a2*s*E2"
                orth = ["s*E2"]
            elif m == "ofamp_pileup_iterative":
                a, t, c = v
                x = dict(a2=a, t2=t, c=c, **extra)
                model = "a1*s*E1 + a2*s*E2"
                orth = ["s*E2"]
            else:
                a1, a2, t, c = v
                x = dict(a1=a1, a2=a2, t2=t, c=c)
                model = "a1*s + a2*s*E2"
                orth = ["s", "s*E2"]
            pre = PRE + psdf(cp) + "f = fftfreq(n, d=1/fs)\n"
            if "E1" in model:
                pre += "E1 = " + one % "t1" + "\n"
            if "E2" in model:
                pre += "E2 = " + one % "t2" + "\n"
            pre += "r = v - (%s)\n" % model
            args = dict(e, **{k: q for k, q in x.items()
                              if k + "*" in pre or k + ")" in pre or
                              k == "t2"})
            if not zero:
                crit(rep, S, r, lab, arg, c, w)
                jb = AV(DLESS, tm.sym("jbest", real=True, scalar=True,
                                      integer=True), E0, sh=())
                identity(rep, S, r, lab + " time", t, formula(
                    S, "(j - n//2)/fs", j=jb, n=AV(DLESS, n, E0, sh=()),
                    fs=e["fs"]), "the time is the best bin", w)
            identity(rep, S, r, lab + " chi2", c, formula(
                S, pre + ("return np.sum(np.abs(r)**2/p)*df" if len(orth) < 2
                          else "return (np.sum(np.abs(v)**2/p) - a1*np.real("
                          "np.sum(s.conjugate()*v/p)) - a2*np.real(np.sum("
                          "(s*E2).conjugate()*v/p)))*df"), **args),
                "the chi-square is the one of the returned amplitudes and "
                "times", w)
            for o in orth:
                if m.endswith("stationary") and zero:
                    continue
                z = formula(S, pre + "return np.real(np.sum((%s).conjugate()"
                            "*r/p))" % o, **args)
                identity(rep, S, r, "%s %s" % (lab, o), z, formula(
                    S, "0*fs", fs=e["fs"]),
                    "the amplitude minimises the chi-square", w)
    except Raised as x:
        rep.und(r, nm, "raises: %s" % x, w)
    used(rep, S)


def special(rep, cp):
    """Fits that must coincide."""
    S = Session()
    n = N(S)
    t1 = S.sc("t1", S_)
    for lab, kw in OFM["ofamp_withdelay"]:
        try:
            k = kw(S)
            k["lgcoutsidewindow"] = k.get("lgcoutsidewindow", False)
            a = S.meth(new(S, cp), "ofamp_withdelay", **k)
            b = S.meth(new(S, cp), "ofamp_pileup_iterative", const(0), t1,
                       **k)
            for i, q in enumerate(("amplitude", "time", "chi-square")):
                same(rep, S, "of-special", "pileup_iterative[%s](%s) %s" % (
                    cp, lab, q), a.items[i], b.items[i],
                    "with a first pulse of zero amplitude the second pulse "
                    "is the single delayed pulse", W % "pileup_iterative")
            for w, wl in ((const(0), "0"), (i_(S, "wc"), "w")):
                a = S.meth(new(S, cp), "ofamp_withdelay", nconstrain=const(1),
                           windowcenter=w)
                b = S.meth(new(S, cp), "ofamp_nodelay", windowcenter=w)
                for i, j, q in ((0, 0, "amplitude"), (2, 1, "chi-square")):
                    same(rep, S, "of-special", "withdelay[%s] one bin at %s "
                         "%s" % (cp, wl, q), onebin(S, a.items[i]),
                         onebin(S, b.items[j]), "a window of one bin is the fit without delay",
                         W % "ofamp_withdelay")
        except Raised as e:
            rep.und("of-special", lab, "raises: %s" % e)
    used(rep, S)


# the fits as functions of the delay bin, and the searched window
FITS = {
    "ofamp_withdelay": (
        "A = np.roll(np.real(ifft(s.conjugate()*v/p))*n, n//2)/g\n"
        "X = c0 - A**2*g\nnone = (0, 0, c0)\n"
        "shown = lambda k: (A[k], (k - n//2)/fs, X[k])\n"),
    "ofamp_pileup_iterative": (
        "E1 = np.exp(-2j*np.pi*f*t1)\nr = v - a1*s*E1\n"
        "A = np.roll(np.real(ifft(s.conjugate()*r/p))*n, n//2)/g\n"
        "X = np.sum(np.abs(r)**2/p) - A**2*g\n"
        "none = (0, 0, np.sum(np.abs(r)**2/p))\n"),
    "ofamp_baseline": (
        "d = 1/df\n"
        "vv, ss, q = c0, g, np.zeros(n)\n"
        "if ac:\n"
        "    vv = c0 + np.abs(v[0])**2/psd[0]\n"
        "    ss = g + np.abs(s[0])**2/psd[0]\n"
        "    q = np.real(s[0].conjugate()*v[0])/psd[0] + q\n"
        "b1 = np.real(ifft(s.conjugate()*v/p))*n + q\n"
        "b2 = np.real(s[0].conjugate()*d)/psd[0]\n"
        "c1 = np.real(v[0]*d)/psd[0]\nc2 = d**2/psd[0]\n"
        "a_ = (b1*c2 - b2*c1)/(ss*c2 - b2**2)\n"
        "b_ = (c1 - a_*b2)/c2\n"
        "k1 = np.argmin(vv - a_*b1 - b_*c1)\n"
        "b = (c1 - a_[k1]*b2)/c2\n"
        "A = np.roll((b1 - b*b2)/ss, n//2)\n"
        "x0 = vv - 2*b*c1 + b**2*c2\n"
        "X = x0 - A**2*ss\nnone = (0, 0, x0)\n"),
    "ofamp_pileup_stationary": (
        "B = np.real(ifft(s.conjugate()*v/p))*n/g\n"
        "w = np.real(ifft(s.conjugate()*s/p))*n/g\n"
        "w[0] = 0\n"
        "A1 = (B[0] - B*w)/(1 - w**2)\nA2 = (B - B[0]*w)/(1 - w**2)\n"
        "A1[0] = B[0]/2\nA2[0] = B[0]/2\n"
        "Y = c0 - g*(A1*B[0] + A2*B)\n"
        "A1 = np.roll(A1, n//2)\nA = np.roll(A2, n//2)\n"
        "X = np.roll(Y, n//2)\nnone = (0, 0, c0)\n"),
}
WINDOW = (
    "j = np.arange(n)\nok = j >= 0\n"
    "if window:\n"
    "    h = np.minimum(nc, n)\n"
    "    ok = (j >= n//2 - h//2 + wc) & (j < n//2 - h//2 + h + wc)\n"
    "    if outside:\n        ok = ~ok\n"
    "if sign != 0:\n    ok = ok & (sign*A > 0)\n"
    "k = np.argmin(np.where(ok, X, np.inf))\n"
    "empty = np.sum(ok) == 0\n")
PLAIN = "a, t, c = A[k], (k - n//2)/fs, X[k]\n"
PARABOLA = (
    "up = X[(k + 1) % n]\ndn = X[k - 1]\n"
    "au = A[(k + 1) % n]\nad = A[k - 1]\n"
    "y = -(up - dn)/(2*(up - 2*X[k] + dn))\n"
    "a = A[k] + (au - ad)*y/2 + (au - 2*A[k] + ad)*y**2/2\n"
    "t = (k - n//2 + y)/fs\n"
    "c = X[k] + (up - dn)*y/2 + (up - 2*X[k] + dn)*y**2/2\n")


def dom():
    arreval.DOMAIN.clear()
    arreval.DOMAIN.update({
        "nc": lambda e, r: r.randint(1, e.n + 1),
        "wc": lambda e, r: r.randint(-(e.n//2), e.n//2 - (e.n + 1) % 2),
        "k1": lambda e, r: r.randint(-e.n, e.n)})


def windows(rep, cp, m, out, sign, interp, win):
    """The delay is searched in exactly the window and with the sign asked
    for, and the sub-bin interpolation is the parabola through the best bin
    and its neighbours."""
    S = Session()
    w = W % m
    lab = "%s[%s]%s%s%s" % (
        m, cp, " outside" if out else " window" if win else "",
        " sign %+d" % sign if sign else "", " interpolated" if interp else "")
    e = env(S)
    dom()
    nc, wc = i_(S, "nc"), i_(S, "wc")
    kw = dict(nconstrain=nc, windowcenter=wc,
              lgcoutsidewindow=const(out)) if win else {}
    if sign:
        kw["pulse_direction_constraint"] = const(sign)
    if interp:
        kw["interpolate_t0"] = const(True)
    e.update(window=const(win), outside=const(out), sign=const(sign),
             ac=const(cp == "AC"), nc=nc, wc=wc)
    pos = []
    try:
        if m == "ofamp_pileup_iterative":
            t1 = formula(S, "k/fs", k=i_(S, "k1"), fs=e["fs"])
            e["a1"], e["t1"] = S.sc("a1", AT), t1
            pos = [e["a1"], t1]
        o = S.meth(new(S, cp), m, *pos, **kw).items
        pre = PRE + psdf(cp) + "f = fftfreq(n, d=1/fs)\n" \
            "c0 = np.sum(np.abs(v)**2/p)\ng = np.sum(np.abs(s)**2/p)\n" + \
            FITS[m].split("shown")[0] + WINDOW + (
                PARABOLA if interp else PLAIN)
        if m.endswith("stationary"):
            pre += "r = (A1[k], a, t, c*df)\n"
        else:
            pre += "a = np.where(empty, none[0], a)\n" \
                "t = np.where(empty, none[1], t)\n" \
                "r = (a, t, np.where(empty, none[2], c)*df)\n"
        want = formula(S, pre + "return r", **e).items
        names = ("amplitude", "time", "chi2") if len(o) == 3 else (
            "first amplitude", "second amplitude", "time", "chi2")
        for q, x, y in zip(names, o, want):
            a, b = S.I.gv_of(x), S.I.gv_of(y)
            if a is None or b is None:
                rep.und("of-window", lab + " " + q, "value not known", w)
                continue
            if m.endswith("stationary") and win:
                # defined only where there is a bin to choose
                pass
            t, d = arreval.compare(a, b, S.I.raises, need=40, bounds=True)
            rep.put(t, "of-window", lab + " " + q, "the fit at the best bin "
                    "of the requested window; the code differs %s" % d, w)
    except Raised as x:
        rep.und("of-window", lab, "raises: %s" % x, w)
    finally:
        arreval.DOMAIN.clear()
    used(rep, S)


def window_tasks():
    out = []
    for cp in ("AC", "DC"):
        for m in ("ofamp_withdelay", "ofamp_pileup_iterative",
                  "ofamp_pileup_stationary", "ofamp_baseline"):
            for win, o in ((False, False), (True, False), (True, True)):
                for sign in (0, 1, -1):
                    for interp in (False, True):
                        if m.endswith("stationary") and (sign or interp):
                            continue
                        out.append((windows, (cp, m, o, sign, interp, win),
                                    "windows %s %s" % (cp, m)))
    return out


def tasks(tier):
    out = [(definition, (cp,), "definition " + cp) for cp in ("AC", "DC")]
    out += [(additive, (cp, m), "additive %s %s" % (cp, m))
            for cp in ("AC", "DC") for m in ("ofamp_nodelay",)]
    out += [(fits, (cp, m), "fits %s %s" % (cp, m)) for cp in ("AC", "DC")
            for m in ("ofamp_withdelay", "ofamp_pileup_iterative",
                      "ofamp_pileup_stationary")]
    out += [(baseline, (cp,), "baseline %s" % cp) for cp in ("AC", "DC")]
    out += window_tasks()
    out += [(special, (cp,), "special " + cp) for cp in ("AC", "DC")]
    return out
