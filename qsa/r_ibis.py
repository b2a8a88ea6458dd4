"""IBIS: identities of the offset and IV analysis, and error propagation."""
from . import terms as tm
from . import specs
from .values import *      # noqa
from .entry import Session, Raised
from .specs import *       # noqa
from .compare import atoms_deep
from .rules import used, formula, identity, peel_term, complete
from .report import OK

IBF = "qetpy/core/_ibis.py in IBIS.analyze"


class O(object):
    """Attributes of an analysed object, as values of the generic element."""

    def __init__(self, rep, S, o, label):
        self.rep, self.S, self.label = rep, S, label
        self.A = S.attrs(o)

    def __getitem__(self, k):
        v = self.A.get(k)
        if v is None:
            return None
        g = self.S.I.gv_of(v)
        if g is None:
            return None
        try:
            g = generic(peel_term(self.S, g))
        except tm.TooBig:
            return None
        return AV(None, g, E0, sh=())

    def either(self, rule, name, texts, extra=None):
        """One of several formulas."""
        rep, keep = self.rep, None
        for t in texts:
            self.rep = type(rep)()
            self.check(rule, name, t, extra)
            keep = keep or self.rep
            if all(o.status == OK for o in self.rep.obs):
                keep = self.rep
                break
        self.rep = rep
        rep.obs += keep.obs

    def check(self, rule, name, text, extra=None, **over):
        nm = "%s %s" % (self.label, name)
        lhs = self[name]
        env = dict(extra or {})
        import re
        for k in set(re.findall(r"[A-Za-z_]\w*", text)) - {"np", "sqrt", "abs"}:
            if k not in env:
                env[k] = over.get(k, self[k])
        if lhs is None or any(v is None for v in env.values()):
            self.rep.und(rule, nm, "value not known: %s" % [
                k for k, v in env.items() if v is None], IBF)
            return
        try:
            want = formula(self.S, text, **env)
        except Raised as x:
            self.rep.und(rule, nm, str(x), IBF)
            return
        identity(self.rep, self.S, rule, nm, lhs, want,
                 "%s must be %s" % (name, text), IBF,
                 square=name.endswith("_err"))


SUBS = ("idx", "get", "getw")
LAYOUT = ("T", "tile", "reshape", "swapaxes", "transpose")


def base(at, sel):
    """The array an element is taken from, through views and layouts."""
    while at is not None and at.kind == "fn" and at.name in SUBS + LAYOUT \
            and isinstance(at.args[0], tm.Expr):
        if at.name in SUBS:
            named(at.args[1:], sel)
        at = at.args[0].single_atom()
    return at


def named(x, sel):
    if isinstance(x, tm.Expr):
        for a in [tm.T.atoms[i] for i in atoms_deep(x)]:
            if a.kind == "sym" and a.name in ("normalinds", "scinds"):
                sel.append(a)
    elif isinstance(x, tuple):
        for y in x:
            named(y, sel)


def generic(g):
    """One element for all: drop element subscripts and layouts, keep the
    choice of fit points."""
    from .compare import deep

    def rule(at, go):
        if at.kind == "fn" and at.name in SUBS + LAYOUT and \
                isinstance(at.args[0], tm.Expr):
            sel = []
            a = base(at, sel)
            if a is None or a.kind in ("root", "poly"):
                sel2 = []
                named(at.args[1:], sel2)
                return go(at.args[0]) if at.name in SUBS and not sel2 \
                    else None
            if a.kind == "fn" and a.name == "cfx":
                return go(tm.of_atom(a))
            if a.kind == "sym":
                e = tm.of_atom(a)
                for s in sel:
                    e = tm.fn("sel", e, tm.of_atom(s), real=a.real)
                return e
        return None
    return deep(g, rule)


def run(rep, label, mk, *args, **kw):
    S = Session()
    try:
        o = mk(S)
        S.meth(o, "analyze", **{k: v(S) for k, v in kw.items()})
    except Raised as x:
        rep.und("ibis", label, "raises: %s" % x)
        return None
    return O(rep, S, o, label)


def fitvals(a):
    """Slopes and intercepts with their variances, from the fit terms."""
    out = {}
    for k in ("slope_n", "int_n", "slope_sc", "int_sc"):
        v = a[k]
        at = v.gv.single_atom() if v is not None and v.gv is not None else None
        if at is None or at.name != "cfx":
            continue
        out[k] = v
        c = tm.fn("cfcov", at.args[0], at.args[1], at.args[1], real=True)
        for i in [x for x in tm.T.atoms if False]:
            pass
        out["var_" + k] = AV(None, c, E0, sh=())
    return out


def filled(a):
    for k in sorted(a.A):
        complete(a.rep, a.S, "ibis-complete", "%s %s" % (a.label, k), a.A[k],
                 IBF)


def offsets(rep, sc, nd):
    a = run(rep, "IBIS[%s %dd given offsets]" % ("sc" if sc else "nosc", nd),
            lambda S: specs.ibis_obj(S, sc, nd),
            **{k: (lambda S, k=k: specs.offs(S)[k])
               for k in ("xoff", "xoff_err", "yoff", "yoff_err")})
    if a is None:
        return
    S = a.S
    z = specs.offs(S)
    r = "ibis-identity"
    e = "ibis-error"
    x = {k: AV(None, v.gv, E0, sh=()) for k, v in z.items()}
    a.check(r, "ites", "dites - yoff", x)
    a.check(r, "ioff", "yoff", x)
    a.check(r, "ibias_off", "xoff", x)
    a.check(r, "ioff_err", "yoff_err", x)
    a.check(r, "ibias_off_err", "xoff_err", x)
    common(a)
    filled(a)
    used(rep, S)


def common(a, rp="scalar"):
    r, e = "ibis-identity", "ibis-error"
    a.check(r, "ites", "dites - ioff")
    a.check(r, "ibias_true", "ibias - ibias_off")
    a.check(r, "vb", "ibias_true*rsh")
    a.check(r, "rnorm", "rfit - rsh - rp")
    a.check(r, "r0", "vb/ites - rsh - rp")
    a.check(r, "ptes", "vb*ites - ites**2*(rsh + rp)")
    a.check(e, "ites_err", "np.sqrt(dites_err**2 + ioff_err**2)")
    a.check(e, "ibias_true_err", "np.sqrt(ibias_err**2 + ibias_off_err**2)")
    a.check(e, "vb_err", "np.sqrt((ibias_true*rsh_err)**2 + "
            "(rsh*ibias_true_err)**2)")
    # the shunt is in rfit and in the load: with or without the second
    a.either(e, "rnorm_err", ["np.sqrt(rfit_err**2 + rp_err**2)",
                              "np.sqrt(rfit_err**2 + rp_err**2 + rsh_err**2)",
                              "np.sqrt(rfit_err**2 + rp_err**2 + rsh_err**2 "
                              "- 2*rfit/rsh*rsh_err**2)"])
    a.check(e, "r0_err", "np.sqrt((rsh/ites)**2*(ibias_err**2 + "
            "ibias_off_err**2) + (ibias_true*rsh/ites**2)**2*(dites_err**2 "
            "+ ioff_err**2) + ((ibias_true/ites - 1)*rsh_err)**2 "
            "+ rp_err**2)")
    a.check(e, "ptes_err", "np.sqrt((rsh*ites)**2*(ibias_err**2 + "
            "ibias_off_err**2) + (ibias_true*rsh - 2*ites*(rsh + rp))**2"
            "*(dites_err**2 + ioff_err**2) + ((ibias_true*ites - ites**2)"
            "*rsh_err)**2 + (ites**2*rp_err)**2)")


def fitted(rep, sc, nd, rp):
    a = run(rep, "IBIS[%s %dd rp=%s]" % ("sc" if sc else "nosc", nd, rp),
            lambda S: specs.ibis_obj(S, sc, nd, rp))
    if a is None:
        return
    r, e = "ibis-identity", "ibis-error"
    f = fitvals(a)
    a.check(r, "rfit", "rsh/slope_n")
    a.check(e, "rfit_err", "np.sqrt((rsh/slope_n**2)**2*var_slope_n "
            "+ (rsh_err/slope_n)**2)", f)
    a.check(r, "ites", "dites - ioff")
    a.check(r, "ibias_true", "ibias - ibias_off")
    a.check(r, "vb", "ibias_true*rsh")
    a.check(r, "rnorm", "rfit - rsh - rp")
    a.check(e, "ites_err", "np.sqrt(dites_err**2 + ioff_err**2)")
    a.check(e, "ibias_true_err", "np.sqrt(ibias_err**2 + ibias_off_err**2)")
    if sc:
        a.check(r, "rp", "rsh/slope_sc - rsh")
        a.check(e, "rp_err", "np.sqrt((rsh/slope_sc**2)**2*var_slope_sc "
                "+ ((1/slope_sc - 1)*rsh_err)**2)", f)
        a.check(r, "ibias_off", "(int_n - int_sc)/(slope_sc - slope_n)")
        a.check(r, "ioff", "slope_n*(int_n - int_sc)/(slope_sc - slope_n) "
                "+ int_n")
        a.check(e, "ibias_off_err", "np.sqrt(var_int_n + var_int_sc + "
                "((int_n - int_sc)/(slope_sc - slope_n))**2*(var_slope_n "
                "+ var_slope_sc))/np.abs(slope_sc - slope_n)", f)
        a.check(e, "ioff_err", "np.sqrt("
                "(slope_sc/(slope_sc - slope_n))**2*var_int_n + "
                "(slope_n/(slope_sc - slope_n))**2*var_int_sc + "
                "(slope_sc*(int_n - int_sc)/(slope_sc - slope_n)**2)**2"
                "*var_slope_n + (slope_n*(int_n - int_sc)/"
                "(slope_sc - slope_n)**2)**2*var_slope_sc)", f)
    else:
        a.check(r, "rp", "rp_guess")
        a.check(e, "rp_err", "rp_err_guess")
        a.check(r, "ioff", "int_n")
        a.check(e, "ioff_err", "np.sqrt(var_int_n)", f)
        a.check(r, "ibias_off", "0*int_n")
        a.check(e, "ibias_off_err", "0*int_n")
        common(a, rp)
    filled(a)
    used(rep, a.S)


def gfun(rep, cov):
    S = Session()
    n = "estimate_g" + ("[cov]" if cov else "")
    w = "qetpy/utils/_utils.py in estimate_g"
    p0, tc, tb = S.sc("p0", W_, pos=True), S.sc("tc", K_, pos=True), S.sc(
        "tbath", K_, pos=True)
    pe = S.sc("p0_err", W_, pos=True)
    k = S.sc("n", pos=True)
    try:
        kw = dict(n=k)
        if cov:
            kw["cov"] = cv = S.arr("cov", None, (3, 3))
        else:
            kw["p0_err"] = pe
        r = S.call(S.get(UTL, "estimate_g"), p0, tc, tb, **kw)
    except Raised as x:
        rep.und("g", n, "raises: %s" % x)
        return
    env = dict(p0=p0, tc=tc, tb=tb, n=k)
    identity(rep, S, "g", n, r.items[0], formula(
        S, "n*p0*tc**(n - 1)/(tc**n - tb**n)", **env),
        "g must be n p0 tc^(n-1)/(tc^n - tb^n)", w)
    env["g"] = r.items[0]
    if cov:
        identity(rep, S, "g-error", n, r.items[1], formula(
            S, "d = tc**n - tb**n\nx = g/p0\ny = (n - 1)*g/tc "
            "- g*n*tc**(n - 1)/d\nz = n*g*tb**(n - 1)/d\n"
            "return np.sqrt(x*x*c[0, 0] + y*y*c[1, 1] + z*z*c[2, 2] "
            "+ x*y*(c[0, 1] + c[1, 0]) + x*z*(c[0, 2] + c[2, 0]) "
            "+ y*z*(c[1, 2] + c[2, 1]))", c=cv, **env),
            "g_err must be the first-order propagation of cov", w)
    else:
        identity(rep, S, "g-error", n, r.items[1], formula(
            S, "np.abs(pe*g/p0)", pe=pe, **env),
            "g_err must be |p0_err dg/dp0|", w)
    used(rep, S)


# the weighted straight line through the chosen points of one channel
LINE = """
X, Y, E = x[t, c][i], y[t, c][i], e[t, c][i]
w = 1/E**2
s = np.sum(w)
o, q = np.sum(w*X)/s, np.sum(w*Y)/s
d = np.sum(w*(X - o)**2)
m = np.sum(w*(X - o)*(Y - q))/d
b = q - m*o
vb, vm = 1/s + o**2/d, 1/d
"""
NRM, SCI = "np.array([0, 2, 3, 5])", "np.array([1, 4, 6])"
CH = ((0, 0), (0, 2), (1, 1))


def sweep(S, names):
    from . import terms as tm
    sh = tuple(tm.num(n) for n in (2, 3, 7))
    return {n: S.arr(n, d, sh, pos=n == "dites_err")
            for n, d in names.items()}


def lined(rep, S, A, rule, name, env, code, want, where):
    if A.get(name) is None:
        return
    for t, c in CH:
        k = "t, c = %d, %d\n" % (t, c)
        identity(rep, S, rule, "line %s [%d, %d]" % (name, t, c), formula(
            S, k + "return " + code, v=A[name]), formula(
                S, k + LINE + want if "return" in want else
                k + LINE + "return " + want, **env),
            "the line of least weighted squares through the chosen points",
            where, square=name.endswith("_err"))


def lines(rep, sc):
    S = Session()
    v = sweep(S, dict(dites=specs.A_, dites_err=specs.A_, ibias=specs.A_,
                      ibias_err=specs.A_))
    rsh, rse = S.sc("rsh", specs.OHM, pos=True), S.sc("rsh_err", specs.OHM)
    nrm, sci = formula(S, NRM), formula(S, SCI)
    kw = dict(scinds=sci) if sc else dict(
        rp_guess=S.sc("rp_guess", specs.OHM),
        rp_err_guess=S.sc("rp_err_guess", specs.OHM))
    try:
        o = S.call(S.get(specs.IBS, "IBIS"), v["dites"], v["dites_err"],
                   v["ibias"], v["ibias_err"], rsh, rse, nrm, fitsc=sc,
                   chan_names=S.lst([const(x) for x in "abc"]), **kw)
        S.meth(o, "analyze")
    except Raised as x:
        rep.und("ibis-line", "sc" if sc else "normal", "raises: %s" % x, IBF)
        return
    A = S.attrs(o)
    for tag, i in (("n", nrm), ("sc", sci)) if sc else (("n", nrm),):
        e = dict(x=v["ibias"], y=v["dites"], e=v["dites_err"], i=i, rsh=rsh,
                 rse=rse)

        def at(name, want):
            lined(rep, S, A, "ibis-line", name, e, "np.ravel(v[t, c])[0]",
                  want, IBF)
        at("slope_" + tag, "m")
        at("int_" + tag, "b")
        at("slope_%s_err" % tag, "np.sqrt(vm)")
        at("int_%s_err" % tag, "np.sqrt(vb)")
        if tag == "n":
            at("rfit", "rsh/m")
            at("rfit_err", "np.sqrt((rsh/m**2)**2*vm + (rse/m)**2)")
        else:
            at("rp", "rsh/m - rsh")
            at("rp_err", "np.sqrt((rsh/m**2)**2*vm + ((1/m - 1)*rse)**2)")
    used(rep, S)


LOADS = {"one": ((), "rl", "re"), "channels": ((3,), "rl[c]", "re[c]"),
         "temperatures": ((2, 3), "rl[t, c]", "re[t, c]")}


def ivlines(rep, load):
    S = Session()
    v = sweep(S, dict(dites=specs.A_, dites_err=specs.A_, vb=specs.V_,
                      vb_err=specs.V_))
    nrm = formula(S, NRM)
    w = "qetpy/core/_iv.py in IV.calc_iv"
    sh, rl, re = LOADS[load]
    sh = tuple(tm.num(n) for n in sh)
    r, q = (S.arr(n, specs.OHM, sh) if sh else S.sc(n, specs.OHM)
            for n in ("rload", "rload_err"))
    try:
        o = S.call(S.get(specs.IVM, "IV"), v["dites"], v["dites_err"],
                   v["vb"], v["vb_err"], r, q, S.lst(
                       [const(x) for x in "abc"]), normalinds=nrm)
        S.meth(o, "calc_iv")
    except Raised as x:
        rep.und("iv-line", "load of %s" % load, "raises: %s" % x, w)
        return
    A = S.attrs(o)
    e = dict(x=v["vb"], y=v["dites"], e=v["dites_err"], i=nrm, rl=r, re=q,
             f=v["vb_err"])
    n = "-".join(["iv", "line"] + [load] * (load != "one"))
    for k, want in (("ioff", "b"), ("ioff_err", "np.sqrt(vb)"),
                    ("rfit", "1/m"), ("rfit_err", "np.sqrt(vm)/m**2"),
                    ("rnorm", "1/m - " + rl),
                    ("rnorm_err", "np.sqrt(vm/m**4 + %s**2)" % re)):
        lined(rep, S, A, n, k, e, "np.ravel(v[t, c])[0]", want, w)
    cur = "u = y[t, c][4] - b\nV = x[t, c][4]\nR, Q = %s, %s\n" \
        "eu = e[t, c][4]**2 + vb\nev = f[t, c][4]**2\nreturn " % (rl, re)
    for k, want in (("ites", "u"), ("ites_err", "np.sqrt(eu)"),
                    ("r0", "V/u - R"), ("ptes", "u*V - u**2*R"),
                    ("r0_err", "np.sqrt(ev/u**2 + V**2*eu/u**4 + Q**2)"),
                    ("ptes_err", "np.sqrt((V - 2*u*R)**2*eu + u**2*ev + "
                     "u**4*Q**2)")):
        lined(rep, S, A, n, k, e, "v[t, c][4]", cur + want, w)
    used(rep, S)


def tasks(tier):
    out = [(lines, (sc,), "lines %s" % sc) for sc in (True, False)]
    out += [(offsets, (sc, nd), "offsets %s %d" % (sc, nd))
           for sc in (True, False) for nd in (3,)]
    for sc in (True, False):
        for nd in (3, 2, 1):
            for rp in (("scalar", "nch", "temps", "full")
                       if nd == 3 and not sc else ("scalar",)):
                out.append((fitted, (sc, nd, rp),
                            "fitted %s %d %s" % (sc, nd, rp)))
    return out + [(gfun, (c,), "g %s" % c) for c in (True, False)]
