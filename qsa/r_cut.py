"""Event selection: what the masks of the cuts select."""
from . import terms as tm
from . import arreval
from .values import *      # noqa
from .entry import Session, Raised
from .specs import *       # noqa
from .compare import eq_terms
from .rules import used, formula, identity
from .unroll import unroll, loops, inside, heads, leaving

CUT = "qetpy.cut._cut"
F = "qetpy/cut/_cut.py in %s"
DEPTH = 3
DEBUG = 0


def dom():
    arreval.DOMAIN.clear()
    arreval.DOMAIN.update({
        "M": lambda e, r: r.randint(5, 9),
        "nsig": lambda e, r: r.uniform(-0.8, 0.4),
        "frac": lambda e, r: r.uniform(0.05, 0.9),
        "thr": lambda e, r: r.uniform(0.9, 2.2),
        "cut": lambda e, r: r.uniform(0.7, 1.6),
        "prec": lambda e, r: r.uniform(1, 30),
        "skt": lambda e, r: r.uniform(-0.2, 0.2)})


def terms_of(S, v):
    return [S.I.gv_of(x) if isinstance(x, AV) else None for x in (
        v.items if isinstance(v, TupV) else [v])]


def tri(ts):
    return False if False in ts else None if None in ts else True


STAT = {
    "iterstat": ("np.mean(data[mask])", "np.std(data[mask])",
                 "np.abs(data - np.mean(data[mask])) < "
                 "cut*np.std(data[mask])"),
    "removeoutliers": (
        "mask & (np.abs(data - np.median(data[mask])) < np.minimum("
        "np.abs(np.min(data - np.median(data[mask]))), "
        "np.abs(np.max(data - np.median(data[mask])))))",),
    "itercov": ("np.mean(data[:, mask], axis=1)", "np.cov(data[:, mask])",
                "(np.sum((data - np.mean(data[:, mask], axis=1)[:, None])*"
                "np.dot(np.linalg.inv(np.cov(data[:, mask])), data - np.mean("
                "data[:, mask], axis=1)[:, None]), axis=0) < limit) & np.all("
                "np.abs(data - np.mean(data[:, mask], axis=1)[:, None]) < "
                "np.sqrt(np.diag(np.cov(data[:, mask])))[:, None]*thr, "
                "axis=0)"),
}


def chain(S, step, data, n, env):
    """Masks after 0, 1, .. n rounds of the documented selection."""
    m = formula(S, "np.ones(n, dtype=bool)", n=AV(DLESS, data.sh[-1], E0,
                                                 sh=()))
    r = [m]
    for _ in range(n):
        m = formula(S, step, data=data, mask=m, **env)
        r.append(m)
    return r


def iterate(rep, fname, lab, args, env, data_of):
    """At every return the statistics are those of the selected data and the
    selection follows from the statistics of the previous one."""
    S = Session()
    dom()
    w = F % fname
    texts = STAT[fname]
    f = S.get(CUT, fname)
    q = fname
    try:
        pos, kw = args(S)
        S.I.watch[q] = []
        out = S.call(f, *pos, **kw)
        e = env(S, kw)
        data = data_of(S, pos)
    except Raised as x:
        rep.und("selection", lab, "raises: %s" % x, w)
        return
    sites = S.I.watch[q]
    mus = {}
    for g in [x for s in sites for x in s[2]] + terms_of(S, out):
        if g is not None:
            heads(g, mus)
    # the joined value is analysed when the sites are not separable
    for pc, v, gs in sites:
        nm = "%s return" % lab
        if any(g is None for g in gs) or len(gs) != len(texts):
            rep.und("selection", nm, "the returned value is not known", w)
            continue
        verdict(rep, S, fname, nm, v, pc, gs, texts, data, e, mus, w)
    used(rep, S)
    arreval.DOMAIN.clear()


def verdict(rep, S, fname, nm, out, pc, gs, texts, data, env, mus, w):
    ref = chain(S, texts[-1], data, DEPTH + 2, {
        a: b for a, b in env.items() if a in texts[-1]})
    ref = [S.I.gv_of(m) for m in ref]
    shift = {s: [] for s in (-1, 0, 1)}
    stats = {i: [] for i in range(len(texts) - 1)}
    det = {}
    if None in ref:
        rep.und("selection", nm, "the documented selection is not known", w)
        return
    once = not any(loops(g) for g in gs) and not any(
        n.startswith("h:") for g in gs for n in tm.symbols(g))
    for k in range(1, DEPTH + 1):
        vs = []
        for g in gs:
            v = unroll(g, k)
            vs.append(inside(v, mus, k - 1) if v is not None else None)
        mask = vs[-1]
        if any(v is None for v in vs):
            rep.und("selection", nm, "the loop is not understood", w)
            return
        if once:
            t, d = eq_terms(mask, ref[0])
            shift[0].append(t)
            det[0] = d
        else:
            for s in shift:
                if 0 <= k + s < len(ref):
                    t, d = eq_terms(mask, ref[k + s])
                    shift[s].append(t)
                    if t is False:
                        det[s] = d
        mav = AV(DLESS, mask, E0, sh=data.sh[-1:], isbool=True)
        for i in stats:
            if DEBUG:
                print(nm, mav.isbool, tm.fmt(mask, 6)[:200])
            r = formula(S, texts[i], data=data, mask=mav, **{
                a: b for a, b in env.items() if a in texts[i]})
            t, d = eq_terms(vs[i], S.I.gv_of(r))
            stats[i].append(t)
            if t is False:
                det["s%d" % i] = "after %d rounds, %s" % (k, d)
        if once:
            fallback(rep, S, nm, pc, ref, mus, w)
            break
        if fname in STEADY and k == 1:
            steady(rep, S, nm, fname, gs[-1], mus, ref, data, env, w)
        if fname in STOP:
            stop(rep, S, nm, fname, gs[-1], mus, k, data, mav, env, w)
    ts = {s: tri(v) for s, v in shift.items() if v}
    t = True if True in ts.values() else None if None in ts.values() \
        else False
    rep.put(t, "selection-rule", nm, "the mask must keep exactly the points "
            "allowed by the statistics of the previous selection; %s" %
            det.get(0, ""), w)
    for i, v in stats.items():
        rep.put(tri(v), "statistics-of-selection", "%s value %d" % (nm, i),
                "must equal %s for the returned mask; %s" % (
                    texts[i], det.get("s%d" % i, "")), w)


STOP = {"removeoutliers": "skewtarget < stats.skew(data[mask])"}
# the rounds whose statistics must all be steady before the iteration ends
STEADY = {
    "iterstat": (3, "np.abs(np.mean(data[m]) - np.mean(data[l])) <= "
                 "np.std(data)/precision and np.abs(np.std(data[m]) - "
                 "np.std(data[l])) <= np.std(data)/precision"),
    "itercov": (2, "np.all(np.abs(np.mean(data[:, m], axis=1) - np.mean("
                "data[:, l], axis=1)) <= frac*np.sqrt(np.diag(np.cov(data)))"
                ") and np.all(np.abs(np.cov(data[:, m]) - np.cov("
                "data[:, l])) <= frac*np.sum(np.diag(np.cov(data))))"),
}


def steady(rep, S, nm, fname, g, mus, ref, data, env, w):
    at = g.single_atom()
    if at is None or at.name != "mu" or not isinstance(at.args[3], tm.Expr):
        return
    n, text = STEADY[fname]
    way, c = (), at.args[3]
    if leaving(at) is not None:
        way, c = leaving(at)
        way = [inside(unroll(x, n), mus, n - 1) for x in way]
        c = inside(unroll(S.I.lib.not_gv(c), n), mus, n - 1)
    else:
        c = inside(unroll(c, n), mus, n)
    if c is None or None in way or fname == "iterstat" and "precision" not in env or \
            fname == "itercov" and "frac" not in env:
        return
    ms = [AV(DLESS, m, E0, sh=data.sh[-1:], isbool=True) for m in ref]
    ts = [S.I.gv_of(formula(S, text, data=data, m=ms[k], l=ms[k - 1], **{
        a: b for a, b in env.items() if a in text})) for k in range(1, n + 1)]
    if None in ts:
        return
    r = S.I.lib.not_gv(tm.fn("and", *ts))
    for x in way:
        c, r = tm.fn("and", x, c), tm.fn("and", x, r)
    t, d = eq_terms(c, r)
    for lo, hi, f in ((-2, -1, 0.5), (1, 2, 0.5), (-2, 2, 0.01)):
        # data in other units
        if t is True:
            was = dict(arreval.DOMAIN)
            arreval.DOMAIN["*"] = lambda e, r: 10**r.uniform(lo, hi)
            arreval.DOMAIN["frac"] = lambda e, r: f*10**r.uniform(-0.3, 1)
            tm.T.evs.clear()
            t, d = eq_terms(c, r)
            arreval.DOMAIN.clear()
            arreval.DOMAIN.update(was)
            tm.T.evs.clear()
    rep.put(t, "stopping-condition", nm, "the iteration goes on until %d "
            "rounds in a row are steady: %s; %s" % (n, text, d), w)



def fallback(rep, S, nm, pc, ref, mus, w):
    """All of the data is returned exactly when at most one point passes."""
    gates = [(g, p) for g, p, _ in pc if g is not None]
    if not gates:
        return
    for k in (1, 2, 3):
        ts = []
        for g, p in gates:
            v = inside(unroll(g, k), mus, k - 1)
            if v is None:
                rep.und("fallback-condition", nm, "not understood", w)
                return
            ts.append(v if p else S.I.lib.not_gv(v))
        c = ts[0]
        for t in ts[1:]:
            c = tm.fn("and", c, t)
        m = AV(DLESS, ref[k], E0, sh=(M(S),), isbool=True)
        r = S.I.gv_of(formula(S, "np.sum(m) <= 1", m=m))
        t, d = eq_terms(c, r)
        rep.put(t, "fallback-condition", "%s round %d" % (nm, k),
                "everything is kept when, and only when, at most one point "
                "passes; %s" % d, w)


def stop(rep, S, nm, fname, g, mus, k, data, mask, env, w):
    at = g.single_atom()
    if at is None or at.name != "mu" or not isinstance(at.args[3], tm.Expr):
        return
    # the test after k rounds
    c = at.args[3]
    if leaving(at) is not None:
        way, c = leaving(at)
        c = inside(unroll(S.I.lib.not_gv(c), k), mus, k - 1) \
            if not way else None
    else:
        c = inside(unroll(c, k), mus, k)
    if c is None:
        return
    r = formula(S, STOP[fname], data=data, mask=mask, **env)
    t, d = eq_terms(c, S.I.gv_of(r))
    rep.put(t, "stopping-condition", "%s round %d" % (nm, k),
            "another round is needed when " + STOP[fname] + "; " + d, w)


def a1(S):
    return S.arr("data", A_, (M(S),))


def icov(S):
    return dict(frac_err=S.sc("frac", pos=True), nsigma=S.sc("nsig"), threshold=S.sc("thr", pos=True))


def cov_env(S, kw):
    return dict(limit=formula(S, "2 + 2*s", s=kw["nsigma"]),
                thr=kw["threshold"], frac=kw["frac_err"])


CASES = [
    ("iterstat", "iterstat", lambda S: ([a1(S)], dict(
        cut=S.sc("cut", pos=True), precision=S.sc("prec", pos=True))),
     lambda S, kw: dict(kw), lambda S, p: p[0]),
    ("iterstat", "iterstat[default]", lambda S: ([a1(S)], {}),
     lambda S, kw: dict(cut=const(3)), lambda S, p: p[0]),
    ("removeoutliers", "removeoutliers", lambda S: ([a1(S)], dict(
        skewtarget=S.sc("skt"))),
     lambda S, kw: dict(kw), lambda S, p: p[0]),
    ("itercov", "itercov[columns]", lambda S: (
        [a1(S), S.arr("data1", A_, (M(S),))], icov(S)), cov_env,
     lambda S, p: formula(S, "np.stack((a, b))", a=p[0], b=p[1])),
    ("itercov", "itercov[default]", lambda S: (
        [a1(S), S.arr("data1", A_, (M(S),))], {}),
     lambda S, kw: dict(
         limit=formula(S, "2 + 2.75*np.sqrt(2*2)"),
         thr=formula(S, "max(3, stats.chi2.ppf(0.95**(1/2), 1)**0.5)")),
     lambda S, p: formula(S, "np.stack((a, b))", a=p[0], b=p[1])),
    ("itercov", "itercov[three columns]", lambda S: (
        [a1(S), S.arr("data1", A_, (M(S),)), S.arr("data3", A_, (M(S),))],
        icov(S)),
     lambda S, kw: dict(cov_env(S, kw), limit=formula(
         S, "3 + s*np.sqrt(6)", s=kw["nsigma"])),
     lambda S, p: formula(S, "np.stack((a, b, c))", a=p[0], b=p[1], c=p[2])),
    ("itercov", "itercov[matrix]", lambda S: (
        [S.arr("data2", A_, (M(S), tm.num(2)))], icov(S)), cov_env,
     lambda S, p: formula(S, "a.T", a=p[0])),
]



# -------------------------------------------- truncated normal distribution
LIK = ("s = x[(x >= a) & (x <= b)]\nn = len(s)\n"
       "p = stats.norm.pdf(a, loc=m, scale=d)\n"
       "q = stats.norm.pdf(b, loc=m, scale=d)\n"
       "z = stats.norm.cdf(b, loc=m, scale=d) - "
       "stats.norm.cdf(a, loc=m, scale=d)\n")
EQN = {
    "mean": "np.sum(s) - n*m + n*d**2*(q - p)/z",
    "standard deviation": "np.sum((s - m)**2) - n*d**2 + "
    "n*d**2*((b - m)*q - (a - m)*p)/z"}


def truncated(rep):
    S = Session()
    dom()
    arreval.DOMAIN.update({
        "a": lambda e, r: r.uniform(-1.2, -0.5),
        "b": lambda e, r: r.uniform(0.5, 1.2)})
    w = F % "_UnbiasedEstimators"
    try:
        c = S.get(CUT, "_UnbiasedEstimators")
        x, a, b = a1(S), S.sc("a", A_), S.sc("b", A_)
        mk = S.I.mark()
        S.call(c, x, a, b)
        evs = [e for e in S.I.events[mk:] if e.kind == "fsolve"]
    except Exception as q:
        rep.und("likelihood-equation", "truncated normal", "%s" % q, w)
        return
    if len(evs) != 1:
        return
    d = evs[0].data
    r, p = d["res"], d["x"]
    if not isinstance(r, TupV) or len(r.items) != 2:
        rep.und("likelihood-equation", "truncated normal", "not known", w)
        return
    m, s = [S.I.index(p, [const(k)]) if hasattr(S.I, "index") else formula(
        S, "p[%d]" % k, p=p) for k in (0, 1)]
    for (nm, t), got in zip(EQN.items(), r.items):
        ts = []
        for sc in ("1", "n", "d", "d**2", "n*d**2", "z", "n*d", "n/z"):
            ref = formula(S, LIK + "return (%s)/(%s)" % (t, sc), x=x, a=a,
                          b=b, m=m, d=s)
            ts.append(eq_terms(S.I.gv_of(got), S.I.gv_of(ref)))
            if ts[-1][0]:
                break
        v = [q[0] for q in ts]
        rep.put(True if True in v else None if None in v else False,
                "likelihood-equation", "truncated normal " + nm,
                "the residual must be the derivative of the likelihood, %s; "
                "%s" % (t, ts[0][1]), w)
    used(rep, S)


def tasks(tier):
    r = [(iterate, (f, l, a, e, d), "cut %s" % l)
         for f, l, a, e, d in CASES]
    return r


# ------------------------------------------- the cuts as functions of others
def freecut(name, shape, n=1, bool_=True):
    """The cut as an unknown function of all of its arguments."""
    def model(I, vals):
        gs = []
        for p in sorted(vals):
            v = vals[p]
            if isinstance(v, AV) and isinstance(v.cst, str):
                gs.append(("s", v.cst))
            elif isinstance(v, AV) and v.cst is None:
                gs.append(("s", "None"))
            else:
                gs.append(I.gv_of(v))
        deps = frozenset().union(*[I.deps_of(v) for v in vals.values()])
        sh = shape(vals)
        out = []
        for k in range(n):
            mask = bool_ and k == n - 1
            gv = None
            if None not in gs:
                gv = I.safe(tm.fn, "F:%s%s%d" % (
                    "c" if mask else "v", name, k), *gs,
                    scalar=not mask, real=True)
                at = gv.single_atom() if gv is not None else None
                if at is not None and mask and at.shp is None:
                    at.shp = sh
            out.append(AV(DLESS, gv, deps, sh=sh if mask else (),
                          isbool=mask))
        return out[0] if n == 1 else TupV(out)
    return model


def ax0(p):
    def f(vals):
        v = vals.get(p)
        sh = v.sh if isinstance(v, AV) else None
        return sh[:1] if sh else None
    return f


STUBS = {
    "removeoutliers": freecut("removeoutliers", ax0("x")),
    "iterstat": freecut("iterstat", ax0("data"), 3),
    "symmetrizedist": freecut("symmetrizedist", ax0("vals")),
    "ofamp": freecut("ofamp", lambda v: (), 3, False),
    "pileupcut": freecut("pileupcut", ax0("traces")),
    "slopecut": freecut("slopecut", ax0("traces")),
    "baselinecut": freecut("baselinecut", ax0("traces")),
    "chi2cut": freecut("chi2cut", ax0("traces")),
}


def tr(S):
    return S.arr("traces", A_, (M(S), N(S)))


def T(v):
    return lambda S: const(v)


def P(nm, d=DLESS):
    return lambda S: S.sc(nm, d, pos=True)


FS = dict(fs=P("fs", HZ))
ITER = dict(outlieralgo=T("iterstat"), nsig=P("nsg"))
OUT = {True: "iterstat({0}, cut=nsig, precision=10000.0)[2]",
       False: "removeoutliers({0})"}
BEGIN = "0, int(n/10)"
END = "int(9*n/10), n"
DBEG = ("int(b/4), int(3*b/8)", "int(b/4), int(5*b/16)")
DEND = ("int((k - 1)*b + b/4), int((k - 1)*b + 3*b/8)",
        "int(5*b/16), int(3*b/8)")
PRE = "n = traces.shape[1]\n"
DID = ("b = fs/sgfreq\nk = np.floor(n/fs*sgfreq)\n")
PULSE = ("t = (np.arange(n) + 1 - round(n/2))/fs\n"
         "u = np.where(t < 0, 0, (1 - np.exp(-t/10e-6))*np.exp(-t/100e-6))\n"
         "u = u/np.max(u)\n")
LOOP = ("v = np.zeros(len(traces))\nfor j in range(len(traces)):\n"
        "    v[j] = ofamp({0}, u, np.ones(n), fs)[{1}]\n")


def muon(pct, nb):
    return ("c = np.zeros(len(traces), dtype=bool)\n"
            "for j in range(len(traces)):\n"
            "    k = np.argmax(traces[j]) + int(%s)\n"
            "    if k < traces.shape[1]:\n"
            "        if traces[j][k] >= %s*np.max(traces[j]):\n"
            "            c[j] = True\nreturn c" % (nb, pct))


def defs():
    r = []
    for it in (False, True):
        o = OUT[it]
        kw = dict(FS, **(ITER if it else {}))
        lab = "iterstat" if it else "removeoutliers"
        r.append(("pileupcut", lab, kw, PRE + PULSE + LOOP.format(
            "traces[j]", 0) + "return " + o.format("abs(v)")))
        r.append(("pileupcut", lab + ", means removed",
                  dict(kw, removemeans=T(True)),
                  PRE + PULSE + "w = traces - np.mean(traces, axis=1)"
                  "[:, None]\n" + LOOP.format("w[j]", 0) + "return " +
                  o.format("abs(v)")))
        r.append(("chi2cut", lab, dict(kw, **({} if it else dict(
            outlieralgo=T("removeoutliers")))), PRE + PULSE + LOOP.format(
                "traces[j]", 2) + "return " + o.format("v")))
        for d in ("", "dIdV"):
            kd = dict(kw)
            pre = PRE + "x, y = %s\np, q = %s\n" % (BEGIN, END)
            if d:
                kd.update(is_didv=T(True), sgfreq=P("sgfreq", HZ))
                pre = PRE + DID + (
                    "if k > 1:\n    x, y = %s\n    p, q = %s\n"
                    "else:\n    x, y = %s\n    p, q = %s\n" % (
                        DBEG[0], DEND[0], DBEG[1], DEND[1]))
            r.append(("baselinecut", "%s %s" % (lab, d), kd, pre + "return " +
                      o.format("np.mean(traces[:, x:y], axis=1)")))
            s = ("s = np.mean(traces[:, p:q], axis=1) - "
                 "np.mean(traces[:, x:y], axis=1)\n")
            r.append(("slopecut", "%s %s" % (lab, d), kd, pre + s +
                      "return " + o.format("s")))
            r.append(("slopecut", "%s %s, symmetrised" % (lab, d),
                      dict(kd, symmetrizeflag=T(True)), pre + s +
                      "q = np.where(symmetrizedist(s))[0]\n"
                      "c = np.zeros(len(traces), dtype=bool)\n"
                      "c[q[" + o.format("s[q]") + "]] = True\nreturn c"))
    r.append(("get_muon_cut", "", {}, muon("0.95", "600")))
    r.append(("get_muon_cut", "parameters", dict(
        thresh_pct=P("pct"), nsatbins=lambda S: i_(S, "nsat")),
        muon("thresh_pct", "nsatbins")))
    # the total cut
    flags = ["lgcpileup1", "lgcslope", "lgcbaseline", "lgcpileup2", "lgcchi2"]
    sets = [()] + [(f,) for f in flags] + [tuple(flags)]
    for did in (False, True):
        for off in sets:
            kw = dict(FS, sgfreq=P("sgfreq", HZ), is_didv=T(did),
                      outlieralgo=T("iterstat"),
                      **{f: T(False) for f in off})
            for f in ("pileup1", "slope", "baseline", "pileup2", "chi2"):
                kw["nsig" + f] = P("ns_" + f)
            t = "k = np.arange(len(traces))\n"
            if "lgcpileup1" not in off:
                t += ("k = k[pileupcut(traces[k], fs=fs, outlieralgo="
                      "'iterstat', nsig=nsigpileup1)]\n")
            if "lgcslope" not in off:
                t += ("k = k[slopecut(traces[k], fs=fs, outlieralgo="
                      "'iterstat', nsig=nsigslope, is_didv=%s, "
                      "symmetrizeflag=False, sgfreq=sgfreq)]\n" % did)
            if "lgcbaseline" not in off:
                t += ("k = k[baselinecut(traces[k], fs=fs, outlieralgo="
                      "'iterstat', nsig=nsigbaseline, is_didv=%s, "
                      "sgfreq=sgfreq)]\n" % did)
            if "lgcpileup2" not in off and did:
                t += ("k = k[pileupcut(traces[k], fs=fs, outlieralgo="
                      "'iterstat', nsig=nsigpileup2, removemeans=True)]\n")
            if "lgcchi2" not in off:
                t += ("k = k[chi2cut(traces[k], fs=fs, outlieralgo="
                      "'iterstat', nsig=nsigchi2)]\n")
            t += ("c = np.zeros(len(traces), dtype=bool)\nc[k] = True\n"
                  "return c")
            r.append(("autocuts", "%s without %s" % (
                "dIdV" if did else "noise", ", ".join(off) or "none"),
                kw, t))
    return r


def define(rep, name, lab, args, text):
    S = Session()
    dom()
    arreval.DOMAIN.update({
        "N": lambda e, r: 4*e.n + 5, "fs": lambda e, r: 1e5,
        "sgfreq": lambda e, r: 1e5*r.uniform(0.6, 3.9)/(4*e.n + 5), "nsat": lambda e, r: r.randint(0, 9),
        "pct": lambda e, r: r.uniform(-1, 1)})
    w = F % name
    nm = "%s[%s]" % (name, lab) if lab else name
    fns = {}
    try:
        for f, m in STUBS.items():
            if f != name:
                S.I.stubs[f] = m
            if f + "(" in text and f != name:
                fns[f] = S.get(FIT if f == "ofamp" else CUT, f)
        kw = {k: f(S) for k, f in args.items()}
        x = tr(S)
        out = S.call(S.get(CUT, name), x, **kw)
        env = {k: v for k, v in kw.items() if k in text}
        ref = formula(S, text, traces=x, **env, **fns)
        identity(rep, S, "cut-definition", nm, out, ref,
                 "the documented selection, " + text.strip().split("\n")[-1],
                 w)
    except Raised as q:
        rep.und("cut-definition", nm, "raises: %s" % q, w)
    finally:
        arreval.DOMAIN.clear()
    used(rep, S)


def tasks(tier):
    return [(iterate, (f, l, a, e, d), "cut %s" % l)
            for f, l, a, e, d in CASES] + [
        (define, d, "cut %s %s" % (d[0], d[1])) for d in defs()] + [
            (truncated, (), "truncated normal")]
