"""Definitions of the trace utilities."""
from . import terms as tm
from . import arreval
from .values import *      # noqa
from .entry import Session, Raised
from .specs import *       # noqa
from .rules import used, formula, identity

F = "qetpy/utils/_utils.py in %s"


def L(S, e):
    """An integer value."""
    return AV(DLESS, e, E0, sh=())


def dom():
    arreval.DOMAIN.clear()
    arreval.DOMAIN.update({
        "k": lambda e, r: r.randint(-e.n - 2, e.n + 2),
        "off": lambda e, r: r.randint(-(e.n//2), e.n//2 - 1),
        "num": lambda e, r: r.uniform(-e.n - 2, e.n + 2),
        "ib": lambda e, r: r.randint(1, e.n),
        "ie": lambda e, r: r.randint(1, e.n - 1),
        "nb": lambda e, r: r.randint(1, e.n),
        "ncut": lambda e, r: r.randint(3, e.n),
        "tau_r": lambda e, r: r.uniform(0.3, 0.6),
        "tau_f": lambda e, r: r.uniform(0.9, 1.6),
        "rbias": lambda e, r: r.uniform(0.5, 1.5)})


def tr1(S):
    return S.arr("y", A_, (N(S),))


def tr2(S):
    return S.arr("y2", A_, (M(S), N(S)))


def tr3(S):
    return S.arr("y3", A_, (M(S), S.intsym("C"), N(S)))


def pos(S, name, d=DLESS):
    return S.sc(name, d, pos=True)


def times(S):
    return formula(S, "np.arange(n)/fs", n=L(S, N(S)), fs=pos(S, "fs", HZ))


OFFS = dict(ioffset=lambda S: S.sc("ioff", A_),
            qetbias=lambda S: S.sc("qb", A_),
            rload=lambda S: S.sc("rl", OHM), rsh=lambda S: S.sc("rs", OHM))
POW = ("i = {0} - ioffset\nreturn i*(qetbias*rsh) - rload*i**2")
EN = ("P = lambda c: (c - ioffset)*(qetbias*rsh) - rload*(c - ioffset)**2\n"
      "d = P(b) - P(trace)\n")

ALIGN = (
    "b, a = signal.butter(1, cut_off_freq/(fs/2))\n"
    "f = signal.filtfilt(b, a, traces[:, :n_cut], padtype='even')\n"
    "f = f - np.mean(f, axis=-1)[:, None]\n"
    "f = f/np.max(f, axis=-1)[:, None]\n"
    "s = np.zeros(len(traces))\n"
    "for j in range(len(traces)):\n"
    "  s[j] = np.argmax(signal.correlate(f[0], f[j], mode='full')) - "
    "np.argmax(signal.correlate(f[0], f[0], mode='full'))\n")

# name, label, arguments, reference texts (None: not compared)
DEFS = [
    ("shift", "whole bins", dict(arr=tr1, num=lambda S: i_(S, "k")),
     ["n = len(arr)\ni = np.arange(n) - num\n"
      "return np.where((i >= 0) & (i < n), arr[np.clip(i, 0, n - 1)], 0)"]),
    ("shift", "whole bins, filled", dict(
        arr=tr1, num=lambda S: i_(S, "k"),
        fill_value=lambda S: S.sc("fill", A_)),
     ["n = len(arr)\ni = np.arange(n) - num\nreturn np.where("
      "(i >= 0) & (i < n), arr[np.clip(i, 0, n - 1)], fill_value)"]),
    ("shift", "part of a bin", dict(
        arr=tr1, num=lambda S: S.sc("num", DLESS),
        fill_value=lambda S: S.sc("fill", A_)),
     ["j = np.arange(len(arr))\nreturn np.interp(j - num, j, arr, "
      "left=fill_value, right=fill_value)"]),
    ("make_template", "", dict(
        t=times, tau_r=lambda S: pos(S, "tau_r", S_),
        tau_f=lambda S: pos(S, "tau_f", S_),
        offset=lambda S: i_(S, "off")),
     ["n = len(t)\ni = np.arange(n) - n//2 - offset\n"
      "u = t[np.clip(i, 0, n - 1)]\n"
      "p = np.where((i >= 0) & (i < n), np.exp(-u/tau_f) - np.exp(-u/tau_r),"
      " 0)\nreturn p/np.max(p)"]),
    ("make_template", "centred", dict(
        t=times, tau_r=lambda S: pos(S, "tau_r", S_),
        tau_f=lambda S: pos(S, "tau_f", S_)),
     ["n = len(t)\ni = np.arange(n) - n//2\n"
      "u = t[np.clip(i, 0, n - 1)]\n"
      "p = np.where((i >= 0) & (i < n), np.exp(-u/tau_f) - np.exp(-u/tau_r),"
      " 0)\nreturn p/np.max(p)"]),
    ("slope", "means removed", dict(
        x=lambda S: S.arr("t", S_, (N(S),)), y=tr1),
     ["return (np.mean(x*y) - np.mean(x)*np.mean(y))/"
      "(np.mean(x**2) - np.mean(x)**2)"]),
    ("slope", "through the origin", dict(
        x=lambda S: S.arr("t", S_, (N(S),)), y=tr1,
        removemeans=lambda S: const(False)),
     ["return np.sum(x*y)/np.sum(x**2)"]),
    ("calc_offset", "", dict(x=tr2),
     ["return np.mean(x)",
      "m = np.mean(x, axis=1)\nreturn np.sqrt((np.mean(m**2) - "
      "np.mean(m)**2)/len(x))"]),
    ("calc_offset", "channels", dict(x=tr3),
     ["return np.mean(np.mean(x, axis=0), axis=-1)",
      "m = np.mean(x, axis=-1)\nreturn np.sqrt((np.mean(m**2, axis=0) - "
      "np.mean(m, axis=0)**2)/len(x))"]),
    ("calc_offset", "whole periods", dict(
        x=tr2, fs=lambda S: pos(S, "fs", HZ), sgfreq=lambda S: pos(
            S, "sgfreq", HZ), is_didv=lambda S: const(True)),
     ["k = int(x.shape[1]*sgfreq/fs)\n"
      "return np.mean(x[:, :int(k*fs/sgfreq)])", None]),
    ("lowpassfilter", "", dict(
        traces=tr2, cut_off_freq=lambda S: pos(S, "fc", HZ),
        fs=lambda S: pos(S, "fs", HZ), order=lambda S: i_(S, "order", True)),
     ["b, a = signal.butter(order, cut_off_freq/(fs/2))\n"
      "return signal.filtfilt(b, a, traces, padtype='even')"]),
    ("fill_negatives", "", dict(arr=tr1),
     ["k = np.arange(len(arr))\ng = arr > 0\nany = np.sum(g) > 0\n"
      "f = np.interp(k, k[g], arr[g])\n"
      "return np.where(g, arr, np.where(any, f, arr))"]),
    ("powertrace_simple", "", dict(trace=tr1, **OFFS),
     [POW.format("trace")]),
    ("powertrace_simple", "many", dict(trace=tr2, **OFFS),
     [POW.format("trace")]),
    ("energy_absorbed", "baseline given", dict(
        trace=tr1, baseline=lambda S: S.sc("base", A_),
        fs=lambda S: pos(S, "fs", HZ), **OFFS),
     ["b = baseline\n" + EN + "return (np.sum(d) - d[0]/2 - d[-1]/2)/fs/"
      "constants.e"]),
    ("energy_absorbed", "times given", dict(
        trace=tr1, baseline=lambda S: S.sc("base", A_),
        time=lambda S: S.arr("t", S_, (N(S),)), **OFFS),
     ["b = baseline\n" + EN + "return np.sum((d[1:] + d[:-1])/2*"
      "(time[1:] - time[:-1]))/constants.e"]),
    ("energy_absorbed", "baseline before", dict(
        trace=tr2, indbasepre=lambda S: i_(S, "ib"),
        fs=lambda S: pos(S, "fs", HZ), **OFFS),
     ["b = np.mean(trace[:, :indbasepre], axis=1)[:, None]\n" + EN +
      "return (np.sum(d, axis=1) - d[:, 0]/2 - d[:, -1]/2)/fs/constants.e"]),
    ("energy_absorbed", "baseline before and after", dict(
        trace=tr2, indbasepre=lambda S: i_(S, "ib"),
        indbasepost=lambda S: i_(S, "ie"),
        fs=lambda S: pos(S, "fs", HZ), **OFFS),
     ["n = trace.shape[1]\nb = (np.sum(trace[:, :indbasepre], axis=1) + "
      "np.sum(trace[:, indbasepost:], axis=1))/(indbasepre + n - indbasepost)"
      "\nb = b[:, None]\n" + EN +
      "return (np.sum(d, axis=1) - d[:, 0]/2 - d[:, -1]/2)/fs/constants.e"]),
    ("get_offset_from_muon", "", dict(
        avemuon=tr1, qetbias=lambda S: S.sc("qb", A_),
        rn=lambda S: pos(S, "rn", OHM), rload=lambda S: pos(S, "rl", OHM),
        rsh=lambda S: pos(S, "rs", OHM), nbaseline=lambda S: i_(S, "nb")),
     ["k = np.argmax(avemuon)\nb = np.mean(avemuon[:nbaseline])\n"
      "i0 = qetbias*rsh/(rload + rn) - (np.mean(avemuon[k:k + 200]) - b)\n"
      "return " + x for x in ("b - i0", "qetbias*rsh/i0 - rload", "i0",
                              "i0*(qetbias*rsh - rload*i0)")]),
    ("get_offset_from_muon", "offset only", dict(
        avemuon=tr1, qetbias=lambda S: S.sc("qb", A_),
        rn=lambda S: pos(S, "rn", OHM), rload=lambda S: pos(S, "rl", OHM),
        rsh=lambda S: pos(S, "rs", OHM), nbaseline=lambda S: i_(S, "nb"),
        lgcfullrtn=lambda S: const(False)),
     ["k = np.argmax(avemuon)\nb = np.mean(avemuon[:nbaseline])\n"
      "i0 = qetbias*rsh/(rload + rn) - (np.mean(avemuon[k:k + 200]) - b)\n"
      "return b - i0"]),
    ("align_traces", "", dict(
        traces=tr2, n_cut=lambda S: i_(S, "ncut", True),
        cut_off_freq=lambda S: pos(S, "fc", HZ),
        fs=lambda S: pos(S, "fs", HZ), lgcjustshifts=lambda S: const(True)),
     [ALIGN + "return s"]),
    ("align_traces", "traces", dict(
        traces=tr2, n_cut=lambda S: i_(S, "ncut", True),
        cut_off_freq=lambda S: pos(S, "fc", HZ),
        fs=lambda S: pos(S, "fs", HZ)),
     [ALIGN + "return s", ALIGN +
      "r = np.zeros(traces.shape)\n"
      "for j in range(len(traces)):\n"
      "  r[j] = ndimage.shift(traces[j], s[j], cval=np.nan)\n"
      "r = r.flatten()\n"
      "return np.ma.array(r, mask=np.isnan(r)).reshape(traces.shape)"]),
    ("estimate_g", "", dict(
        p0=lambda S: pos(S, "p0", W_), tc=lambda S: pos(S, "tc", K_),
        tbath=lambda S: pos(S, "tb", K_), p0_err=lambda S: pos(
            S, "p0e", W_), n=lambda S: const(5)),
     ["return 5*p0*tc**4/(tc**5 - tbath**5)",
      "return p0_err*np.abs(5*tc**4/(tc**5 - tbath**5))"]),
]


def define(rep, name, lab, args, texts):
    S = Session()
    dom()
    w = F % name
    nm = "%s[%s]" % (name, lab) if lab else name
    try:
        kw = {k: f(S) for k, f in args.items()}
        out = S.call(S.get(UTL, name), **kw)
        outs = out.items if isinstance(out, TupV) and len(texts) > 1 else [out]
        if len(outs) != len(texts):
            rep.bad("utility-definition", nm, "%d values are returned where "
                    "%d are documented" % (len(outs), len(texts)), w)
            return
        for i, (o, t) in enumerate(zip(outs, texts)):
            if t is None:
                continue
            env = {k: v for k, v in kw.items()}
            identity(rep, S, "utility-definition", nm + (
                " value %d" % i if len(texts) > 1 else ""), o,
                formula(S, t, **env), "the documented quantity, " +
                t.strip().split("\n")[-1], w)
    except Raised as x:
        rep.und("utility-definition", nm, "raises: %s" % x, w)
    finally:
        arreval.DOMAIN.clear()
    used(rep, S)


def tasks(tier):
    return [(define, d, "util %s %s" % (d[0], d[1])) for d in DEFS]
