"""Library call models (second half of the numpy/scipy/builtins model)."""
import ast
from fractions import Fraction
from . import terms as tm
from .values import *      # noqa
from .npmodel import Lib as Base, ALIAS, EXCS, FFTMODS, isnum, E

# units a fit parameter that starts at a plain number may have
FITDIMS = (DLESS, D(s=1), D(s=-1), D(V=1, A=-1), D(A=1, V=-1), D(A=1),
           D(V=1, s=1, A=-1))

IO_FUNCS = {"builtins.open", "pickle.dump", "json.dump", "numpy.save",
            "numpy.savez", "numpy.savetxt", "numpy.savez_compressed",
            "os.makedirs", "os.mkdir", "os.remove", "shutil.rmtree",
            "os.rename", "os.unlink", "os.system", "subprocess.run",
            "matplotlib.pyplot.savefig", "h5py.File", "os.rmdir",
            "shutil.copy", "shutil.move", "pickle.dumps_to", "joblib.dump"}
GLOBALCFG = {"numpy.seterr", "numpy.random.seed", "random.seed",
             "warnings.simplefilter", "warnings.filterwarnings",
             "matplotlib.use", "matplotlib.rc", "matplotlib.pyplot.rc",
             "matplotlib.pyplot.switch_backend", "os.chdir", "os.putenv",
             "numpy.set_printoptions", "matplotlib.pyplot.style.use",
             "numpy.random.set_state", "matplotlib.rcParams.update",
             "matplotlib.pyplot.rcParams.update", "numpy.seterrcall",
             "sys.setrecursionlimit", "locale.setlocale",
             "warnings.resetwarnings", "matplotlib.rcdefaults"}
TIMEFUNCS = ("time.", "datetime.", "os.getpid", "uuid.", "os.environ",
             "os.urandom", "secrets.")

# elementwise, unit preserving / unit less helpers
DIMKEEP1 = {"median", "min", "max", "std", "nanstd", "nanmedian", "nanmin",
            "nanmax", "percentile", "quantile", "ptp", "nanmean"}


class Lib(Base):
    # --------------------------------------------------------------- helpers
    def A(self, I, v):
        return self.lower(I, v)

    def un(self, I, v, dim, f, **kw):
        """Elementwise unary function."""
        v = self.lower(I, v)
        if v.elems is not None:
            el = {k: self.un(I, x, x.dim if dim is v.dim else dim, f, **kw)
                  for k, x in v.elems.items()}
            r = AV(dim, None, v.deps, sh=v.sh, elems=el)
            r.dim = self.joindims(I, list(el.values()))
            r.gv = I.gv_of(r)
            return r
        gv = I.safe(f, v.gv) if v.gv is not None else None
        return self.setnd(AV(dim, gv, v.deps, sh=v.sh, **kw))

    def axis_of(self, I, args, kw, pos=1):
        ax = kw.get("axis", args[pos] if len(args) > pos else None)
        if ax is None or (isinstance(ax, AV) and ax.cst is None):
            return None, True
        if isinstance(ax, AV) and isinstance(ax.cst, int):
            return ax.cst, True
        if isinstance(ax, TupV):
            c = [x.cst if isinstance(x, AV) else NOC for x in ax.items]
            if all(isinstance(x, int) for x in c):
                return tuple(c), True
        return "?", False

    def redshape(self, v, ax, keep=False):
        if ax is None:
            return ()
        if v.sh is None or ax == "?":
            return None
        n = len(v.sh)
        axs = ax if isinstance(ax, tuple) else (ax,)
        axs = [a if a >= 0 else n + a for a in axs]
        if keep:
            return tuple(tm.ONE if i in axs else s
                         for i, s in enumerate(v.sh))
        return tuple(s for i, s in enumerate(v.sh) if i not in axs)

    def axkey(self, v, ax):
        """Canonical axis key; None for a full reduction."""
        if ax is None:
            return None
        if v.sh is not None and isinstance(ax, int):
            n = len(v.sh)
            if n == 1:
                return None
            ax = ax - n if ax >= 0 else ax
            n -= self.lead(v.sh)
            if ax < -n:
                return "unit"
            return None if n == 1 else ax
        if v.sh is not None and isinstance(ax, tuple):
            n = len(v.sh)
            s = tuple(sorted(a - n if a >= 0 else a for a in ax))
            n -= self.lead(v.sh)
            s = tuple(a for a in s if a >= -n)
            if not s:
                return "unit"
            if len(s) == n:
                return None
            return s
        return ax

    def keepdims(self, kw):
        k = kw.get("keepdims")
        return isinstance(k, AV) and k.cst is True

    def reduce(self, I, name, args, kw, dimf=lambda d: d, linear=False,
               pos=None, isint=False):
        v = self.lower(I, args[0])
        ax, known = self.axis_of(I, args, kw)
        sh = self.redshape(v, ax, self.keepdims(kw))
        key = self.axkey(v, ax)
        deps = v.deps
        gv = None
        if v.sh == () or key == "unit":
            if name in ("sum", "mean", "median", "min", "max", "prod"):
                return v if v.sh == () else AV(v.dim, v.gv, deps, sh=sh)
        if v.gv is not None and known:
            full = key is None
            extra = () if full else (("ax", key),)
            if self.keepdims(kw) and not full:
                extra = extra + ("keep",)
            if linear:
                gv = I.safe(self.lin, name, v, extra, full)
            else:
                gv = I.safe(tm.fn, name, v.gv, *extra,
                            real=tm.is_real(v.gv), scalar=full,
                            pos=tm.is_pos(v.gv) if pos is None else pos)
        if v.elems is not None and linear and known and \
                not self.keepdims(kw):
            nd = len(next(iter(v.elems)))
            if ax is None or nd == 1 and ax in (0, -1):
                return self.total(I, name, list(v.elems.values()))
            if isinstance(ax, int) and -nd <= ax < nd:
                ax %= nd
                rows = {}
                for k in sorted(v.elems):
                    rows.setdefault(k[:ax] + k[ax + 1:], []).append(v.elems[k])
                el = {k: self.total(I, name, x) for k, x in rows.items()}
                r = AV(self.joindims(I, list(el.values())), None, deps,
                       sh=sh, elems=el)
                r.gv = I.gv_of(r)
                return r
        return self.setnd(AV(dimf(v.dim), gv, deps, sh=sh))

    def split(self, I, v):
        """The elements of a symbolic array of small constant shape."""
        if v.gv is None or v.sh is None or not 1 <= len(v.sh) <= 2:
            return None
        n = [s.const() if s is not None else None
             for s in v.sh]
        if any(q is None or q != int(q) or not 0 < q <= 4 for q in n):
            return None
        n = [int(q) for q in n]
        ix = [(i,) for i in range(n[0])]
        if len(n) == 2:
            ix = [i + (j,) for i in ix for j in range(n[1])]
        el = {i: self.index(I, v, [const(q) for q in i]) for i in ix}
        if any(not isinstance(q, AV) for q in el.values()):
            return None
        return el

    def total(self, I, name, xs):
        tot = None
        for x in xs:
            tot = x if tot is None else self.arith(I, "Add", tot, x)
        if name == "mean":
            tot = self.arith(I, "Div", tot, const(len(xs)))
        return tot

    def whole(self, v, full=False):
        """The value of v, kept in one piece when some of its terms do not
        have the full shape of the sum (broadcasting)."""
        g = v.gv
        if g is None or v.sh is not None and len(v.sh) < 2 or len(g.t) < 2:
            return g
        if v.sh is None:
            return g if full else tm.fn("bc", g, real=tm.is_real(g),
                                        pos=tm.is_pos(g), scalar=False)
        for m in g.t:
            if not any(tm.T.atoms[i].shp is not None and
                       len(tm.T.atoms[i].shp) == len(v.sh) and
                       all(p == q for p, q in zip(tm.T.atoms[i].shp, v.sh))
                       for i, _ in m):
                return tm.fn("bc", g, real=tm.is_real(g), pos=tm.is_pos(g),
                             scalar=False)
        return g

    def lin(self, name, v, extra, full):
        g = v.gv
        if name != "mean":
            g = self.whole(v, full)
        if name in ("sum", "mean") and full and v.sh is not None and \
                None not in v.sh:
            n = tm.ONE
            for s in v.sh:
                n = n * s
            if name == "mean":
                return tm.linear("sum", self.lin_ones(g), scalar=True) / n \
                    if not self.scalar_only(g) else g
            # sum over a constant part contributes n * c
            return self.sum_full(g, n)
        if name == "mean" and self.scalar_only(g):
            return g
        return tm.linear(name, g, *extra, scalar=full)

    def scalar_only(self, g):
        return tm.is_scalar(g)

    def lin_ones(self, g):
        return g

    def sum_full(self, g, n):
        a, b = {}, {}
        for m, c in g.t.items():
            if all(tm.T.atoms[i].scalar for i, _ in m):
                a[m] = c
            else:
                b[m] = c
        r = tm.linear("sum", tm.Expr(b), scalar=True) if b else tm.ZERO
        if a:
            r = r + tm.Expr(a) * n
        return r

    # ------------------------------------------------------------------ call
    def call(self, I, name, args, kwargs, star=False):
        name = ALIAS.get(name, name)
        for v in list(args) + list(kwargs.values()):
            if isinstance(v, ChoiceV):
                r = self.call_choice(I, name, args, kwargs, v)
                if r is not None:
                    return r
        self.effects(I, name, args, kwargs)
        h = self.handlers.get(name.replace(".", "_"))
        if h is None:
            for p in FFTMODS:
                if name.startswith(p):
                    h = self.handlers.get("FFT_" + name[len(p):])
        out = kwargs.get("out")
        if h is not None:
            try:
                r = h(I, args, kwargs)
            except (IndexError, KeyError, AttributeError, TypeError,
                    ValueError) as ex:
                if I.debug:
                    raise
                r = self.unknown(I, name, args, kwargs)
        else:
            r = self.unknown(I, name, args, kwargs)
        if isinstance(out, AV) and out.cst is not None and \
                isinstance(r, AV):
            I.mutate(out, r.copy(roots=out.roots), "%s(out=...)" % name)
        elif isinstance(out, TupV):
            for o in out.items:
                if isinstance(o, AV) and isinstance(r, AV):
                    I.mutate(o, r.copy(roots=o.roots), "%s(out=...)" % name)
        ow = kwargs.get("overwrite_x") or kwargs.get("overwrite_data") or \
            kwargs.get("overwrite_input") or kwargs.get("overwrite_a")
        if isinstance(ow, AV) and I.truth(ow) is not False and args and \
                isinstance(args[0], AV):
            I.mutate(args[0], args[0].copy(gv=None), "%s(overwrite)" % name)
        return r

    def call_choice(self, I, name, args, kwargs, ch):
        if name.startswith(("matplotlib", "builtins.print")):
            return None

        def repl(v, w):
            return w if v is ch else v
        def run(w):
            return self.call(I, name, [repl(a, w) for a in args],
                             {k: repl(a, w) for k, a in kwargs.items()})
        v, dead = I.branch((ch.cond, ch.deps), lambda: run(ch.a),
                           lambda: run(ch.b))
        return v

    def effects(self, I, name, args, kwargs):
        if name in IO_FUNCS:
            I.ev("io", "calls %s" % name, {"fn": name, "pc": list(I.pc)})
        elif name in GLOBALCFG or name.startswith("warnings.simplefilter"):
            inctx = False
            I.ev("globalcfg", "calls %s" % name, {"fn": name})
        elif name.startswith("numpy.random.") or name.startswith("random."):
            I.ev("rng", "calls %s" % name, {"fn": name,
                                            "seeded": bool(args)})
        elif name.startswith(("time.", "datetime.", "uuid.", "secrets.",
                              "os.urandom", "os.environ", "os.getpid")):
            I.ev("nondet", "calls %s" % name, {"fn": name})
        elif name.startswith("matplotlib"):
            I.ev("plot", "calls %s" % name, {"fn": name, "pc": list(I.pc)})

    def unknown(self, I, name, args, kwargs):
        if name.startswith("matplotlib"):
            deps = E0
            if name == "matplotlib.pyplot.subplots":
                return TupV([TopV(), TopV()])
            return TopV()
        if name in EXCS:
            return ExcV(name, args)
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        deps = E0
        g = []
        for v in args:
            deps = deps | I.deps_of(v)
            g.append(I.gv_of(v))
        for k in sorted(kwargs):
            deps = deps | I.deps_of(kwargs[k])
            g.append(k)
            g.append(I.gv_of(kwargs[k]))
        gv = None
        if all(x is not None for x in g) and not name.startswith(
                ("numpy.random", "random.")):
            gv = I.safe(tm.fn, name, *g, real=False)
        if name.startswith("numpy.") and not name.startswith(
                "numpy.random"):
            return AV(None, gv, deps)
        return TopV(deps, E0, gv)

    # ------------------------------------------------------------- builtins
    def f_builtins_len(self, I, a, k):
        return self.lenav(I, a[0])

    def f_builtins_range(self, I, a, k):
        a = [self.A(I, x) for x in a]
        if len(a) == 1:
            return RangeV(const(0), a[0], const(1))
        if len(a) == 2:
            return RangeV(a[0], a[1], const(1))
        return RangeV(a[0], a[1], a[2])

    def f_builtins_enumerate(self, I, a, k):
        st = 0
        s = a[1] if len(a) > 1 else k.get("start")
        if isinstance(s, AV) and isinstance(s.cst, int):
            st = s.cst
        return IterV("enumerate", [a[0]], st)

    def f_builtins_zip(self, I, a, k):
        return IterV("zip", a)

    def f_itertools_product(self, I, a, k):
        rep = k.get("repeat")
        parts = list(a)
        if rep is not None:
            n = self.A(I, rep).cst
            if not isinstance(n, int):
                return IterV("unknown", parts)
            parts = parts * n
        return IterV("product", parts)

    def f_itertools_combinations(self, I, a, k):
        its = I.static_iter(a[0])
        n = self.A(I, a[1]).cst
        if its is not None and isinstance(n, int):
            import itertools
            return I.newlist([TupV(c) for c in
                              itertools.combinations(its, n)])
        e = I.generic_elem(a[0])
        return I.newlist(None, TupV([e] * (n if isinstance(n, int) else 1)),
                         deps=I.deps_of(a[0]))

    def f_builtins_reversed(self, I, a, k):
        return IterV("reversed", a[:1])

    def f_builtins_iter(self, I, a, k):
        return IterV("iter", a[:1])

    def f_builtins_map(self, I, a, k):
        its = [I.static_iter(x) for x in a[1:]]
        if all(x is not None for x in its):
            n = min(len(x) for x in its)
            return I.newlist([I.call(a[0], [c[i] for c in its], {})
                              for i in range(n)])
        I.loopdepth += 1
        el = I.call(a[0], [I.generic_elem(x) for x in a[1:]], {})
        I.loopdepth -= 1
        deps = E0
        for x in a[1:]:
            deps = deps | I.deps_of(x)
        g = [I.gv_of(el)] + [I.gv_of(x) for x in a[1:]]
        gv = I.safe(tm.fn, "comp", *g, real=tm.is_real(g[0])) \
            if None not in g else None
        return I.newlist(None, el, gv=gv, deps=deps)

    def f_builtins_filter(self, I, a, k):
        el = I.generic_elem(a[1])
        I.call(a[0], [el], {})
        return I.newlist(None, el, deps=I.deps_of(a[1]))

    def f_builtins_abs(self, I, a, k):
        return self.f_numpy_abs(I, a, k)

    def f_builtins_round(self, I, a, k):
        v = self.A(I, a[0])
        if isnum(v.cst) and len(a) == 1 and not isinstance(v.cst, complex):
            return const(round(v.cst)).copy(deps=v.deps)
        return self.un(I, v, v.dim, lambda g: tm.fn(
            "rint", g, scalar=tm.is_scalar(g), integer=True))

    def f_builtins_int(self, I, a, k):
        if not a:
            return const(0)
        v = self.A(I, a[0])
        if isinstance(v.cst, bool) or isnum(v.cst) and not isinstance(
                v.cst, complex):
            try:
                return const(int(v.cst)).copy(deps=v.deps)
            except Exception:
                pass
        if isinstance(v.cst, str):
            try:
                return const(int(v.cst))
            except ValueError:
                pass
        if v.dim is not None and v.dim != ANY and v.dim != DLESS:
            I.ev("dim", "int() truncates a quantity with unit %s" %
                 dfmt(v.dim), {"a": v.dim, "b": DLESS})
        def f(g):
            if self.is_int(g):
                return g
            return tm.fn("intp", g, scalar=tm.is_scalar(g), integer=True)
        r = self.un(I, v, DLESS, f)
        r.isp = v.isp
        r.lo, r.hi = None, None
        if v.lo is not None and v.lo >= 0:
            r.lo = int(v.lo)
        return r

    def is_int(self, g):
        return all(c.denominator == 1 and all(
            tm.T.atoms[i].integer and e > 0 and e.denominator == 1
            for i, e in m) for m, c in g.t.items())

    def f_builtins_float(self, I, a, k):
        if not a:
            return const(0.0)
        v = self.A(I, a[0])
        if isinstance(v.cst, str):
            try:
                return const(float(v.cst))
            except ValueError:
                return AV(None, None, v.deps, sh=())
        if isnum(v.cst) and not isinstance(v.cst, complex):
            return const(float(v.cst)).copy(deps=v.deps)
        return v.copy(roots=E0, isp=v.isp) if v.sh == () else AV(
            v.dim, v.gv, v.deps, sh=())

    def f_builtins_complex(self, I, a, k):
        a = [self.A(I, x) for x in a]
        if len(a) == 1:
            return a[0]
        return self.arith(I, "Add", a[0], self.arith(I, "Mult", a[1],
                                                     const(1j)))

    def f_builtins_bool(self, I, a, k):
        if not a:
            return const(False)
        t = I.truth(a[0])
        if t is not None:
            return const(t).copy(deps=I.deps_of(a[0]))
        return AV(DLESS, I.bool_gv(a[0]), I.deps_of(a[0]), sh=(), isbool=True)

    def f_builtins_str(self, I, a, k):
        if not a:
            return const("")
        v = a[0]
        if isinstance(v, AV) and isinstance(v.cst, (str, int, float)):
            return const(str(v.cst)).copy(deps=v.deps)
        g = I.gv_of(v)
        return AV(None, I.safe(tm.fn, "str", g, scalar=True) if g is not None
                  else None, I.deps_of(v), sh=())

    f_builtins_repr = f_builtins_str

    def f_builtins_format(self, I, a, k):
        return AV(None, None, I.deps_of(a[0]), sh=())

    def f_builtins_list(self, I, a, k):
        if not a:
            return I.newlist([])
        its = I.static_iter(a[0])
        if its is not None:
            return I.newlist(its)
        return I.newlist(None, I.generic_elem(a[0]), gv=I.gv_of(a[0]),
                         deps=I.deps_of(a[0]))

    def f_builtins_tuple(self, I, a, k):
        if not a:
            return TupV([])
        its = I.static_iter(a[0])
        if its is not None:
            return TupV(its)
        if isinstance(a[0], AV) and a[0].sp == "shape":
            return a[0]
        return I.newlist(None, I.generic_elem(a[0]), gv=I.gv_of(a[0]),
                         deps=I.deps_of(a[0]))

    def f_builtins_set(self, I, a, k):
        return self.f_builtins_list(I, a, k)

    f_builtins_frozenset = f_builtins_set

    def f_builtins_dict(self, I, a, k):
        d = DictRec()
        if a:
            its = I.static_iter(a[0]) if not (
                isinstance(a[0], RefV) and isinstance(I.rec(a[0]), DictRec)
            ) else None
            if its is not None and all(
                    isinstance(x, TupV) and len(x.items) == 2 and
                    isinstance(x.items[0], AV) and x.items[0].cst is not NOC
                    for x in its):
                for x in its:
                    d.items[x.items[0].cst] = x.items[1]
            else:
                I.dict_update(d, a[0])
        for n, v in k.items():
            d.items[n] = v
        return I.alloc(d)

    def f_builtins_sorted(self, I, a, k):
        its = I.static_iter(a[0])
        e = I.generic_elem(a[0])
        g = I.gv_of(a[0])
        gv = I.safe(tm.fn, "sorted", g) if g is not None else None
        if its is not None:
            n = len(its)
            if isinstance(e, AV) and gv is not None:
                return I.newlist([e.copy(gv=I.safe(tm.fn, "item", gv, i),
                                         cst=NOC) for i in range(n)])
        return I.newlist(None, e, gv=gv, deps=I.deps_of(a[0]))

    def minmax(self, I, a, k, nm):
        if len(a) == 1:
            its = I.static_iter(a[0])
            if its is None:
                if isinstance(a[0], IterV):
                    return TopV(I.deps_of(a[0]), I.roots_of(a[0]))
                return self.reduce(I, nm, [self.A(I, a[0])], {})
        else:
            its = a
        if any(isinstance(x, (TupV, RefV)) for x in its):
            return TopV(frozenset().union(*[I.deps_of(x) for x in its]), E0)
        its = [self.A(I, x) for x in its]
        if its and all(isnum(x.cst) and not isinstance(x.cst, complex)
                       for x in its):
            return const((min if nm == "min" else max)(
                x.cst for x in its)).copy(deps=frozenset().union(
                    *[x.deps for x in its]))
        d = its[0]
        dim = its[0].dim
        for x in its[1:]:
            dim = self.dimcheck(I, AV(dim), x, nm)
        g = [x.gv for x in its]
        gv = None
        if None not in g:
            u = sorted(set(g), key=lambda e: tm.fmt(e, 6))
            gv = u[0] if len(u) == 1 else I.safe(
                tm.fn, nm + "of", *u, scalar=all(tm.is_scalar(x) for x in u),
                integer=all(self.is_int(x) for x in u))
        lo = None
        los = [(x.cst if isnum(x.cst) else x.lo) for x in its]
        if nm == "max":
            los = [x for x in los if x is not None and
                   not isinstance(x, complex)]
            lo = max(los) if los else None
        return AV(dim, gv, frozenset().union(*[x.deps for x in its]), sh=(),
                  lo=lo)

    def f_builtins_min(self, I, a, k):
        return self.minmax(I, a, k, "min")

    def f_builtins_max(self, I, a, k):
        return self.minmax(I, a, k, "max")

    def f_builtins_sum(self, I, a, k):
        v = a[0]
        its = I.static_iter(v)
        if its is not None:
            tot = None
            for x in its:
                tot = x if tot is None else I.binop(ast.Add(), tot, x)
            return tot if tot is not None else const(0)
        v = self.A(I, v)
        if v.isbool:
            return self.f_numpy_sum(I, [v], {})
        if v.sh is not None and len(v.sh) > 1:
            return self.f_numpy_sum(I, [v, const(0)], {})
        return self.f_numpy_sum(I, [v], {})

    def f_builtins_any(self, I, a, k):
        its = I.static_iter(a[0])
        if its is not None:
            ts = [I.truth(x) for x in its]
            if any(t is True for t in ts):
                return const(True).copy(deps=I.deps_of(a[0]))
            if all(t is False for t in ts):
                return const(False).copy(deps=I.deps_of(a[0]))
            g = [I.bool_gv(x) for x, t in zip(its, ts) if t is None]
            return AV(DLESS, I.safe(self.boolop, "or", g)
                      if None not in g else None, I.deps_of(a[0]), sh=(),
                      isbool=True)
        return self.f_numpy_any(I, a, k)

    def f_builtins_all(self, I, a, k):
        its = I.static_iter(a[0])
        if its is not None:
            ts = [I.truth(x) for x in its]
            if all(t is True for t in ts):
                return const(True).copy(deps=I.deps_of(a[0]))
            if any(t is False for t in ts):
                return const(False).copy(deps=I.deps_of(a[0]))
            g = [I.bool_gv(x) for x, t in zip(its, ts) if t is None]
            return AV(DLESS, I.safe(self.boolop, "and", g)
                      if None not in g else None, I.deps_of(a[0]), sh=(),
                      isbool=True)
        return self.f_numpy_all(I, a, k)

    def f_builtins_print(self, I, a, k):
        return const(None)

    def f_warnings_warn(self, I, a, k):
        I.ev("warn", "warnings.warn")
        return const(None)

    def f_builtins_isinstance(self, I, a, k):
        v, t = a
        ts = list(t.items) if isinstance(t, TupV) else [t]
        names = set()
        for x in ts:
            if isinstance(x, LibV):
                names.add(x.name.split(".")[-1])
            elif isinstance(x, ClsV):
                names.add("cls:" + x.info.name)
            else:
                return AV(DLESS, None, I.deps_of(v), sh=(), isbool=True)
        r = self.type_test(I, v, names)
        if r is None:
            g = I.gv_of(v)
            gv = I.safe(tm.fn, "isinstance", g, ",".join(sorted(names)),
                        scalar=True) if g is not None else None
            return AV(DLESS, gv, I.deps_of(v), sh=(), isbool=True)
        return const(r)

    def type_test(self, I, v, names):
        if isinstance(v, AV):
            c = v.cst
            if c is not NOC:
                if c is None:
                    return bool(names & {"NoneType"})
                if isinstance(c, bool):
                    return bool(names & {"bool", "int", "integer_"})
                if isinstance(c, int):
                    return bool(names & {"int", "Integral", "Number",
                                         "Real"})
                if isinstance(c, float):
                    return bool(names & {"float", "Number", "Real"})
                if isinstance(c, str):
                    return "str" in names
                if isinstance(c, complex):
                    return "complex" in names
            if v.mnone:
                return None
            if v.array:
                return "ndarray" in names
            if v.sh == () and v.dim is not None:
                if names <= {"str", "list", "tuple", "dict", "ndarray"}:
                    return False
                if v.isbool and names <= {"bool"}:
                    return True
            return None
        if isinstance(v, TupV):
            return "tuple" in names
        if isinstance(v, RefV):
            r = I.rec(v)
            if isinstance(r, ListRec):
                return "list" in names
            if isinstance(r, DictRec):
                return "dict" in names
            if isinstance(r, ObjRec) and r.cls is not None:
                mro = {"cls:" + c.name for c in I.prog.mro(r.cls)}
                return bool(names & mro)
        return None

    def f_builtins_hasattr(self, I, a, k):
        v, n = a
        if isinstance(v, RefV) and isinstance(I.rec(v), ObjRec) and \
                isinstance(n, AV) and isinstance(n.cst, str):
            r = I.rec(v)
            if n.cst in r.attrs:
                return const(True)
            if r.cls is not None and I.find_method(r.cls, n.cst) is not None:
                return const(True)
            return const(False)
        return AV(DLESS, None, I.deps_of(v), sh=(), isbool=True)

    def f_builtins_getattr(self, I, a, k):
        v, n = a[0], a[1]
        if isinstance(n, AV) and isinstance(n.cst, str):
            if len(a) == 3 and isinstance(v, RefV) and isinstance(
                    I.rec(v), ObjRec):
                if I.truth(self.f_builtins_hasattr(I, [v, n], {})) is False:
                    return a[2]
            return I.get_attr(v, n.cst)
        return TopV(I.deps_of(v), I.roots_of(v))

    def f_builtins_setattr(self, I, a, k):
        if isinstance(a[1], AV) and isinstance(a[1].cst, str):
            I.set_attr(a[0], a[1].cst, a[2], I.node)
        elif isinstance(a[0], RefV) and I.rec(a[0]).roots:
            I.ev("mutate", "setattr on a caller's object",
                 {"roots": I.rec(a[0]).roots, "how": "setattr"})
        return const(None)

    def f_builtins_locals(self, I, a, k):
        e = I.env()
        return I.newdict(dict(e.vars))

    def f_builtins_vars(self, I, a, k):
        if a and isinstance(a[0], RefV) and isinstance(I.rec(a[0]), ObjRec):
            return I.newdict(dict(I.rec(a[0]).attrs))
        return self.f_builtins_locals(I, a, k)

    def f_builtins_super(self, I, a, k):
        fr = I.frames[-1]
        # nested functions share the method's self
        f = fr.fn
        if f is not None and f.cls is not None and f.selfv is not None:
            return SuperV(f.cls, f.selfv)
        return TopV()

    def f_object___init__(self, I, a, k):
        return const(None)

    def f_builtins_type(self, I, a, k):
        v = a[0]
        if isinstance(v, RefV) and isinstance(I.rec(v), ObjRec) and \
                I.rec(v).cls is not None:
            return ClsV(I.rec(v).cls)
        return TopV()

    def f_builtins_callable(self, I, a, k):
        return AV(DLESS, None, E0, sh=(), isbool=True) if isinstance(
            a[0], TopV) else const(isinstance(a[0], (FnV, LibV, ClsV, BoundV)))

    def f_builtins_next(self, I, a, k):
        its = I.static_iter(a[0])
        if its:
            return its[0]
        return I.generic_elem(a[0])

    def f_builtins_pow(self, I, a, k):
        return self.arith(I, "Pow", self.A(I, a[0]), self.A(I, a[1]))

    def f_functools_partial(self, I, a, k):
        f = a[0]
        if isinstance(f, FnV):
            g = f.bind(f.selfv)
            old = f.partial or ((), {})
            kw = dict(old[1])
            kw.update(k)
            g.partial = (tuple(old[0]) + tuple(a[1:]), kw)
            return g
        return BoundV(TupV([f] + list(a[1:])), "__partial__", k)

    def f_builtins_open(self, I, a, k):
        return TopV(I.deps_of(a[0]))

    def f_copy_copy(self, I, a, k):
        v = a[0]
        if isinstance(v, RefV):
            r = I.rec(v).copy()
            r.roots = E0
            return I.alloc(r)
        if isinstance(v, AV):
            return v.copy(roots=E0)
        return v

    def f_copy_deepcopy(self, I, a, k):
        return self.deep(I, a[0])

    def deep(self, I, v, n=0):
        if isinstance(v, AV):
            return v.copy(roots=E0)
        if isinstance(v, TupV):
            return TupV([self.deep(I, x, n + 1) for x in v.items])
        if isinstance(v, RefV) and n < 5:
            r = I.rec(v).copy()
            r.roots = E0
            if isinstance(r, ListRec):
                if r.items is not None:
                    r.items = [self.deep(I, x, n + 1) for x in r.items]
                elif r.elem is not None:
                    r.elem = self.deep(I, r.elem, n + 1)
            elif isinstance(r, DictRec):
                r.items = {a: self.deep(I, x, n + 1)
                           for a, x in r.items.items()}
                if r.rest is not None:
                    r.rest = self.deep(I, r.rest, n + 1)
            elif isinstance(r, ObjRec):
                r.attrs = {a: self.deep(I, x, n + 1)
                           for a, x in r.attrs.items()}
            return I.alloc(r)
        if isinstance(v, TopV):
            return TopV(v.deps, E0, v.gv)
        return v

    def f_math_ceil(self, I, a, k):
        v = self.A(I, a[0])
        if isnum(v.cst):
            import math
            return const(math.ceil(v.cst)).copy(deps=v.deps)
        self.dlessround(I, v, "ceil")
        return self.un(I, v, v.dim, lambda g: g if self.is_int(g) else tm.fn(
            "ceil", g, scalar=tm.is_scalar(g), integer=True))

    def f_math_floor(self, I, a, k):
        v = self.A(I, a[0])
        if isnum(v.cst):
            import math
            return const(math.floor(v.cst)).copy(deps=v.deps)
        self.dlessround(I, v, "floor")
        def f(g):
            if self.is_int(g):
                return g
            # floor(n/2) == n//2
            for q in (2, 3, 4):
                h = tm.scale(g, Fraction(q))
                if self.is_int(h):
                    return self.floordiv(h, E(q))
            return tm.fn("floor", g, scalar=tm.is_scalar(g), integer=True)
        return self.un(I, v, v.dim, f)

    def dlessround(self, I, v, what):
        pass

    f_numpy_floor = f_math_floor
    f_numpy_ceil = f_math_ceil

    def f_numpy_rint(self, I, a, k):
        return self.f_builtins_round(I, a[:1], k)

    f_numpy_round = f_numpy_rint
    f_numpy_around = f_numpy_rint

    # ------------------------------------------------------------ creation
    def shape_arg(self, I, v):
        if isinstance(v, TupV):
            return tuple(self.A(I, x).gv for x in v.items), I.deps_of(v)
        if isinstance(v, RefV):
            its = I.static_iter(v)
            if its is not None:
                return tuple(self.A(I, x).gv for x in its), I.deps_of(v)
        if isinstance(v, AV):
            if v.sp == "shape":
                return None, v.deps
            if v.sh == () or v.sh is None:
                self.needdless(I, v, "array length")
                return (v.gv,), v.deps
            if v.elems is not None:
                ks = sorted(v.elems)
                return tuple(v.elems[x].gv for x in ks), v.deps
        return None, I.deps_of(v)

    def fill(self, I, v, c, dim):
        sh, deps = self.shape_arg(I, v)
        el = None
        if sh is not None and all(s is not None and s.const() is not None
                                  for s in sh):
            dims = [int(s.const()) for s in sh]
            tot = 1
            for d in dims:
                tot *= d
            if tot <= 64 and 1 <= len(dims) <= 2 and tot > 0:
                import itertools
                el = {ix: const(c) if not isinstance(c, AV) else c
                      for ix in itertools.product(*[range(d) for d in dims])}
        gv = tm.number(c) if not isinstance(c, AV) else c.gv
        r = AV(dim, gv, deps, sh=sh, elems=el)
        return r

    def boolfill(self, k, a, pos=1):
        d = k.get("dtype", a[pos] if len(a) > pos else None)
        return isinstance(d, LibV) and d.name in (
            "builtins.bool", "numpy.bool_", "numpy.bool")

    DT = {"int": "i", "float": "f", "complex": "c", "float64": "f",
          "int64": "i", "int32": "i", "complex128": "c"}

    def dtype(self, k, a, pos, default):
        """Element type asked for: "i", "f", "c", or None (not known)."""
        d = k.get("dtype", a[pos] if len(a) > pos else None)
        if d is None or isinstance(d, AV) and d.cst is None:
            return default
        n = d.name.split(".")[-1] if isinstance(d, LibV) else (
            d.cst if isinstance(d, AV) else None)
        return self.DT.get(n) if isinstance(n, str) else None

    def kind(self, v):
        """Element type of a value, None if not known."""
        if v.dt:
            return v.dt
        if v.isbool or not (v.cst is NOC or isnum(v.cst)):
            return None
        if v.cst is not NOC:
            return "i" if isinstance(v.cst, int) else \
                "f" if isinstance(v.cst, float) else "c"
        if v.gv is not None and tm.is_real(v.gv) and not tm.is_int(v.gv):
            return "f"
        return None

    def f_numpy_zeros(self, I, a, k):
        r = self.fill(I, a[0] if a else k["shape"], 0, ANY)
        r.dt = self.dtype(k, a, 1, "f")
        r.isbool = self.boolfill(k, a)
        return r

    def f_numpy_ones(self, I, a, k):
        r = self.fill(I, a[0] if a else k["shape"], 1, DLESS)
        r.dt = self.dtype(k, a, 1, "f")
        r.isbool = self.boolfill(k, a)
        return r

    def f_numpy_empty(self, I, a, k):
        r = self.fill(I, a[0] if a else k["shape"], 0, ANY)
        r.dt = self.dtype(k, a, 1, "f")
        r.gv = tm.sym("uninit", scalar=True)
        if r.elems is not None:
            r.elems = {x: AV(ANY, r.gv, sh=()) for x in r.elems}
            r.gv = None
            r.gv = I.gv_of(r)
        return r

    def f_numpy_full(self, I, a, k):
        v = self.A(I, a[1] if len(a) > 1 else k["fill_value"])
        r = self.fill(I, a[0], v, v.dim)
        r.dt = self.dtype(k, a, 2, self.kind(v))
        r.deps = r.deps | v.deps
        r.isbool = v.isbool
        return r

    def like(self, I, v, c, dim):
        v = self.A(I, v)
        r = AV(dim, tm.number(c), v.deps if v.sh is None else E0, sh=v.sh)
        if v.elems is not None:
            r.elems = {x: const(c) for x in v.elems}
        return r

    def f_numpy_zeros_like(self, I, a, k):
        r = self.like(I, a[0], 0, ANY)
        r.dt = self.dtype(k, a, 1, self.kind(self.A(I, a[0])))
        r.isbool = self.boolfill(k, a)
        return r

    def f_numpy_ones_like(self, I, a, k):
        r = self.like(I, a[0], 1, DLESS)
        r.dt = self.dtype(k, a, 1, self.kind(self.A(I, a[0])))
        r.isbool = self.boolfill(k, a)
        return r

    def f_numpy_empty_like(self, I, a, k):
        r = self.like(I, a[0], 0, ANY)
        r.gv = tm.sym("uninit", scalar=True)
        r.dt = self.dtype(k, a, 1, self.kind(self.A(I, a[0])))
        r.elems = None
        return r

    def f_numpy_full_like(self, I, a, k):
        v = self.A(I, a[0])
        c = self.A(I, a[1])
        return AV(c.dim, c.gv, v.deps | c.deps, sh=v.sh, isbool=c.isbool,
                  dt=self.dtype(k, a, 2, self.kind(v)))

    def f_numpy_eye(self, I, a, k):
        n = self.A(I, a[0])
        if isinstance(n.cst, int) and n.cst <= 8:
            el = {(i, j): const(1 if i == j else 0) for i in range(n.cst)
                  for j in range(n.cst)}
            r = AV(DLESS, None, n.deps, sh=(E(n.cst),) * 2, elems=el)
            r.gv = I.gv_of(r)
            return r
        return AV(DLESS, I.safe(tm.fn, "eye", n.gv) if n.gv is not None
                  else None, n.deps, sh=(n.gv, n.gv))

    f_numpy_identity = f_numpy_eye

    def f_numpy_array(self, I, a, k):
        v = a[0]
        if isinstance(v, AV):
            cp = k.get("copy")
            fresh = not (isinstance(cp, AV) and cp.cst is False)
            if v.cst is None or isinstance(v.cst, str):
                return v
            nd = k.get("ndmin")
            return v.copy(roots=E0 if fresh else v.roots, isp=v.isp,
                          dt=self.dtype(k, a, 1, v.dt))
        return self.lower(I, v)

    def f_numpy_asarray(self, I, a, k):
        v = a[0]
        if isinstance(v, AV):
            dt = self.dtype(k, a, 1, v.dt)
            return v if dt == v.dt else v.same(dt=dt)
        return self.lower(I, v)

    def f_numpy_copy(self, I, a, k):
        return self.lower(I, a[0]).copy(roots=E0)

    def f_numpy_arange(self, I, a, k):
        a = [self.A(I, x) for x in a if not isinstance(x, LibV)]
        one = const(1)
        if len(a) == 1:
            st, sp, step = const(0), a[0], one
        elif len(a) == 2:
            st, sp, step = a[0], a[1], one
        else:
            st, sp, step = a[:3]
        dim = DLESS
        for x in (st, sp, step):
            if x.dim is None:
                dim = None
        if dim is not None:
            dim = ANY
            for x in (st, sp, step):
                if x is one:
                    continue
                dim = self.dimcheck(I, AV(dim), x, "arange")
            if dim == ANY:
                dim = DLESS
        gv = None
        n = None
        if None not in (st.gv, sp.gv, step.gv):
            def f():
                nn = (sp.gv - st.gv) / step.gv
                g = tm.fn("arange", nn)
                return g * step.gv + st.gv, nn
            r = I.safe(f)
            if r is not None:
                gv, n = r
        el = None
        if all(isinstance(x.cst, int) for x in (st, sp, step)):
            r = range(st.cst, sp.cst, step.cst)
            if len(r) <= 24:
                el = {(i,): const(x) for i, x in enumerate(r)}
                n = E(len(r))
        elif n is not None and n.const() is not None and \
                n.const().denominator == 1 and 0 <= n.const() <= 4:
            el = {(i,): AV(dim, st.gv + tm.scale(step.gv, i), st.deps | sp.deps, sh=())
                  for i in range(int(n.const()))}
            if len(el) == 1:
                gv = st.gv
        if n is not None and n.const() is None and not self.is_int(step.gv):
            # stop - start over a rounded step may give one element more
            n = tm.fn("rcount", n, scalar=True, integer=True)
        return AV(dim, gv, st.deps | sp.deps | step.deps, sh=(n,), elems=el)

    def f_numpy_linspace(self, I, a, k):
        st, sp = self.A(I, a[0]), self.A(I, a[1])
        num = self.A(I, a[2] if len(a) > 2 else k.get("num", const(50)))
        dim = self.dimcheck(I, st, sp, "linspace")
        ep = k.get("endpoint")
        gv = None
        if None not in (st.gv, sp.gv, num.gv):
            def f():
                d = num.gv
                if not (isinstance(ep, AV) and ep.cst is False):
                    d = d - tm.ONE
                return st.gv + (sp.gv - st.gv) * tm.fn(
                    "arange", num.gv) / d
            gv = I.safe(f)
        return AV(dim, gv, st.deps | sp.deps | num.deps, sh=(num.gv,))

    def f_numpy_logspace(self, I, a, k):
        x = [self.A(I, v) for v in a[:3]]
        num = self.A(I, a[2] if len(a) > 2 else k.get("num", const(50)))
        return AV(None, None, x[0].deps | x[1].deps | num.deps,
                  sh=(num.gv,))

    def f_FFT_fftfreq(self, I, a, k):
        n = self.A(I, a[0] if a else k["n"])
        d = self.A(I, a[1] if len(a) > 1 else k.get("d", const(1.0)))
        self.needdless(I, n, "fftfreq length")
        gv = None
        if n.gv is not None and d.gv is not None:
            gv = I.safe(lambda: tm.fn("fftint", n.gv) / (n.gv * d.gv))
        return AV(dpow(d.dim, -1), gv, n.deps | d.deps, sh=(n.gv,))

    def f_FFT_rfftfreq(self, I, a, k):
        n = self.A(I, a[0] if a else k["n"])
        d = self.A(I, a[1] if len(a) > 1 else k.get("d", const(1.0)))
        self.needdless(I, n, "rfftfreq length")
        gv = None
        L = None
        if n.gv is not None:
            L = I.safe(lambda: self.floordiv(n.gv, E(2)) + tm.ONE)
        if n.gv is not None and d.gv is not None and L is not None:
            gv = I.safe(lambda: tm.fn("arange", L) / (n.gv * d.gv))
        return AV(dpow(d.dim, -1), gv, n.deps | d.deps, sh=(L,))

    def fftlike(self, I, nm, a, k, half=None):
        v = self.A(I, a[0])
        ax = k.get("axis", a[2] if len(a) > 2 else None)
        n = k.get("n", a[1] if len(a) > 1 else None)
        c = ax.cst if isinstance(ax, AV) else -1
        if v.sh is not None and isinstance(c, int):
            c = c - len(v.sh) if c >= 0 else c
        extra = ()
        hasn = isinstance(n, AV) and n.cst is not None
        if c != -1 or c is NOC:
            extra = (("ax", c if c is not NOC else "?"),)
        if hasn:
            extra = extra + (n.gv,)
        gv = None
        deps = v.deps | (n.deps if hasn else E0)
        L = v.sh[-1] if v.sh else None
        if hasn and n.gv is not None:
            L = n.gv
        if v.gv is not None and not (hasn and n.gv is None):
            def f():
                if hasn and v.sh and v.sh[-1] is not None and \
                        n.gv == v.sh[-1] and nm != "irfft":
                    ex = extra[:-1]
                else:
                    ex = extra
                if nm == "ifft":
                    at = v.gv.single_atom()
                    if at is not None and at.name == "fft" and \
                            at.args[1:] == ex:
                        return at.args[0]
                if nm == "fft":
                    at = v.gv.single_atom()
                    if at is not None and at.name == "ifft" and \
                            at.args[1:] == ex:
                        return at.args[0]
                return tm.linear(nm, v.gv, *ex)
            gv = I.safe(f)
        sh = v.sh
        if sh is not None:
            if nm == "rfft":
                L = I.safe(lambda: self.floordiv(L, E(2)) + tm.ONE) \
                    if L is not None else None
            elif nm == "irfft" and not hasn:
                L = None
            sh = v.sh[:-1] + (L,)
        r = AV(v.dim, gv, deps, sh=sh)
        return self.setnd(r)

    def f_FFT_fft(self, I, a, k):
        return self.fftlike(I, "fft", a, k)

    def f_FFT_ifft(self, I, a, k):
        return self.fftlike(I, "ifft", a, k)

    def f_FFT_rfft(self, I, a, k):
        if a and False:
            pass
        return self.fftlike(I, "rfft", a, k)

    def f_FFT_irfft(self, I, a, k):
        return self.fftlike(I, "irfft", a, k)

    def f_FFT_fftshift(self, I, a, k):
        v = self.A(I, a[0])
        return AV(v.dim, I.safe(tm.fn, "fftshift", v.gv, real=tm.is_real(
            v.gv)) if v.gv is not None else None, v.deps, sh=v.sh)

    def f_FFT_ifftshift(self, I, a, k):
        v = self.A(I, a[0])
        return AV(v.dim, I.safe(tm.fn, "ifftshift", v.gv, real=tm.is_real(
            v.gv)) if v.gv is not None else None, v.deps, sh=v.sh)

    # ----------------------------------------------------------- elementwise
    def f_numpy_abs(self, I, a, k):
        v = self.A(I, a[0])
        if isnum(v.cst):
            return const(abs(v.cst)).copy(deps=v.deps)
        r = self.un(I, v, v.dim, tm.abs_)
        if v.lo is not None and v.lo >= 0:
            r.lo = v.lo
        else:
            r.lo = 0
        if v.lo is not None and v.lo > 0:
            r.lo = v.lo
        return r

    def f_numpy_sqrt(self, I, a, k):
        v = self.A(I, a[0])
        if isnum(v.cst) and not isinstance(v.cst, complex) and v.cst >= 0:
            r = const(float(v.cst) ** 0.5).copy(deps=v.deps)
            r.gv = I.safe(tm.powq, tm.number(v.cst), Fraction(1, 2))
            return r
        return self.un(I, v, dpow(v.dim, Fraction(1, 2)),
                       lambda g: tm.powq(g, Fraction(1, 2))) \
            if v.elems is None else self.unel(I, v, lambda x:
                                              self.f_numpy_sqrt(I, [x], {}))

    def unel(self, I, v, f):
        el = {k: f(x) for k, x in v.elems.items()}
        r = AV(self.joindims(I, list(el.values())), None, v.deps, sh=v.sh,
               elems=el)
        r.gv = I.gv_of(r)
        return r

    def f_numpy_square(self, I, a, k):
        return self.arith(I, "Pow", self.A(I, a[0]), const(2))

    def f_numpy_hypot(self, I, a, k):
        s = self.arith(I, "Add", self.f_numpy_square(I, a[:1], {}),
                       self.f_numpy_square(I, a[1:2], {}))
        return self.f_numpy_sqrt(I, [s], {})

    def f_numpy_power(self, I, a, k):
        return self.arith(I, "Pow", self.A(I, a[0]), self.A(I, a[1]))

    def f_numpy_multiply(self, I, a, k):
        return self.arith(I, "Mult", self.A(I, a[0]), self.A(I, a[1]))

    def f_numpy_divide(self, I, a, k):
        return self.arith(I, "Div", self.A(I, a[0]), self.A(I, a[1]))

    def f_numpy_add(self, I, a, k):
        return self.arith(I, "Add", self.A(I, a[0]), self.A(I, a[1]))

    def f_numpy_subtract(self, I, a, k):
        return self.arith(I, "Sub", self.A(I, a[0]), self.A(I, a[1]))

    def f_numpy_mod(self, I, a, k):
        return self.arith(I, "Mod", self.A(I, a[0]), self.A(I, a[1]))

    def f_numpy_floor_divide(self, I, a, k):
        return self.arith(I, "FloorDiv", self.A(I, a[0]), self.A(I, a[1]))

    def f_numpy_negative(self, I, a, k):
        return self.unop(I, ast.USub(), a[0])

    def f_numpy_reciprocal(self, I, a, k):
        return self.arith(I, "Div", const(1), self.A(I, a[0]))

    def f_numpy_exp(self, I, a, k):
        v = self.A(I, a[0])
        self.needdless(I, v, "exponential")
        return self.un(I, v, DLESS, tm.exp_)

    def f_numpy_log(self, I, a, k):
        v = self.A(I, a[0])
        self.needdless(I, v, "logarithm")
        return self.un(I, v, DLESS, self.log_gv)

    def f_numpy_log10(self, I, a, k):
        v = self.A(I, a[0])
        self.needdless(I, v, "logarithm")
        return self.un(I, v, DLESS, lambda g: tm.fn(
            "log10", g, scalar=tm.is_scalar(g)))

    f_numpy_log2 = f_numpy_log10
    f_math_log10 = f_numpy_log10

    def trig(nm):
        def f(self, I, a, k):
            v = self.A(I, a[0])
            self.needdless(I, v, nm)
            return self.un(I, v, DLESS, lambda g: tm.fn(
                nm, g, real=tm.is_real(g), scalar=tm.is_scalar(g)))
        return f
    f_numpy_sin = trig("sin")
    f_numpy_cos = trig("cos")
    f_numpy_tan = trig("tan")
    f_numpy_arctan = trig("arctan")
    f_numpy_arcsin = trig("arcsin")
    f_numpy_arccos = trig("arccos")
    f_numpy_tanh = trig("tanh")
    f_numpy_sinh = trig("sinh")
    f_numpy_cosh = trig("cosh")

    def f_numpy_arctan2(self, I, a, k):
        x, y = self.A(I, a[0]), self.A(I, a[1])
        self.dimcheck(I, x, y, "arctan2")
        gv = I.safe(tm.fn, "arctan2", x.gv, y.gv) \
            if None not in (x.gv, y.gv) else None
        return AV(DLESS, gv, x.deps | y.deps, sh=self.bshape(I, x.sh, y.sh))

    def f_numpy_angle(self, I, a, k):
        v = self.A(I, a[0])
        return self.un(I, v, DLESS, lambda g: tm.fn(
            "angle", g, scalar=tm.is_scalar(g)))

    def f_numpy_sign(self, I, a, k):
        v = self.A(I, a[0])
        return self.un(I, v, DLESS, lambda g: tm.fn(
            "sign", g, scalar=tm.is_scalar(g)))

    def f_numpy_conj(self, I, a, k):
        v = self.A(I, a[0])
        return self.un(I, v, v.dim, tm.conj)

    def f_numpy_real(self, I, a, k, view=False):
        v = self.A(I, a[0])
        if isnum(v.cst):
            return const(complex(v.cst).real if isinstance(v.cst, complex)
                         else v.cst).copy(deps=v.deps)
        r = self.un(I, v, v.dim, tm.real)
        r.roots = v.roots
        if v.gv is not None and r.gv is not None and r.gv == v.gv:
            r.lo, r.hi = v.lo, v.hi
        return r

    def f_numpy_imag(self, I, a, k, view=False):
        v = self.A(I, a[0])
        r = self.un(I, v, v.dim, tm.imag)
        r.roots = v.roots
        return r

    def f_numpy_isnan(self, I, a, k):
        v = self.A(I, a[0])
        if isnum(v.cst):
            return const(v.cst != v.cst).copy(deps=v.deps)
        if v.gv is not None:
            at = v.gv.single_atom()
            if v.sh == () and at is not None and at.name == "ite" and \
                    tm.sym("nan") in (at.args[1], at.args[2]):
                other = at.args[2] if at.args[1] == tm.sym("nan") \
                    else at.args[1]
                c = at.args[0] if at.args[1] == tm.sym("nan") else \
                    self.not_gv(at.args[0])
                oa = other.single_atom()
                if oa is not None and oa.integer or "nan" not in \
                        tm.symbols(other):
                    return AV(DLESS, c, v.deps, sh=(), isbool=True)
            if v.sh == () and at is not None and at.integer:
                return const(False).copy(deps=v.deps)
        return self.un(I, v, DLESS, lambda g: tm.fn(
            "isnan", g, scalar=tm.is_scalar(g)), isbool=True)

    def f_numpy_isinf(self, I, a, k):
        v = self.A(I, a[0])
        if isnum(v.cst):
            return const(v.cst in (float("inf"), float("-inf"))).copy(
                deps=v.deps)
        if v.gv is not None and v.gv == tm.sym("inf"):
            return const(True).copy(deps=v.deps)
        if v.gv is not None and v.sh == ():
            at = v.gv.single_atom()
            if at is not None and at.kind == "sym" and at.name in \
                    self.finite:
                return const(False).copy(deps=v.deps)
            if at is not None and at.kind == "fn" and at.name == "idx":
                b = at.args[0].single_atom()
                if b is not None and b.kind == "sym" and \
                        b.name in self.finite:
                    return const(False).copy(deps=v.deps)
        return self.un(I, v, DLESS, lambda g: tm.fn(
            "isinf", g, scalar=tm.is_scalar(g)), isbool=True)

    finite = frozenset()

    def f_numpy_isfinite(self, I, a, k):
        v = self.A(I, a[0])
        return self.un(I, v, DLESS, lambda g: tm.fn(
            "isfinite", g, scalar=tm.is_scalar(g)), isbool=True)

    def f_numpy_isscalar(self, I, a, k):
        v = a[0]
        if isinstance(v, AV):
            if v.cst is not NOC:
                return const(v.cst is not None)
            if v.mnone:
                g = I.safe(tm.fn, "isscalar", v.gv, scalar=True) \
                    if v.gv is not None else None
                return AV(DLESS, g, v.deps, sh=(), isbool=True)
            if v.sh == ():
                return const(True)
            if v.array:
                return const(False)
            g = I.safe(tm.fn, "isscalar", v.gv, scalar=True) \
                if v.gv is not None else None
            return AV(DLESS, g, v.deps, sh=(), isbool=True)
        if isinstance(v, (TupV, RefV)):
            return const(False)
        g = I.gv_of(v)
        return AV(DLESS, I.safe(tm.fn, "isscalar", g, scalar=True)
                  if g is not None else None, I.deps_of(v), sh=(),
                  isbool=True)

    def f_numpy_clip(self, I, a, k):
        v = self.A(I, a[0])
        d = v.dim
        g = [v.gv]
        deps = v.deps
        for x in a[1:3]:
            x = self.A(I, x)
            if x.cst is not None:
                self.dimcheck(I, v, x, "clip")
            g.append(x.gv)
            deps = deps | x.deps
        gv = I.safe(tm.fn, "clip", *g) if None not in g else None
        return AV(d, gv, deps, sh=v.sh)

    def f_numpy_maximum(self, I, a, k):
        x, y = self.A(I, a[0]), self.A(I, a[1])
        d = self.dimcheck(I, x, y, "maximum")
        gv = None
        if None not in (x.gv, y.gv):
            gv = I.safe(tm.fn, "maxof", *sorted([x.gv, y.gv], key=lambda e:
                                                tm.fmt(e, 6)))
        return AV(d, gv, x.deps | y.deps, sh=self.bshape(I, x.sh, y.sh))

    def f_numpy_minimum(self, I, a, k):
        x, y = self.A(I, a[0]), self.A(I, a[1])
        d = self.dimcheck(I, x, y, "minimum")
        gv = None
        if None not in (x.gv, y.gv):
            gv = I.safe(tm.fn, "minof", *sorted([x.gv, y.gv], key=lambda e:
                                                tm.fmt(e, 6)))
        return AV(d, gv, x.deps | y.deps, sh=self.bshape(I, x.sh, y.sh))

    def f_numpy_nan_to_num(self, I, a, k):
        v = self.A(I, a[0])
        cp = k.get("copy", a[1] if len(a) > 1 else None)
        gv = I.safe(tm.fn, "nan_to_num", v.gv) if v.gv is not None else None
        r = AV(v.dim, gv, v.deps, sh=v.sh)
        if isinstance(cp, AV) and cp.cst is False:
            return I.mutate(v, r.copy(roots=v.roots), "nan_to_num(copy=False)")
        return r

    # ----------------------------------------------------------- logicals
    def boolbin(self, I, op, a):
        x, y = self.A(I, a[0]), self.A(I, a[1])
        gv = None
        gx = x.gv if x.isbool else (I.bool_gv(x))
        gy = y.gv if y.isbool else (I.bool_gv(y))
        if gx is not None and gy is not None:
            gv = I.safe(self.boolop, op, [gx, gy])
        return AV(DLESS, gv, x.deps | y.deps,
                  sh=self.bshape(I, x.sh, y.sh), isbool=True)

    def f_numpy_logical_and(self, I, a, k):
        return self.boolbin(I, "and", a)

    def f_numpy_logical_or(self, I, a, k):
        return self.boolbin(I, "or", a)

    def f_numpy_logical_not(self, I, a, k):
        v = self.A(I, a[0])
        gv = I.safe(self.not_gv, v.gv) if v.gv is not None else None
        return AV(DLESS, gv, v.deps, sh=v.sh, isbool=True)

    def f_numpy_any(self, I, a, k):
        v = self.A(I, a[0])
        if v.sh == () and v.isbool:
            return v
        ax, kn = self.axis_of(I, a, k)
        if v.cst is not NOC and v.sh == ():
            return const(bool(v.cst))
        if v.elems is not None and ax is None:
            return self.f_builtins_any(I, [I.newlist(list(
                v.elems.values()))], {})
        g = v.gv if v.isbool else (I.safe(tm.fn, "truth", v.gv)
                                   if v.gv is not None else None)
        key = self.axkey(v, ax)
        gv = None
        if g is not None:
            if tm.is_scalar(g) and key is None:
                gv = g
            else:
                gv = I.safe(tm.fn, "any", g, *(() if key is None else
                                               (("ax", key),)),
                            scalar=key is None)
        return AV(DLESS, gv, v.deps, sh=self.redshape(v, ax), isbool=True)

    def f_numpy_all(self, I, a, k):
        v = self.A(I, a[0])
        if v.elems is not None and not k and len(a) == 1:
            return self.f_builtins_all(I, [I.newlist(list(
                v.elems.values()))], {})
        if v.sh == () and v.cst is not NOC:
            return const(bool(v.cst)).copy(deps=v.deps)
        n = self.f_numpy_logical_not(I, [v], {}) if v.isbool else None
        if n is None:
            g = I.safe(tm.fn, "all", v.gv, scalar=True) \
                if v.gv is not None else None
            return AV(DLESS, g, v.deps, sh=(), isbool=True)
        r = self.f_numpy_any(I, [n] + list(a[1:]), k)
        gv = I.safe(self.not_gv, r.gv) if r.gv is not None else None
        return AV(DLESS, gv, v.deps, sh=r.sh, isbool=True)

    def f_numpy_array_equal(self, I, a, k):
        x, y = self.A(I, a[0]), self.A(I, a[1])
        gv = None
        if None not in (x.gv, y.gv):
            gv = I.safe(tm.fn, "array_equal", *sorted(
                [x.gv, y.gv], key=lambda e: tm.fmt(e, 6)), scalar=True)
        return AV(DLESS, gv, x.deps | y.deps, sh=(), isbool=True)

    f_numpy_allclose = f_numpy_array_equal

    @staticmethod
    def literal(z):
        return z.cst is not NOC or (
            z.gv is not None and not tm.symbols(z.gv))

    def f_numpy_where(self, I, a, k):
        if len(a) == 1:
            return TupV([self.f_numpy_flatnonzero(I, a, k)])
        c, x, y = [self.A(I, v) for v in a[:3]]
        if x.cst is None or y.cst is None:
            d = None
        elif DLESS in (x.dim, y.dim) and any(
                z.sh == () and z.dim == DLESS and self.literal(z)
                for z in (x, y)):
            # a placeholder, as in stores
            d = y.dim if x.dim == DLESS and self.literal(x) else x.dim
        else:
            d = self.dimcheck(I, x, y, "where")
        gv = None
        if None not in (c.gv, x.gv, y.gv):
            gv = I.safe(self.mk_ite, c.gv, x.gv, y.gv)
        return AV(d, gv, c.deps | x.deps | y.deps, isbool=x.isbool and
                  y.isbool, sh=self.bshape(
            I, c.sh, self.bshape(I, x.sh, y.sh)))

    def f_numpy_flatnonzero(self, I, a, k):
        v = self.A(I, a[0])
        if v.elems is not None and v.sh is not None and len(v.sh) == 1 and \
                all(isinstance(x, AV) and isinstance(x.cst, (int, float, bool))
                    for x in v.elems.values()):
            el = [const(q[0]) for q in sorted(v.elems) if v.elems[q].cst]
            r = AV(DLESS, None, v.deps, sh=(E(len(el)),),
                   elems={(i,): x for i, x in enumerate(el)})
            r.gv = I.gv_of(r) if el else None
            return r
        g = v.gv if v.isbool else (I.safe(tm.fn, "truth", v.gv)
                                   if v.gv is not None else None)
        gv = I.safe(tm.fn, "flatnonzero", g, integer=True) \
            if g is not None else None
        cnt = I.safe(tm.fn, "count", g, scalar=True, integer=True) \
            if g is not None else None
        isp = v.sh[0] if v.sh and len(v.sh) == 1 else None
        return AV(DLESS, gv, v.deps, sh=(cnt,), isp=isp)

    def f_numpy_nonzero(self, I, a, k):
        return TupV([self.f_numpy_flatnonzero(I, a, k)])

    def f_numpy_argwhere(self, I, a, k):
        v = self.A(I, a[0])
        return AV(DLESS, I.safe(tm.fn, "argwhere", v.gv)
                  if v.gv is not None else None, v.deps)

    def f_numpy_count_nonzero(self, I, a, k):
        v = self.A(I, a[0])
        g = v.gv if v.isbool else (I.safe(tm.fn, "truth", v.gv)
                                   if v.gv is not None else None)
        return AV(DLESS, I.safe(tm.fn, "count", g, scalar=True, integer=True)
                  if g is not None else None, v.deps, sh=())

    def f_numpy_isin(self, I, a, k):
        x, y = self.A(I, a[0]), self.A(I, a[1])
        self.dimcheck(I, x, y, "isin")
        gv = I.safe(tm.fn, "isin", x.gv, y.gv) \
            if None not in (x.gv, y.gv) else None
        return AV(DLESS, gv, x.deps | y.deps, sh=x.sh, isbool=True)

    # ----------------------------------------------------------- reductions
    def f_numpy_sum(self, I, a, k):
        v = self.A(I, a[0])
        if v.isbool and v.gv is not None:
            ax, kn = self.axis_of(I, a, k)
            if self.axkey(v, ax) is None:
                return AV(DLESS, I.safe(tm.fn, "count", v.gv, scalar=True,
                                        integer=True), v.deps, sh=())
        return self.reduce(I, "sum", [v] + list(a[1:]), k, linear=True)

    f_numpy_nansum = f_numpy_sum

    def f_numpy_mean(self, I, a, k):
        return self.reduce(I, "mean", [self.A(I, a[0])] + list(a[1:]), k,
                           linear=True)

    f_numpy_average = f_numpy_mean

    def red(nm):
        def f(self, I, a, k):
            return self.reduce(I, nm, [self.A(I, a[0])] + list(a[1:]), k)
        return f
    f_numpy_median = red("median")
    f_numpy_min = red("min")
    f_numpy_max = red("max")
    f_numpy_nanmin = red("nanmin")
    f_numpy_nanmax = red("nanmax")
    f_numpy_nanmean = red("nanmean")
    f_numpy_ptp = red("ptp")

    def f_numpy_std(self, I, a, k):
        dd = k.get("ddof")
        nm = "std"
        if isinstance(dd, AV) and dd.cst is not NOC and dd.cst != 0:
            nm = "std%s" % dd.cst
        return self.reduce(I, nm, [self.A(I, a[0])] + list(a[1:]), k)

    def f_numpy_var(self, I, a, k):
        return self.reduce(I, "var", [self.A(I, a[0])] + list(a[1:]), k,
                           dimf=lambda d: dpow(d, 2))

    def f_numpy_prod(self, I, a, k):
        v = self.A(I, a[0])
        if v.elems is not None and len(next(iter(v.elems))) == 1:
            r = None
            for x in v.elems.values():
                r = x if r is None else self.arith(I, "Mult", r, x)
            return r
        return self.reduce(I, "prod", [v] + list(a[1:]), k,
                           dimf=lambda d: d if d == DLESS else None)

    f_numpy_multiply_reduce = f_numpy_prod

    def f_numpy_percentile(self, I, a, k):
        v, q = self.A(I, a[0]), self.A(I, a[1])
        self.needdless(I, q, "percentile")
        gv = I.safe(tm.fn, "percentile", v.gv, q.gv, scalar=True) \
            if None not in (v.gv, q.gv) and not k and len(a) < 3 else None
        return AV(v.dim, gv, v.deps | q.deps, sh=q.sh)

    f_numpy_quantile = f_numpy_percentile

    def f_numpy_cumsum(self, I, a, k):
        v = self.A(I, a[0])
        return AV(v.dim, I.safe(tm.linear, "cumsum", v.gv)
                  if v.gv is not None else None, v.deps, sh=v.sh)

    def f_numpy_diff(self, I, a, k):
        v = self.A(I, a[0])
        return AV(v.dim, I.safe(tm.fn, "diff", v.gv)
                  if v.gv is not None and not k and len(a) < 2 else None,
                  v.deps, sh=None)

    def f_numpy_gradient(self, I, a, k):
        v = self.A(I, a[0])
        d = v.dim
        deps = v.deps
        g = [v.gv]
        for x in a[1:]:
            x = self.A(I, x)
            d = dmul(d, x.dim, -1)
            deps = deps | x.deps
            g.append(x.gv)
        gv = I.safe(tm.fn, "gradient", *g) if None not in g else None
        return AV(d, gv, deps, sh=v.sh)

    def argm(nm):
        def f(self, I, a, k):
            v = self.A(I, a[0])
            ax, kn = self.axis_of(I, a, k)
            key = self.axkey(v, ax)
            gv = None
            if v.gv is not None and kn:
                gv = I.safe(tm.fn, nm, v.gv, *(() if key is None else
                                               (("ax", key),)),
                            integer=True, scalar=key is None)
            isp = None
            if v.sh and v.gv is not None and v.sp != "prefix" and \
                    not self.prefixed(v.gv):
                if len(v.sh) == 1:
                    isp = v.sh[0]
                elif isinstance(key, int):
                    isp = v.sh[key]
            return AV(DLESS, gv, v.deps, sh=self.redshape(v, ax), isp=isp,
                      lo=0)
        return f
    f_numpy_argmin = argm("argmin")
    f_numpy_argmax = argm("argmax")
    f_numpy_nanargmin = argm("nanargmin")
    f_numpy_nanargmax = argm("nanargmax")

    def prefixed(self, gv):
        for at in self.array_atoms(gv, []):
            if at.kind == "fn":
                if at.name == "slice" and at.args[1] == tm.ZERO:
                    return True
                if at.name in ("rfft",):
                    return True
                if at.name == "get":
                    return True
        return False

    def f_numpy_argsort(self, I, a, k):
        v = self.A(I, a[0])
        return AV(DLESS, I.safe(tm.fn, "argsort", v.gv, integer=True)
                  if v.gv is not None else None, v.deps, sh=v.sh)

    def f_numpy_sort(self, I, a, k):
        v = self.A(I, a[0])
        if v.sh == (tm.ONE,):
            return AV(v.dim, v.gv, v.deps, sh=v.sh, elems=v.elems)
        return AV(v.dim, I.safe(tm.fn, "sort", v.gv)
                  if v.gv is not None else None, v.deps, sh=v.sh)

    def f_numpy_unique(self, I, a, k):
        v = self.A(I, a[0])
        return AV(v.dim, I.safe(tm.fn, "unique", v.gv)
                  if v.gv is not None else None, v.deps, sh=(None,))

    def f_numpy_searchsorted(self, I, a, k):
        x, y = self.A(I, a[0]), self.A(I, a[1])
        self.dimcheck(I, x, y, "searchsorted")
        gv = I.safe(tm.fn, "searchsorted", x.gv, y.gv) \
            if None not in (x.gv, y.gv) else None
        return AV(DLESS, gv, x.deps | y.deps, sh=y.sh)

    # ------------------------------------------------------ shape functions
    def f_numpy_shape(self, I, a, k):
        return self.av_attr(I, self.A(I, a[0]), "shape")

    def f_numpy_size(self, I, a, k):
        return self.av_attr(I, self.A(I, a[0]), "size")

    def f_numpy_ndim(self, I, a, k):
        return self.av_attr(I, self.A(I, a[0]), "ndim")

    def f_numpy_reshape(self, I, a, k):
        v = self.A(I, a[0])
        s = a[1] if len(a) == 2 else TupV(a[1:])
        if len(a) == 1:
            s = k.get("newshape", k.get("shape"))
        sh, d = self.shape_arg(I, s)
        if sh is not None and v.sh is not None and len(sh) == len(v.sh) and \
                all(x is not None and x == y for x, y in zip(sh, v.sh)) and \
                "order" not in k:
            return v.copy(ref=v.ref)
        gs = I.gv_of(s)
        o = k.get("order")
        if o is not None and not (isinstance(o, AV) and o.cst == "C"):
            gs = None if gs is None or I.gv_of(o) is None else \
                I.safe(tm.fn, "order", gs, I.gv_of(o))
        if sh is not None and any(x is not None and x == E(-1) for x in sh):
            if len(sh) == 1:
                if v.sh is not None and len(v.sh) == 1:
                    return v.same()
                sh = None if v.sh is None else (None,)
                if v.sh is not None and None not in v.sh:
                    t = tm.ONE
                    for x in v.sh:
                        t = t * x
                    sh = (t,)
            else:
                sh = tuple(None if x is not None and x == E(-1) else x
                           for x in sh)
        gv = None
        if v.gv is not None and v.sh is not None and sh is not None and \
                self.nd_of(v) == 1 and self.lead(sh) == len(sh) - 1:
            if sh[-1] is None:
                sh = sh[:-1] + (v.sh[-1],)
            gv = v.gv
        elif v.gv is not None and gs is not None:
            gv = I.safe(self.pw, v.gv, lambda at: tm.fn(
                "reshape", tm.of_atom(at), gs, real=at.real, pos=at.pos),
                len(v.sh) if v.sh is not None else None, ("reshape", gs))
        return self.setnd(AV(v.dim, gv, v.deps | d, v.roots, sh=sh,
                             isbool=v.isbool))

    def f_numpy_ravel(self, I, a, k):
        v = self.A(I, a[0])
        if v.sh is not None and len(v.sh) == 1:
            return v
        if self.nd_of(v) == 1:
            return AV(v.dim, v.gv, v.deps, v.roots, sh=v.sh[-1:],
                      isbool=v.isbool)
        gv = I.safe(tm.fn, "ravel", v.gv, real=tm.is_real(v.gv)) \
            if v.gv is not None else None
        sh = None
        if v.sh is not None and None not in v.sh:
            t = tm.ONE
            for x in v.sh:
                t = t * x
            sh = (t,)
        elif v.sh is not None:
            sh = (None,)
        return AV(v.dim, gv, v.deps, v.roots, sh=sh, isbool=v.isbool)

    def f_numpy_squeeze(self, I, a, k):
        v = self.A(I, a[0])
        if v.sh is not None:
            sh = tuple(s for s in v.sh if not (s is not None and s == tm.ONE))
            if len(sh) == len(v.sh) and None not in v.sh:
                return v.same()
        else:
            sh = None
        gv = v.gv
        if gv is not None and not (sh is not None and len(sh) ==
                                   len(v.sh) - self.lead(v.sh)):
            gv = I.safe(self.pw, gv, lambda at: tm.fn(
                "squeeze", tm.of_atom(at), real=at.real, pos=at.pos),
                len(v.sh) if v.sh is not None else None, ("squeeze",))
        el = None
        if v.elems is not None and sh == ():
            return next(iter(v.elems.values()))
        return AV(v.dim, gv, v.deps, v.roots, sh=sh, isbool=v.isbool)

    def f_numpy_expand_dims(self, I, a, k):
        v = self.A(I, a[0])
        ax, kn = self.axis_of(I, a, k)
        if isinstance(ax, int) and v.sh is not None:
            n = len(v.sh)
            p = ax if ax >= 0 else n + 1 + ax
            keys = [SliceV(const(None), const(None), const(None))] * p + [
                const(None)]
            return self.index_av(I, v, keys)
        gv = I.safe(tm.fn, "expand_dims", v.gv, repr(ax), real=tm.is_real(
            v.gv)) if v.gv is not None and kn else None
        return AV(v.dim, gv, v.deps, v.roots)

    def f_numpy_atleast_1d(self, I, a, k):
        v = self.A(I, a[0])
        if v.sh == ():
            return AV(v.dim, v.gv, v.deps, sh=(tm.ONE,), elems={(0,): v})
        return v

    def f_numpy_atleast_2d(self, I, a, k):
        v = self.A(I, a[0])
        if v.sh is not None and len(v.sh) == 1:
            return self.index_av(I, v, [const(None)])
        if v.sh is not None and len(v.sh) >= 2:
            return v
        return AV(v.dim, None, v.deps, v.roots)

    def viewop(self, I, nm, v, parts, sh=None, fresh=False):
        g = [p if isinstance(p, (str, int)) else I.gv_of(p) for p in parts]
        gv = None
        if v.gv is not None and all(x is not None for x in g):
            gv = I.safe(self.pw, v.gv, lambda at: tm.fn(
                nm, tm.of_atom(at), *g, real=at.real, pos=at.pos),
                len(v.sh) if v.sh is not None else None, (nm,) + tuple(g))
        deps = v.deps
        for p in parts:
            if not isinstance(p, (str, int)):
                deps = deps | I.deps_of(p)
        return self.setnd(AV(v.dim, gv, deps, E0 if fresh else v.roots,
                             sh=sh, isbool=v.isbool))

    def f_numpy_swapaxes(self, I, a, k):
        v = self.A(I, a[0])
        p = [getattr(x, "cst", None) for x in a[1:3]]
        sh = None
        if v.sh is not None and len(p) == 2 and all(
                type(x) is int and -len(v.sh) <= x < len(v.sh) for x in p):
            sh = list(v.sh)
            sh[p[0]], sh[p[1]] = sh[p[1]], sh[p[0]]
            sh = tuple(sh)
        return self.viewop(I, "swapaxes", v, a[1:3], sh=sh)

    def f_numpy_moveaxis(self, I, a, k):
        v = self.A(I, a[0])
        r = self.viewop(I, "moveaxis", v, a[1:3])
        p = [getattr(x, "cst", None) for x in a[1:3]]
        if v.sh is not None and r.sh is None and len(p) == 2 and \
                all(type(x) is int for x in p):
            n = len(v.sh)
            if all(-n <= x < n for x in p):
                sh = list(v.sh)
                sh.insert(p[1] % n, sh.pop(p[0] % n))
                r = r.copy(sh=tuple(sh), ref=r.ref)
        return r

    def f_numpy_transpose(self, I, a, k):
        v = self.A(I, a[0])
        if len(a) > 1 or "axes" in k:
            ax = a[1] if len(a) > 1 else k["axes"]
            p = [getattr(x, "cst", None) for x in I.static_iter(ax) or [ax]]
            sh = None
            if v.sh is not None and all(type(x) is int for x in p) and \
                    sorted(x % len(v.sh) for x in p) == list(
                        range(len(v.sh))):
                sh = tuple(v.sh[x] for x in p)
            return self.viewop(I, "transpose", v, [ax], sh=sh)
        return self.transpose(I, v)

    def f_numpy_broadcast_to(self, I, a, k):
        v = self.A(I, a[0])
        sh, d = self.shape_arg(I, a[1])
        return AV(v.dim, v.gv, v.deps | d, v.roots, sh=sh)

    def f_numpy_tile(self, I, a, k):
        v = self.A(I, a[0])
        sh, _ = self.shape_arg(I, a[1])
        if v.sh is not None and sh is not None and None not in v.sh + sh:
            r, d = list(sh), list(v.sh)
            r = [tm.ONE] * (len(d) - len(r)) + r
            d = [tm.ONE] * (len(r) - len(d)) + d
            sh = tuple(x * y for x, y in zip(r, d))
        else:
            sh = None
        return self.viewop(I, "tile", v, [a[1]], sh=sh, fresh=True)

    def f_numpy_repeat(self, I, a, k):
        v = self.A(I, a[0])
        return self.viewop(I, "repeat", v, list(a[1:]) + [
            k[x] for x in sorted(k)], fresh=True)

    def f_numpy_flip(self, I, a, k):
        v = self.A(I, a[0])
        if v.sh is not None and len(v.sh) == 1:
            return self.index_av(I, v, [SliceV(const(None), const(None),
                                               const(-1))])
        return self.viewop(I, "flip", v, a[1:2], sh=v.sh)

    def f_numpy_roll(self, I, a, k):
        v = self.A(I, a[0])
        s = self.A(I, a[1] if len(a) > 1 else k["shift"])
        self.needdless(I, s, "roll shift")
        ax, kn = self.axis_of(I, a, k, 2)
        if v.sh is not None and isinstance(ax, int) and ax >= 0:
            ax = ax - len(v.sh)
        if v.sh is not None and (len(v.sh) == 1 or self.nd_of(v) == 1 and
                                 ax in (None, -1)):
            ax = -1
        gv = None
        if v.gv is not None and s.gv is not None and kn:
            if s.gv.is_zero():
                gv = v.gv
            else:
                axk = ax if ax is not None else "flat"

                def f(at):
                    if at.name == "roll" and at.args[2] == axk:
                        t = at.args[1] + s.gv
                        if t.is_zero():
                            return at.args[0]
                        return tm.fn("roll", at.args[0], t, axk,
                                     real=at.real, pos=at.pos)
                    return tm.fn("roll", tm.of_atom(at), s.gv, axk,
                                 real=at.real, pos=at.pos)
                gv = I.safe(self.pw, v.gv, f,
                            self.nd_of(v), ("roll", s.gv, axk))
        return self.setnd(AV(v.dim, gv, v.deps | s.deps, sh=v.sh,
                             isbool=v.isbool))

    def fullgv(self, I, x):
        """The term of an array, with its shape if it is a constant one."""
        if x.gv is not None and x.gv.const() is not None and x.sh and \
                None not in x.sh:
            return I.safe(tm.fn, "full", x.gv, *x.sh, real=True)
        return x.gv

    def f_numpy_concatenate(self, I, a, k, nm="concatenate"):
        its = I.static_iter(a[0])
        if its is None:
            v = self.A(I, a[0])
            e = I.generic_elem(a[0])
            return AV(I.dim_of(e), I.safe(tm.fn, nm, v.gv)
                      if v.gv is not None else None, v.deps)
        its = [self.A(I, x) for x in its]
        if nm == "concatenate":
            # nothing to join from an empty list
            full = [x for x in its if not (x.sh is not None and len(
                x.sh) == 1 and x.sh[0] is not None and x.sh[0].is_zero())]
            its = full or its
        dim = ANY
        for x in its:
            dim = self.dimcheck(I, AV(dim), x, "concatenation")
        deps = frozenset().union(*[x.deps for x in its]) if its else E0
        ax, kn = self.axis_of(I, a, k)
        if all(x.elems is not None and len(x.sh) == 1 for x in its):
            el = {}
            for x in its:
                for q in sorted(x.elems):
                    el[(len(el),)] = x.elems[q]
            r = AV(dim, None, deps, sh=(E(len(el)),), elems=el)
            r.gv = I.gv_of(r)
            return r
        g = [x.gv for x in its]
        if any(x.sh and len(x.sh) >= 1 for x in its):
            g = [self.fullgv(I, x) for x in its]
        gv = None
        if None not in g:
            gv = I.safe(tm.fn, nm, *g, *(() if ax in (None, 0) else
                                         (("ax", ax),)),
                        real=all(tm.is_real(x) for x in g))
        sh = None
        if nm == "concatenate" and all(x.sh is not None and len(x.sh) == 1 and
                                       x.sh[0] is not None for x in its):
            t = tm.ZERO
            for x in its:
                t = t + x.sh[0]
            sh = (t,)
        n = [x.sh for x in its]
        if nm == "concatenate" and sh is None and its and None not in n and \
                (ax is None and kn is not False or isinstance(ax, int)):
            m = len(n[0])
            i = (ax or 0) + (m if (ax or 0) < 0 else 0)
            if m > 1 and 0 <= i < m and all(len(x) == m for x in n):
                w = [x[i] for x in n]
                rest = [next((x[j] for x in n if x[j] is not None), None)
                        for j in range(m)]
                rest[i] = None
                if None not in w:
                    rest[i] = tm.ZERO
                    for x in w:
                        rest[i] = rest[i] + x
                sh = tuple(rest)
        if nm == "stackax" and n and None not in n and len(set(map(
                len, n))) == 1:
            i = 0 if ax is None else ax
            if i < 0:
                i += len(n[0]) + 1
            if 0 <= i <= len(n[0]):
                sh = n[0][:i] + (E(len(n)),) + n[0][i:]
        elif nm in ("vstack", "column_stack") and n and all(
                x is not None and len(x) == 1 for x in n):
            sh = (E(len(n)), n[0][0])
            sh = sh if nm == "vstack" else sh[::-1]
        return self.setnd(AV(dim, gv, deps, sh=sh,
                             isbool=all(x.isbool for x in its)))

    def f_numpy_hstack(self, I, a, k):
        its = I.static_iter(a[0])
        if its is not None and all(self.A(I, x).sh is not None and
                                   len(self.A(I, x).sh) <= 1 for x in its):
            its = [self.f_numpy_atleast_1d(I, [x], {}) for x in its]
            return self.f_numpy_concatenate(I, [TupV(its)], {})
        r = self.f_numpy_concatenate(I, a, k, "hstack")
        if its is not None and isinstance(r, AV) and r.sh is None:
            sh = [self.A(I, x).sh for x in its]
            if sh and None not in sh and len(set(map(len, sh))) == 1 and \
                    len(sh[0]) > 1 and all(x[1] is not None for x in sh):
                n = tm.ZERO
                for x in sh:
                    n = n + x[1]
                r = r.copy(sh=sh[0][:1] + (n,) + sh[0][2:])
        return r

    def f_numpy_vstack(self, I, a, k):
        return self.f_numpy_concatenate(I, a, k, "vstack")

    def f_numpy_column_stack(self, I, a, k):
        return self.f_numpy_concatenate(I, a, k, "column_stack")

    def f_numpy_stack(self, I, a, k):
        return self.f_numpy_concatenate(I, a, k, "stackax")

    def f_numpy_append(self, I, a, k):
        x = [self.f_numpy_atleast_1d(I, [v], {}) for v in a[:2]]
        return self.f_numpy_concatenate(I, [TupV(x)], k)

    def f_numpy_insert(self, I, a, k):
        v, i, x = self.A(I, a[0]), self.A(I, a[1]), self.A(I, a[2])
        d = self.dimcheck(I, v, x, "insert")
        g = [v.gv, i.gv, x.gv]
        gv = I.safe(tm.fn, "insert", *g) if None not in g else None
        sh = None
        if v.sh is not None and len(v.sh) == 1 and v.sh[0] is not None and \
                x.sh == () and i.sh == ():
            sh = (v.sh[0] + tm.ONE,)
        return AV(d, gv, v.deps | i.deps | x.deps, sh=sh)

    def f_numpy_delete(self, I, a, k):
        v, i = self.A(I, a[0]), self.A(I, a[1])
        g = [v.gv, i.gv]
        gv = I.safe(tm.fn, "delete", *g) if None not in g else None
        return AV(v.dim, gv, v.deps | i.deps,
                  sh=(None,) if v.sh and len(v.sh) == 1 else None)

    def f_numpy_pad(self, I, a, k):
        v = self.A(I, a[0])
        w = a[1] if len(a) > 1 else k.get("pad_width")
        m = a[2] if len(a) > 2 else k.get("mode")
        if v.sh is not None and len(v.sh) == 1 and not (
                set(k) - {"pad_width", "mode"}) and (m is None or isinstance(
                    m, AV) and m.cst == "constant"):
            w = [w, w] if isinstance(w, AV) and w.sh == () else \
                I.static_iter(w)
            if w is not None and len(w) == 2 and all(
                    isinstance(x, AV) and x.sh == () for x in w):
                z = [self.f_numpy_zeros(I, [x], {}) for x in w]
                z = [x.copy(dim=v.dim) for x in z]
                p = [z[0], v, z[1]]
                p = [x for x, y in zip(p, (w[0], None, w[1]))
                     if y is None or y.cst is NOC or y.cst != 0]
                return self.f_numpy_concatenate(I, [TupV(p)], {})
        parts = list(a[1:]) + [k[x] for x in sorted(k)]
        return self.viewop(I, "pad", v, parts, fresh=True)

    def f_numpy_ix_(self, I, a, k):
        r = []
        for x in a:
            v = self.A(I, x)
            if v.sh is not None and len(v.sh) != 1:
                I.ev("indexerr", "np.ix_ of an array of %d dimensions" %
                     len(v.sh))
            if not v.isbool:
                v = AV(v.dim, v.gv, v.deps, v.roots, sh=v.sh, elems=v.elems,
                       isp=v.isp, sp="ix")
            r.append(v)
        return TupV(r)

    def f_numpy_split(self, I, a, k):
        v = self.A(I, a[0])
        return TopV(v.deps, v.roots)

    # in-place library functions
    def inpl(nm):
        def f(self, I, a, k):
            v = a[0]
            if isinstance(v, AV):
                parts = [x for x in a[1:]]
                g = [I.gv_of(x) for x in parts]
                gv = None
                if v.gv is not None and None not in g:
                    gv = I.safe(tm.fn, nm, v.gv, *g)
                deps = v.deps
                for x in parts:
                    deps = deps | I.deps_of(x)
                I.mutate(v, v.copy(gv=gv, deps=deps, elems=None, cst=NOC),
                         "numpy.%s" % nm)
            elif isinstance(v, TopV) and v.roots:
                I.ev("mutate", "numpy.%s modifies a caller's object" % nm,
                     {"roots": v.roots, "how": nm})
            return const(None)
        return f
    f_numpy_copyto = inpl("copyto")
    f_numpy_put = inpl("put")
    f_numpy_place = inpl("place")
    f_numpy_putmask = inpl("putmask")
    f_numpy_fill_diagonal = inpl("fill_diagonal")
    f_numpy_random_shuffle = inpl("shuffle")

    def f_random_shuffle(self, I, a, k):
        if isinstance(a[0], RefV):
            I.container_mut(a[0], "random.shuffle")
            r = I.rec(a[0])
            if isinstance(r, ListRec):
                e = I.generic_elem(a[0])
                if isinstance(e, AV):
                    e = e.copy(gv=None, cst=NOC)
                r.items, r.elem, r.gv = None, e, None
        elif isinstance(a[0], AV):
            I.mutate(a[0], a[0].copy(gv=None, elems=None), "random.shuffle")
        return const(None)

    # ------------------------------------------------------- linear algebra
    def f_numpy_dot(self, I, a, k):
        return self.matmul(I, self.A(I, a[0]), self.A(I, a[1]), True)

    def f_numpy_matmul(self, I, a, k):
        return self.matmul(I, self.A(I, a[0]), self.A(I, a[1]))

    def f_numpy_vdot(self, I, a, k):
        return self.matmul(I, self.f_numpy_conj(I, [a[0]], {}),
                           self.A(I, a[1]), True)

    def f_numpy_inner(self, I, a, k):
        return self.matmul(I, self.A(I, a[0]), self.A(I, a[1]), True)

    def f_numpy_outer(self, I, a, k):
        x, y = self.A(I, a[0]), self.A(I, a[1])
        gv = I.safe(tm.fn, "outer", x.gv, y.gv) \
            if None not in (x.gv, y.gv) else None
        return AV(dmul(x.dim, y.dim), gv, x.deps | y.deps,
                  sh=(x.sh[0], y.sh[0]) if x.sh and y.sh else None)

    def matmul(self, I, x, y, dot=False):
        deps = x.deps | y.deps
        if x.sh == () or y.sh == ():
            if dot:
                return self.arith(I, "Mult", x, y)
        if x.sp and isinstance(x.sp, tuple) and x.sp[0] == "jacT" and \
                y.sp and isinstance(y.sp, tuple) and y.sp[0] == "jac":
            _, dims, rdim = y.sp
            n = len(dims)
            el = {(i, j): AV(dmul(dmul(rdim, rdim), dmul(dims[i], dims[j]),
                                  -1), None, deps, sh=())
                  for i in range(n) for j in range(n)}
            return AV(None, I.safe(tm.fn, "matmul", x.gv, y.gv)
                      if None not in (x.gv, y.gv) else None, deps,
                      sh=(E(n), E(n)), elems=None,
                      sp=("jtj", dims, rdim))
        if not dot and x.sh and y.sh and len(x.sh) > 1 and len(y.sh) > 1 and \
                x.sh[-1] == tm.ONE and y.sh[-2] == tm.ONE and \
                None in (x.elems, y.elems):
            return self.arith(I, "Mult", x, y)     # an outer product
        ex, ey = x.elems, y.elems
        if ex is not None and ey is None:
            ey = self.split(I, y)
        elif ey is not None and ex is None:
            ex = self.split(I, x)
        if ex is not None and ey is not None:
            nx, ny = len(next(iter(ex))), len(next(iter(ey)))

            def prod(rows, cols, inner, gx, gy, sh):
                el = {}
                for i in rows:
                    for j in cols:
                        t = None
                        for q in inner:
                            p = self.arith(I, "Mult", gx(i, q), gy(q, j))
                            t = p if t is None else self.arith(I, "Add", t, p)
                        key = ()
                        if nx == 2:
                            key += (i,)
                        if ny == 2:
                            key += (j,)
                        el[key] = t
                return el
            mi = 1 + max(k[-1] for k in ex)
            mj = 1 + max(k[0] for k in ey)
            if mi != mj:
                I.ev("shape", "matrix product of inner sizes %d and %d" % (
                    mi, mj))
                return AV(None, None, deps)
            rows = range(1 + max(k[0] for k in ex)) if nx == 2 else [None]
            cols = range(1 + max(k[1] for k in ey)) if ny == 2 else [None]
            el = prod(rows, cols, range(mi),
                      lambda i, q: ex[(i, q)] if nx == 2 else ex[(q,)],
                      lambda q, j: ey[(q, j)] if ny == 2 else ey[(q,)], None)
            if nx == 1 and ny == 1:
                return el[()]
            sh = (() if nx == 1 else (E(len(rows)),)) + (
                () if ny == 1 else (E(len(cols)),))
            r = AV(self.joindims(I, list(el.values())), None, deps, sh=sh,
                   elems=el)
            r.gv = I.gv_of(r)
            return r
        if x.sh is not None and y.sh is not None and len(x.sh) == 1 and \
                len(y.sh) == 1:
            p = self.arith(I, "Mult", x, y)
            return self.f_numpy_sum(I, [p], {})
        if x.sh and y.sh:
            m, n = x.sh[-1], y.sh[-2 if len(y.sh) > 1 else 0]
            if m is not None and n is not None:
                self.lengths(I, m, n)
        sh = None
        if x.sh is not None and y.sh is not None:
            if len(x.sh) == 2 and len(y.sh) == 1:
                sh = (x.sh[0],)
            elif len(x.sh) == 1 and len(y.sh) == 2:
                sh = (y.sh[1],)
            elif len(x.sh) == 2 and len(y.sh) == 2:
                sh = (x.sh[0], y.sh[1])
            elif len(x.sh) == len(y.sh) > 2:
                b = [p if q == tm.ONE else q if p == tm.ONE or p == q else
                     None for p, q in zip(x.sh[:-2], y.sh[:-2])]
                sh = tuple(b) + (x.sh[-2], y.sh[-1])
        gv = None
        if None not in (x.gv, y.gv):
            g = [self.fullgv(I, v) for v in (x, y)]
            gv = I.safe(tm.fn, "matmul", *g, real=tm.is_real(x.gv)
                        and tm.is_real(y.gv))
        return AV(dmul(x.dim, y.dim), gv, deps, sh=sh)

    def f_numpy_einsum(self, I, a, k):
        spec = self.A(I, a[0]).cst
        ops = [self.A(I, x) for x in a[1:]]
        d = DLESS
        deps = E0
        for x in ops:
            d = dmul(d, x.dim)
            deps = deps | x.deps
        g = [x.gv for x in ops]
        if isinstance(spec, str):
            s = spec.replace(" ", "")
            if s in ("ij,ij->i",) and len(ops) == 2:
                p = self.arith(I, "Mult", ops[0], ops[1])
                return self.f_numpy_sum(I, [p, const(-1)], {})
            if s in ("ij,ij->j",) and len(ops) == 2:
                p = self.arith(I, "Mult", ops[0], ops[1])
                return self.f_numpy_sum(I, [p, const(0)], {})
            if s in ("i,i->", "i,i") and len(ops) == 2:
                return self.matmul(I, ops[0], ops[1], True)
        gv = None
        if None not in g and isinstance(spec, str):
            gv = I.safe(tm.fn, "einsum", spec, *g, real=all(
                tm.is_real(x) for x in g))
        return AV(d, gv, deps)

    def f_numpy_diag(self, I, a, k):
        v = self.A(I, a[0])
        if v.elems is not None:
            nd = len(next(iter(v.elems)))
            if nd == 2:
                n = min(1 + max(q[i] for q in v.elems) for i in (0, 1))
                el = {(i,): v.elems[(i, i)] for i in range(n)}
            else:
                n = len(v.elems)
                el = {(i, j): v.elems[(i,)] if i == j else const(0)
                      for i in range(n) for j in range(n)}
            r = AV(self.joindims(I, list(el.values())), None, v.deps,
                   sh=(E(n),) * (1 if nd == 2 else 2), elems=el)
            r.gv = I.gv_of(r)
            return r
        if v.sp and isinstance(v.sp, tuple) and v.sp[0] == "cov":
            return self.covdiag(I, v)
        if v.sh is not None and len(v.sh) == 2 and all(
                x is not None and x == tm.ONE for x in v.sh):
            return AV(v.dim, v.gv, v.deps, E0, sh=(tm.ONE,))
        gv = I.safe(tm.fn, "diag", v.gv, real=tm.is_real(v.gv)) \
            if v.gv is not None else None
        sh = None
        if v.sh is not None:
            sh = (v.sh[0],) if len(v.sh) == 2 else (v.sh[0], v.sh[0])
        return AV(v.dim, gv, v.deps, E0, sh=sh)

    def covdiag(self, I, v):
        dims, rdim = v.sp[1], v.sp[2]
        el = {}
        for i, d in enumerate(dims):
            g = I.safe(tm.fn, "covd", v.gv, i, pos=True, scalar=True) \
                if v.gv is not None else None
            el[(i,)] = AV(dmul(dmul(d, d), dmul(rdim, rdim), -1)
                          if rdim is not None and d is not None else None,
                          g, v.deps, sh=())
        return AV(self.joindims(I, list(el.values())), None, v.deps,
                  sh=(E(len(el)),), elems=el)

    f_numpy_diagonal = f_numpy_diag

    def f_numpy_trace(self, I, a, k):
        v = self.A(I, a[0])
        return AV(v.dim, I.safe(tm.fn, "trace", v.gv, scalar=True)
                  if v.gv is not None else None, v.deps)

    def matinv(self, I, a, nm):
        v = self.A(I, a[0])
        if v.sh is not None and len(v.sh) < 2:
            I.ev("indexerr", "the inverse of an array of %d dimension%s" % (
                len(v.sh), "" if len(v.sh) == 1 else "s"))
        if v.sp and isinstance(v.sp, tuple) and v.sp[0] == "jtj":
            return AV(None, I.safe(tm.fn, "inv", v.gv)
                      if v.gv is not None else None, v.deps, sh=v.sh,
                      sp=("cov",) + v.sp[1:])
        if v.elems is not None and len(next(iter(v.elems))) == 2:
            n = 1 + max(q[0] for q in v.elems)
            e = v.elems
            if n == 2:
                det = self.arith(I, "Sub",
                                 self.arith(I, "Mult", e[(0, 0)], e[(1, 1)]),
                                 self.arith(I, "Mult", e[(0, 1)], e[(1, 0)]))
                neg = lambda x: self.unop(I, ast.USub(), x)
                el = {(0, 0): e[(1, 1)], (0, 1): neg(e[(0, 1)]),
                      (1, 0): neg(e[(1, 0)]), (1, 1): e[(0, 0)]}
                el = {q: self.arith(I, "Div", x, det) for q, x in el.items()}
                r = AV(None, None, v.deps, sh=v.sh, elems=el)
                r.dim = self.joindims(I, list(el.values()))
                r.gv = I.gv_of(r)
                return r
        gv = I.safe(tm.fn, "inv", v.gv) if v.gv is not None else None
        return AV(dpow(v.dim, -1), gv, v.deps, sh=v.sh)

    def f_numpy_linalg_inv(self, I, a, k):
        return self.matinv(I, a, "inv")

    def f_numpy_linalg_pinv(self, I, a, k):
        return self.matinv(I, a, "pinv")

    def f_numpy_linalg_solve(self, I, a, k):
        return self.matmul(I, self.matinv(I, a[:1], "inv"),
                           self.A(I, a[1]), True)

    def f_numpy_linalg_norm(self, I, a, k):
        v = self.A(I, a[0])
        return AV(v.dim, I.safe(tm.fn, "norm", v.gv, scalar=True, pos=True)
                  if v.gv is not None else None, v.deps, sh=())

    def f_numpy_trapz(self, I, a, k):
        y = self.A(I, a[0])
        x = k.get("x", a[1] if len(a) > 1 else None)
        dx = k.get("dx", a[2] if len(a) > 2 else None)
        d = y.dim
        deps = y.deps
        extra = ()
        gvok = True
        scale = None
        if x is not None and not (isinstance(x, AV) and x.cst is None):
            x = self.A(I, x)
            d = dmul(d, x.dim)
            deps = deps | x.deps
            extra = (x.gv,)
            gvok = x.gv is not None
        elif dx is not None:
            dx = self.A(I, dx)
            d = dmul(d, dx.dim)
            deps = deps | dx.deps
            scale = dx.gv
            gvok = scale is not None
        ax, kn = self.axis_of(I, [], k)
        if ax is None:
            ax = -1
        key = self.axkey(y, ax)
        gv = None
        if gvok and kn and y.gv is not None and (
                y.sh is not None or ax == -1) and (
                not extra or y.sh is not None and len(y.sh) == 1):
            def f():
                full = y.sh is None or key is None
                more = () if full else (("ax", key),)
                if full and tm.is_scalar(y.gv):
                    # a constant array
                    if extra:
                        g = y.gv * self.ends_of(I, x)
                    elif y.sh is None:
                        return None
                    else:
                        g = y.gv * (y.sh[0] - tm.ONE)
                elif full and y.sh is not None:
                    g = self.trap_full(I, y, x if extra else None)
                elif y.sh is None:
                    g = y.gv if len(y.gv.t) < 2 else tm.fn(
                        "bc", y.gv, real=tm.is_real(y.gv), scalar=False)
                    g = tm.linear("trapz", g, ("ax", -1))
                else:
                    g = tm.linear("trapz", self.whole(y), *(extra + more),
                                  scalar=full)
                return g if scale is None else g * scale
            gv = I.safe(f)
        return AV(d, gv, deps, sh=self.redshape(y, ax))

    def ends_of(self, I, x):
        """Last minus first element."""
        return I.gv_of(self.index(I, x, [const(-1)])) - I.gv_of(
            self.index(I, x, [const(0)]))

    def trap_full(self, I, y, x):
        """Trapezoidal sum over all of a one-dimensional array."""
        extra = () if x is None else (x.gv,)
        a, b = {}, {}
        for m, c in y.gv.t.items():
            d = a if all(tm.T.atoms[i].scalar for i, _ in m) else b
            d[m] = c
        r = tm.linear("trapz", tm.Expr(b), *extra, scalar=True) if b \
            else tm.ZERO
        if a:
            r = r + tm.Expr(a) * (y.sh[0] - tm.ONE if x is None
                                  else self.ends_of(I, x))
        return r

    def f_numpy_interp(self, I, a, k):
        x, xp, fp = [self.A(I, v) for v in a[:3]]
        self.dimcheck(I, x, xp, "interpolation abscissa")
        g = [x.gv, xp.gv, fp.gv]
        deps = x.deps | xp.deps | fp.deps
        kw = dict(zip(("left", "right", "period"), a[3:]))
        kw.update(k)
        for q in ("left", "right", "period"):
            if q in kw and not (isinstance(kw[q], AV) and
                                kw[q].cst is None):
                v = self.A(I, kw[q])
                g += [q, v.gv]
                deps = deps | v.deps
        gv = I.safe(tm.fn, "interp", *g) if None not in g else None
        return AV(fp.dim, gv, deps, sh=x.sh)

    def f_scipy_interpolate_interp1d(self, I, a, k):
        return BoundV(TupV([self.A(I, a[0]), self.A(I, a[1])]),
                      "__interp__", dict(k))

    f_scipy_interpolate_InterpolatedUnivariateSpline = \
        f_scipy_interpolate_interp1d
    f_scipy_interpolate_CubicSpline = f_scipy_interpolate_interp1d

    def f_numpy_cov(self, I, a, k):
        v = self.A(I, a[0])
        gv = I.safe(tm.fn, "cov", v.gv) if v.gv is not None else None
        sh = None
        if v.sh is not None and len(v.sh) == 2:
            sh = (v.sh[0], v.sh[0])
        elif v.sh is not None and len(v.sh) == 1:
            sh = ()
        return AV(dpow(v.dim, 2), gv, v.deps, sh=sh)

    def f_numpy_corrcoef(self, I, a, k):
        v = self.A(I, a[0])
        gv = I.safe(tm.fn, "corrcoef", v.gv) if v.gv is not None else None
        sh = None
        if v.sh is not None and len(v.sh) == 2:
            sh = (v.sh[0], v.sh[0])
        return AV(DLESS, gv, v.deps, sh=sh)

    def f_numpy_polyfit(self, I, a, k):
        x, y = self.A(I, a[0]), self.A(I, a[1])
        deg = self.A(I, a[2] if len(a) > 2 else k["deg"])
        deps = x.deps | y.deps | deg.deps
        if isinstance(deg.cst, int) and 0 <= deg.cst <= 6:
            n = deg.cst + 1
            g = None
            w, cov = k.get("w"), k.get("cov")
            if isinstance(w, AV) and w.cst is None:
                w = None
            if isinstance(cov, AV) and cov.cst is not NOC and not cov.cst:
                cov = None
            if set(k) - {"w", "cov", "deg"} or len(a) > 3:
                for q in sorted(k):
                    deps = deps | I.deps_of(k[q])
                w = cov = TopV(deps)
            if w is not None or cov is not None:
                nm = "cfx"
                deps = deps | I.deps_of(w) | I.deps_of(cov)
                g = self.weighted(I, x, y, n, w, cov)
            elif None not in (x.gv, y.gv):
                nm = "item"
                g = I.safe(tm.fn, "polyfit", x.gv, y.gv, deg.cst)
            el = {}
            for i in range(n):
                p = deg.cst - i
                el[(i,)] = AV(dmul(y.dim, dpow(x.dim, p), -1),
                              I.safe(tm.fn, nm, g, i, scalar=True)
                              if g is not None else None, deps, sh=())
            r = AV(self.joindims(I, list(el.values())), None, deps,
                   sh=(E(n),), elems=el)
            r.gv = I.gv_of(r)
            if cov is not None:
                if g is None:
                    return TupV([r, AV(None, None, deps)])
                c = AV(None, None, deps, sh=(E(n), E(n)), elems={
                    (i, j): AV(None, I.safe(
                        tm.fn, "cfcov", g, min(i, j), max(i, j), scalar=True,
                        pos=i == j), deps, sh=())
                    for i in range(n) for j in range(n)})
                c.gv = I.gv_of(c)
                return TupV([r, c])
            return r
        return AV(None, None, deps)

    def weighted(self, I, x, y, n, w, cov):
        """The term of a weighted polynomial fit, as a curve fit."""
        if isinstance(w, TopV) or None in (x.gv, y.gv):
            return None
        m = None
        for i in range(n):
            p = AV(None, tm.sym("fitx%d" % i), x.deps, sh=())
            m = p if m is None else self.arith(I, "Add", self.arith(
                I, "Mult", m, AV(None, x.gv, x.deps, sh=x.sh)), p)
        if n == 1:
            return None
        g = [x.gv, y.gv, tm.sym("poly%d" % n)]
        if isinstance(cov, AV) and cov.cst == "unscaled":
            g += ["absolute_sigma", tm.ONE]
        elif isinstance(cov, AV) and cov.cst is NOC:
            return None
        g += ["model", m.gv]
        if w is not None:
            s = self.arith(I, "Div", const(1), self.A(I, w))
            g += ["sigma", s.gv]
        return I.safe(tm.fn, "curvefit", *g) if None not in g else None

    def f_numpy_poly1d(self, I, a, k):
        p = self.A(I, a[0])
        if p.elems is not None and len(a) == 1 and not k:
            return BoundV(TupV([p]), "__poly__")
        return AV(None, None, p.deps)

    def f_numpy_polyval(self, I, a, k):
        p, x = self.A(I, a[0]), self.A(I, a[1])
        if p.elems is not None:
            r = None
            for q in sorted(p.elems):
                r = p.elems[q] if r is None else self.arith(
                    I, "Add", self.arith(I, "Mult", r, x), p.elems[q])
            return r
        return AV(None, None, p.deps | x.deps, sh=x.sh)

    def f_numpy_histogram(self, I, a, k):
        v = self.A(I, a[0])
        parts = [v] + [self.A(I, x) for x in a[1:]] + [
            self.A(I, k[x]) for x in sorted(k)]
        deps = frozenset().union(*[p.deps for p in parts])
        g = [p.gv for p in parts]
        gv = I.safe(tm.fn, "histogram", *g) if None not in g else None
        return TupV([AV(DLESS, I.safe(tm.fn, "item", gv, 0)
                        if gv is not None else None, deps, sh=(None,)),
                     AV(v.dim, I.safe(tm.fn, "item", gv, 1)
                        if gv is not None else None, deps, sh=(None,))])

    # ----------------------------------------------------------- scipy bits
    def f_scipy_signal_butter(self, I, a, k):
        parts = [self.A(I, x) for x in a]
        for x in parts[:2]:
            if "fs" not in k:
                self.needdless(I, x, "normalised cutoff frequency")
        if "fs" in k and len(parts) > 1:
            self.dimcheck(I, parts[1], self.A(I, k["fs"]), "butter cutoff")
        deps = frozenset().union(*[I.deps_of(p) for p in parts +
                                   list(k.values())])
        names = ("N", "Wn", "btype", "analog", "output", "fs")
        kw = dict(zip(names, parts))
        for x in k:
            kw[x] = self.A(I, k[x])
        fsv = kw.pop("fs", None)
        if fsv is not None and fsv.cst is not None and "Wn" in kw:
            # the cutoff in units of the Nyquist frequency
            kw["Wn"] = self.arith(I, "Div", kw["Wn"], self.arith(
                I, "Div", fsv, const(2)))
        if "btype" in kw and kw["btype"].cst in ("low", "lowpass", "lp"):
            del kw["btype"]
        if "output" in kw and kw["output"].cst == "ba":
            del kw["output"]
        if "analog" in kw and kw["analog"].cst is False:
            del kw["analog"]
        g = [kw[x].gv for x in ("N", "Wn") if x in kw]
        for x in sorted(kw):
            if x not in ("N", "Wn"):
                g += [x, self.opt(kw[x])]
        gv = I.safe(tm.fn, "butter", *g) if None not in g else None
        return TupV([AV(DLESS, I.safe(tm.fn, "item", gv, i)
                        if gv is not None else None, deps, sh=(None,))
                     for i in range(2)])

    def f_scipy_signal_filtfilt(self, I, a, k, nm="filtfilt"):
        b, c, x = [self.A(I, v) for v in a[:3]]
        deps = b.deps | c.deps | x.deps
        names = ("axis", "padtype", "padlen", "method", "irlen")
        kw = dict(zip(names, [self.A(I, v) for v in a[3:]]))
        for q in k:
            kw[q] = self.A(I, k[q])
            deps = deps | I.deps_of(kw[q])
        if "axis" in kw and x.sh is not None and isinstance(
                kw["axis"].cst, int) and kw["axis"].cst % len(x.sh) == \
                len(x.sh) - 1:
            del kw["axis"]
        for q, d in (("padtype", "odd"), ("padlen", None), ("method", "pad"),
                     ("irlen", None)):
            if q in kw and kw[q].cst == d:
                del kw[q]
        g = [b.gv, c.gv, x.gv]
        for q in sorted(kw):
            g += [q, self.opt(kw[q])]
        gv = I.safe(tm.fn, nm, *g) if None not in g else None
        return AV(x.dim, gv, deps, sh=x.sh)

    def opt(self, v):
        """An option of a library call as an argument of its term."""
        if v.cst is not NOC and not isinstance(v.cst, (list, dict)):
            return repr(v.cst)
        return v.gv

    def f_scipy_signal_lfilter(self, I, a, k):
        return self.f_scipy_signal_filtfilt(I, a, k, "lfilter")

    def f_scipy_signal_savgol_filter(self, I, a, k):
        x = self.A(I, a[0])
        for w in a[1:]:
            self.needdless(I, self.A(I, w), "savgol parameter")
        deps = x.deps
        for w in a[1:]:
            deps = deps | I.deps_of(w)
        g = [x.gv] + [I.gv_of(w) for w in a[1:]]
        gv = I.safe(tm.fn, "savgol", *g) if None not in g else None
        return AV(x.dim, gv, deps, sh=x.sh)

    def f_scipy_signal_resample_poly(self, I, a, k):
        x = self.A(I, a[0])
        parts = [self.A(I, w) for w in a[1:3]]
        for w in parts:
            self.needdless(I, w, "resampling factor")
        g = [x.gv] + [w.gv for w in parts] + [I.gv_of(k[q])
                                              for q in sorted(k)]
        gv = I.safe(tm.fn, "resample_poly", *g) if None not in g else None
        return AV(x.dim, gv, x.deps | parts[0].deps | parts[1].deps,
                  sh=None)

    def conv(default, corr):
        def f(self, I, a, k):
            x, y = self.A(I, a[0]), self.A(I, a[1])
            mode = a[2] if len(a) > 2 else k.get("mode", const(default))
            mode = mode.cst if isinstance(mode, AV) else NOC
            deps = x.deps | y.deps
            if corr:
                y = self.f_numpy_conj(I, [y], {})
                y = self.index_av(I, y, [SliceV(const(None), const(None),
                                                const(-1))])
            gv = None
            if x.gv is not None and y.gv is not None and isinstance(
                    mode, str) and "axes" not in k and len(a) < 4:
                # the order of the arguments does not matter in full mode
                nm = "fftconvolve" if mode == "full" or not corr else \
                    "correlate"
                gv = I.safe(tm.fn, nm, x.gv, y.gv, mode)
            sh = None
            if mode == "same" and x.sh is not None:
                sh = x.sh
            if mode == "full" and x.sh and y.sh and len(x.sh) == 1 and \
                    len(y.sh) == 1 and None not in (x.sh[0], y.sh[0]):
                sh = (x.sh[0] + y.sh[0] - tm.ONE,)
            return AV(dmul(x.dim, y.dim), gv, deps, sh=sh)
        return f
    f_scipy_signal_fftconvolve = conv("full", False)
    f_numpy_convolve = conv("full", False)
    f_numpy_correlate = conv("valid", True)
    f_scipy_signal_convolve = conv("full", False)
    f_scipy_signal_correlate = conv("full", True)

    def f_scipy_signal_csd(self, I, a, k):
        x, y = self.A(I, a[0]), self.A(I, a[1])
        fs = self.A(I, k.get("fs", a[2] if len(a) > 2 else const(1.0)))
        deps = x.deps | y.deps | fs.deps
        for q in k:
            deps = deps | I.deps_of(k[q])
        g = [x.gv, y.gv] + [v for q in sorted(k) for v in
                            (q, I.gv_of(k[q]))]
        gv = I.safe(tm.fn, "csd", *g) if None not in g else None
        n = I.safe(tm.fn, "csdlen", gv, integer=True, scalar=True) \
            if gv is not None else None
        return TupV([AV(fs.dim, I.safe(tm.fn, "item", gv, 0)
                        if gv is not None else None, deps, sh=None),
                     AV(dmul(dmul(x.dim, y.dim), fs.dim, -1),
                        I.safe(tm.fn, "item", gv, 1, real=False)
                        if gv is not None else None, deps, sh=None)])

    def f_scipy_ndimage_shift(self, I, a, k):
        x, n = self.A(I, a[0]), self.A(I, a[1])
        self.needdless(I, n, "shift in bins")
        deps = x.deps | n.deps
        for q in list(a[2:]) + list(k.values()):
            deps = deps | I.deps_of(q)
        kw = dict(zip(("output", "order", "mode", "cval", "prefilter"),
                      [self.A(I, q) for q in a[2:]]))
        for q in k:
            kw[q] = self.A(I, k[q])
        out = k.get("output", a[2] if len(a) > 2 else None)
        dt = self.dtype({"dtype": out} if out is not None else {}, [], 9,
                        x.dt)
        kw.pop("output", None)
        order = kw.pop("order", const(3))
        mode = kw.pop("mode", const("constant"))
        cval = kw.pop("cval", const(0.0))
        g = [x.gv, n.gv, self.opt(order), self.opt(mode), cval.gv]
        for q, d in (("prefilter", True),):
            if q in kw and kw[q].cst != d:
                g += [q, self.opt(kw[q])]
        gv = I.safe(tm.fn, "ndshift", *g) if None not in g else None
        r = AV(x.dim, gv, deps, sh=x.sh)
        # the result has the type of the input
        self.lossy(I, dt, r)
        if I.isnan(cval):
            self.lossy(I, dt, cval)
        r.dt = dt
        return r

    def f_numpy_ma_array(self, I, a, k):
        x = self.A(I, a[0])
        g = [x.gv] + [v for q in sorted(k) for v in (q, I.gv_of(k[q]))]
        deps = x.deps
        for q in k.values():
            deps = deps | I.deps_of(q)
        gv = I.safe(tm.fn, "maskedarr", *g) if None not in g else None
        roots = x.roots
        return AV(x.dim, gv, deps, roots, sh=x.sh)

    f_numpy_ma_masked_array = f_numpy_ma_array
    f_numpy_ma_MaskedArray = f_numpy_ma_array

    def f_scipy_stats_skew(self, I, a, k):
        v = self.A(I, a[0])
        return AV(DLESS, I.safe(tm.fn, "skew", v.gv, scalar=True)
                  if v.gv is not None else None, v.deps, sh=())

    def normfn(nm):
        def f(self, I, a, k):
            parts = [self.A(I, x) for x in a]
            kk = {q: self.A(I, k[q]) for q in k}
            if len(parts) > 1:
                for p in parts[1:]:
                    self.dimcheck(I, parts[0], p, nm)
            for p in kk.values():
                self.dimcheck(I, parts[0], p, nm)
            if len(parts) + len(kk) == 1:
                self.needdless(I, parts[0], nm)
            deps = frozenset().union(*[p.deps for p in parts + list(
                kk.values())])
            g = [p.gv for p in parts] + [kk[q].gv for q in sorted(kk)]
            gv = I.safe(tm.fn, nm, *g, scalar=all(
                x is not None and tm.is_scalar(x) for x in g)) \
                if None not in g else None
            d = DLESS
            if nm == "norm.pdf" and len(parts) + len(kk) > 1:
                d = dpow(parts[0].dim, -1)
            return AV(d, gv, deps, sh=parts[0].sh)
        return f
    f_scipy_stats_norm_pdf = normfn("norm.pdf")
    f_scipy_stats_norm_cdf = normfn("norm.cdf")
    f_scipy_stats_chi2_cdf = normfn("chi2.cdf")
    f_scipy_stats_chi2_sf = normfn("chi2.sf")
    f_scipy_stats_chi2_ppf = normfn("chi2.ppf")
    f_scipy_stats_norm_ppf = normfn("norm.ppf")

    def f_numpy_random_randn(self, I, a, k):
        self.rngn += 1
        deps = E0
        sh = tuple(self.A(I, x).gv for x in a)
        for x in a:
            deps = deps | I.deps_of(x)
        return self.setnd(AV(DLESS, tm.sym("rng#%d" % self.rngn,
                                           scalar=False), deps, sh=sh))

    def f_numpy_random_choice(self, I, a, k):
        v = self.A(I, a[0])
        self.rngn += 1
        return AV(v.dim, None, v.deps, sh=None)

    def f_scipy_optimize_fsolve(self, I, a, k):
        f, x0 = a[0], self.A(I, a[1])
        args = k.get("args", a[2] if len(a) > 2 else None)
        extra = self.argtuple(I, args)
        self.fitn += 1
        deps = x0.deps
        for e in extra:
            deps = deps | I.deps_of(e)
        x = AV(x0.dim if x0.cst is NOC and not (x0.gv is not None and
               x0.gv.const() is not None) else None,
               tm.sym("root#%d" % self.fitn, scalar=False), deps, sh=x0.sh)
        r = I.call(f, [x] + extra, {})
        I.ev("fsolve", "root finding %d" % self.fitn,
             {"x0": x0, "x": x, "res": r, "fun": f, "args": extra})
        rd = I.deps_of(r)
        gv = None
        rg = I.gv_of(r)
        if rg is not None and x0.gv is not None:
            gv = I.safe(tm.fn, "fsolve", tm.subst(
                rg, {"root#%d" % self.fitn: tm.sym("root#", scalar=False)}),
                x0.gv, scalar=False)
        r0 = AV(x.dim, gv, deps | rd, sh=(tm.ONE,) if x0.sh == () else x0.sh)
        return r0

    f_scipy_optimize_root = None

    def argtuple(self, I, args):
        if args is None:
            return []
        its = I.static_iter(args)
        if its is not None:
            return its
        return [args]

    def f_scipy_optimize_minimize(self, I, a, k):
        return self.f_scipy_optimize_least_squares(I, a, k)

    f_scipy_optimize_minimize_scalar = None

    def fitdims(self, I, f, p, dims, extra, k):
        """The units of fit parameters that start at plain numbers: the only
        ones for which the objective adds like quantities."""
        if None not in dims or all(d is None for d in dims):
            return dims
        kw = {}
        if isinstance(k.get("kwargs"), RefV):
            kw = dict(I.rec(k["kwargs"]).items)
        keys = sorted(p.elems)

        def conflicts(ds):
            el = {q: AV(d, tm.sym("fitx%d" % q[0]), p.deps, sh=())
                  for q, d in zip(keys, ds)}
            x = AV(None, None, p.deps, sh=p.sh, elems=el)
            x.dim = self.joindims(I, list(el.values()))
            x.gv = I.gv_of(x)
            seen = set()

            def ev(kind, msg, data=None, node=None):
                if kind == "dim":
                    seen.add((id(node or I.node), msg))
            I.ev = ev
            try:
                I.call(f, [x] + extra, dict(kw))
            finally:
                del I.ev
            return len(seen)

        try:
            dims = list(dims)
            for _ in range(2):
                for i, d in enumerate(dims):
                    if d is None:
                        base = conflicts(dims)
                        fit = [c for c in FITDIMS if conflicts(
                            dims[:i] + [c] + dims[i + 1:]) <= base]
                        if len(fit) == 1:
                            dims[i] = fit[0]
                if None not in dims:
                    break
        except Exception:
            pass
        return dims

    def f_scipy_optimize_least_squares(self, I, a, k):
        f = a[0] if a else k["fun"]
        x0 = a[1] if len(a) > 1 else k["x0"]
        args = k.get("args")
        extra = self.argtuple(I, args)
        self.fitn += 1
        n = self.fitn
        p = self.A(I, x0)
        deps = p.deps
        for e in extra:
            deps = deps | I.deps_of(e)
        key = I.gv_of(p)
        name = "fit"
        dims = None
        if p.elems is not None:
            el = {}
            dims = []
            for q in sorted(p.elems):
                x = p.elems[q]
                d = x.dim
                if x.cst is not NOC or (x.gv is not None and
                                        x.gv.const() is not None) \
                        or d == ANY:
                    d = None
                dims.append(d)
            dims = self.fitdims(I, f, p, dims, extra, k)
            for q, d in zip(sorted(p.elems), dims):
                el[q] = AV(d, tm.sym("fitx%d" % q[0]), deps, sh=())
            x = AV(None, None, deps, sh=p.sh, elems=el)
            x.dim = self.joindims(I, list(el.values()))
        else:
            d = p.dim
            if p.cst is not NOC or (p.gv is not None and p.gv.const()
                                    is not None):
                d = None
            if p.sh == ():
                x = AV(d, None, deps, sh=(tm.ONE,),
                       elems={(0,): AV(d, tm.sym("fitx0"), deps, sh=())})
            else:
                x = AV(d, tm.sym("fitx", scalar=False), deps, sh=p.sh)
        x.gv = I.gv_of(x)
        kw = {}
        if isinstance(k.get("kwargs"), RefV):
            kw = dict(I.rec(k["kwargs"]).items)
        r = I.call(f, [x] + extra, kw)
        rav = self.A(I, r)
        info = {"x0": p, "x": x, "res": rav, "fun": f, "args": extra,
                "kw": dict(k), "scalar": bool(getattr(self, "scalarcost", 0))}
        I.ev("lsq", "least squares fit %d" % n, info)
        deps = deps | rav.deps
        for q in sorted(k):
            if q not in ("args", "x0", "fun"):
                deps = deps | I.deps_of(k[q])
        gk = [rav.gv, key] + [I.gv_of(k[q]) for q in sorted(k)
                              if q not in ("args", "x0", "fun")]
        g = None
        if None not in gk:
            g = I.safe(tm.fn, "lsq", *gk)
        def mk(i, d):
            return AV(d, I.safe(tm.fn, "lsqx", g, i, scalar=True)
                      if g is not None else None, deps, sh=())
        if x.elems is not None:
            el = {q: mk(q[0], v.dim) for q, v in x.elems.items()}
            xs = AV(self.joindims(I, list(el.values())), None, deps,
                    sh=x.sh, elems=el)
            xs.gv = I.gv_of(xs)
            dims = [el[q].dim for q in sorted(el)]
        else:
            xs = AV(x.dim, I.safe(tm.fn, "lsqx", g) if g is not None
                    else None, deps, sh=x.sh)
        jac = AV(None, I.safe(tm.fn, "lsqjac", g, *(
            [E(len(dims))] if dims else [])) if g is not None else None,
                 deps, sh=(None, E(len(dims)) if dims else None))
        if dims:
            jac.sp = ("jac", tuple(dims), rav.dim)
        info["jac"], info["found"] = jac, xs
        d = DictRec({
            "x": xs, "jac": jac,
            "cost": AV(dpow(rav.dim, 2), I.safe(tm.fn, "lsqcost", g,
                       scalar=True) if g is not None else None, deps, sh=()),
            "success": AV(DLESS, I.safe(tm.fn, "lsqok", g, scalar=True)
                          if g is not None else None, deps, sh=(),
                          isbool=True),
            "fun": AV(rav.dim, I.safe(tm.fn, "lsqfun", g) if g is not None
                      else None, deps, sh=rav.sh),
            "nfev": AV(DLESS, None, deps, sh=()),
            "message": AV(None, None, deps, sh=()),
            "status": AV(DLESS, None, deps, sh=()),
            "optimality": AV(None, None, deps, sh=()),
            "grad": AV(None, None, deps)})
        info["result"] = dict(d.items)
        return I.alloc(d)

    def f_iminuit_Minuit_from_array_func(self, I, a, k):
        """Minimum of a scalar cost: the same abstraction as least_squares,
        with the cost itself as the objective."""
        self.scalarcost = True
        try:
            d = I.rec(self.f_scipy_optimize_least_squares(
                I, list(a[:2]), {q: v for q, v in k.items() if q != "args"}))
        finally:
            self.scalarcost = False
        xs, fun = d.items["x"], d.items["fun"]
        n = xs.sh[0] if xs.sh else None
        cov = AV(None, I.safe(tm.fn, "mincov", xs.gv) if xs.gv is not None
                 else None, xs.deps, sh=(n, n) if n is not None else None)
        if xs.elems is not None:
            dims = [xs.elems[q].dim for q in sorted(xs.elems)]
            cov.elems = {(i, j): AV(
                dmul(dims[i], dims[j]) if dims[i] is not None and
                dims[j] is not None else None,
                I.safe(tm.fn, "mincov", xs.gv, i, j, scalar=True)
                if xs.gv is not None else None, xs.deps, sh=())
                for i in range(len(dims)) for j in range(len(dims))}
        c = lambda v: BoundV(TupV([v]), "__const__")
        fv = AV(fun.dim, I.safe(tm.fn, "minfval", fun.gv, scalar=True)
                if fun.gv is not None else None, fun.deps, sh=())
        o = ObjRec(None)
        o.attrs.update({
            "np_values": c(xs), "np_covariance": c(cov), "fval": fv,
            "migrad": c(const(None)), "minos": c(const(None)),
            "hesse": c(const(None)), "values": xs, "covariance": cov})
        return I.alloc(o)

    def f_scipy_optimize_curve_fit(self, I, a, k):
        f = a[0] if a else k["f"]
        x = self.A(I, a[1] if len(a) > 1 else k["xdata"])
        y = self.A(I, a[2] if len(a) > 2 else k["ydata"])
        p0 = k.get("p0", a[3] if len(a) > 3 else None)
        sig = k.get("sigma", a[4] if len(a) > 4 else None)
        deps = x.deps | y.deps
        for q in k:
            deps = deps | I.deps_of(k[q])
        n = None
        pel = None
        if p0 is not None and not (isinstance(p0, AV) and p0.cst is None):
            p = self.A(I, p0)
            if p.elems is not None:
                pel = p.elems
                n = len(pel)
        if n is None and isinstance(f, FnV):
            n = len(f.node.args.args) - 1 - (1 if f.selfv is not None else 0)
        if n is None:
            return TupV([AV(None, None, deps), AV(None, None, deps)])
        g = [x.gv, y.gv, I.gv_of(f)]
        for q in sorted(k):
            if q not in ("xdata", "ydata", "f"):
                g.append(q)
                g.append(I.gv_of(k[q]))
        # the model is evaluated at symbolic parameters; units of the
        # parameters follow from the guesses or from the polynomial degree
        dims = []
        for i in range(n):
            d = None
            if pel is not None and pel[(i,)].cst is NOC:
                d = pel[(i,)].dim
            dims.append(d)
        ps = [AV(dims[i], tm.sym("fitx%d" % i), deps, sh=())
              for i in range(n)]
        r = self.A(I, I.call(f, [x] + ps, {}))
        g += ["model", r.gv]
        gv = I.safe(tm.fn, "curvefit", *g) if all(
            z is not None for z in g) else None
        if None in dims and y.dim is not None:
            dims = self.infer_linear(I, r, x, y, n, dims)
        else:
            self.dimcheck(I, r, y, "fit model and data")
        if sig is not None and not (isinstance(sig, AV) and
                                    sig.cst is None):
            sig = self.A(I, sig)
        I.ev("curvefit", "curve fit", {"model": r, "y": y, "x": x,
                                       "sigma": sig, "kw": dict(k)})
        el = {(i,): AV(dims[i], I.safe(tm.fn, "cfx", gv, i, scalar=True)
                       if gv is not None else None, deps, sh=())
              for i in range(n)}
        # covariance scales with sigma^2 for absolute_sigma
        ab = k.get("absolute_sigma")
        extra = DLESS
        if isinstance(ab, AV) and ab.cst is True and isinstance(sig, AV) and \
                sig.dim is not None and y.dim is not None:
            extra = dmul(sig.dim, y.dim, -1)
        cel = {}
        for i in range(n):
            for j in range(n):
                d = None
                if dims[i] is not None and dims[j] is not None:
                    d = dmul(dmul(dims[i], dims[j]), dmul(extra, extra))
                cel[(i, j)] = AV(d, I.safe(tm.fn, "cfcov", gv, min(i, j),
                                           max(i, j), scalar=True,
                                           pos=(i == j))
                                 if gv is not None else None, deps, sh=())
        px = AV(self.joindims(I, list(el.values())), None, deps, sh=(E(n),),
                elems=el)
        px.gv = I.gv_of(px)
        pc = AV(None, None, deps, sh=(E(n), E(n)), elems=cel)
        pc.gv = I.gv_of(pc)
        return TupV([px, pc])

    def infer_linear(self, I, r, x, y, n, dims):
        """Units of parameters entering the model linearly."""
        out = list(dims)
        if r.gv is None or x.gv is None:
            return out
        xa = x.gv.single_atom()
        for m, c in r.gv.t.items():
            pi = [i for i in range(n) for a, e in m
                  if tm.T.atoms[a].name == "fitx%d" % i and e == 1]
            others = [(a, e) for a, e in m if not tm.T.atoms[a].name.
                      startswith("fitx")]
            if len(pi) != 1:
                continue
            d = y.dim
            ok = True
            for a, e in others:
                if xa is not None and a == xa.id:
                    d = dmul(d, dpow(x.dim, e), -1)
                else:
                    ok = False
            if ok and out[pi[0]] is None:
                out[pi[0]] = d
        return out

    # -------------------------------------------------------------- methods
    ARR_FRESH = {"copy": "numpy.copy", "sum": "numpy.sum",
                 "mean": "numpy.mean", "std": "numpy.std",
                 "var": "numpy.var", "min": "numpy.min", "max": "numpy.max",
                 "argmin": "numpy.argmin", "argmax": "numpy.argmax",
                 "conj": "numpy.conj", "conjugate": "numpy.conj",
                 "any": "numpy.any", "all": "numpy.all", "dot": "numpy.dot",
                 "transpose": "numpy.transpose", "reshape": "numpy.reshape",
                 "ravel": "numpy.ravel", "squeeze": "numpy.squeeze",
                 "swapaxes": "numpy.swapaxes", "diagonal": "numpy.diag",
                 "cumsum": "numpy.cumsum", "prod": "numpy.prod",
                 "nonzero": "numpy.nonzero", "argsort": "numpy.argsort",
                 "repeat": "numpy.repeat", "round": "numpy.round",
                 "clip": "numpy.clip", "trace": "numpy.trace",
                 "ptp": "numpy.ptp"}
    ARR_MUT = {"sort", "fill", "resize", "partition", "put", "itemset",
               "setfield", "byteswap", "setflags"}

    def method(self, I, bm, args, kwargs):
        b, nm = bm.base, bm.name
        if nm == "__interp__" and isinstance(b, TupV):
            x = self.A(I, args[0])
            xp, fp = b.items
            self.dimcheck(I, x, xp, "interpolation abscissa")
            g = [x.gv, xp.gv, fp.gv]
            gv = I.safe(tm.fn, "interp1d", *g) if None not in g else None
            return AV(fp.dim, gv, x.deps | xp.deps | fp.deps, sh=x.sh)
        if nm == "__poly__" and isinstance(b, TupV):
            return self.f_numpy_polyval(I, [b.items[0], args[0]], {})
        if nm == "__const__" and isinstance(b, TupV):
            return b.items[0]
        if nm == "__partial__" and isinstance(b, TupV):
            kw = dict(bm.node or {})
            kw.update(kwargs)
            return I.call(b.items[0], list(b.items[1:]) + list(args), kw)
        if isinstance(b, ChoiceV):
            return I.join(self.method(I, BoundV(b.a, nm), args, kwargs),
                          self.method(I, BoundV(b.b, nm), args, kwargs),
                          (b.cond, b.deps))
        if isinstance(b, RefV):
            r = I.rec(b)
            if isinstance(r, DictRec):
                return self.dict_method(I, b, r, nm, args, kwargs)
            if isinstance(r, ListRec):
                return self.list_method(I, b, r, nm, args, kwargs)
            return TopV(I.deps_of(b), getattr(r, "roots", E0))
        if isinstance(b, TupV):
            if nm in ("index", "count"):
                return AV(DLESS, None, I.deps_of(b), sh=())
            return TopV(I.deps_of(b))
        if isinstance(b, AV):
            return self.av_method(I, b, nm, args, kwargs)
        if isinstance(b, TopV):
            deps = b.deps
            g = [b.gv, nm]
            for x in list(args) + [kwargs[q] for q in sorted(kwargs)]:
                deps = deps | I.deps_of(x)
                g.append(I.gv_of(x))
            if nm in ("savefig", "tofile", "dump", "to_csv", "to_pickle",
                      "to_hdf"):
                I.ev("io", "calls .%s" % nm, {"fn": nm, "pc": list(I.pc)})
            if b.roots and nm in self.ARR_MUT | {
                    "append", "extend", "update", "pop", "clear", "insert",
                    "remove", "reverse", "setdefault", "popitem"}:
                I.ev("mutate", ".%s() modifies a caller's object" % nm,
                     {"roots": b.roots, "how": nm})
            gv = None
            if None not in g:
                gv = I.safe(tm.fn, "method", *g, real=False)
            return TopV(deps, b.roots if nm in (
                "view", "reshape", "ravel", "transpose", "squeeze", "get",
                "values", "items") else E0, gv)
        deps = I.deps_of(b)
        for x in args:
            deps = deps | I.deps_of(x)
        if nm == "savefig":
            I.ev("io", "calls .savefig", {"fn": nm, "pc": list(I.pc)})
        return TopV(deps)

    def av_method(self, I, b, nm, args, kwargs):
        if isinstance(b.cst, str) or nm in (
                "lower", "upper", "format", "replace", "startswith",
                "endswith", "split", "strip", "join", "rstrip", "lstrip",
                "title", "capitalize"):
            return self.str_method(I, b, nm, args, kwargs)
        if nm in self.ARR_FRESH:
            f = self.ARR_FRESH[nm]
            if nm == "sort":
                pass
            r = self.call(I, f, [b] + list(args), kwargs)
            return r
        if nm == "astype":
            t = args[0] if args else kwargs.get("dtype")
            r = b.copy(roots=E0)
            n = t.name if isinstance(t, LibV) else (
                t.cst if isinstance(t, AV) else "")
            if isinstance(n, str):
                if "bool" in n:
                    if not b.isbool:
                        r.gv = I.safe(tm.fn, "truth", b.gv) \
                            if b.gv is not None else None
                    r.isbool = True
                    r.dim = DLESS
                elif "int" in n:
                    rr = self.f_builtins_int(I, [b], {})
                    if isinstance(rr, AV):
                        rr.isbool = False
                        return rr
                else:
                    if b.isbool:
                        r.isbool = False
            r.dt = self.dtype(kwargs, args, 0, None)
            return r
        if nm == "flatten":
            r = self.f_numpy_ravel(I, [b], {})
            return r.copy(roots=E0)
        if nm == "view":
            t = args[0] if args else kwargs.get("dtype")
            n = t.name if isinstance(t, LibV) else t.cst if isinstance(
                t, AV) and isinstance(t.cst, str) else ""
            if t is None or "float" in n and b.gv is not None and \
                    tm.is_real(b.gv):
                return b
            if "float" in n and b.sh is not None and len(b.sh) == 1:
                # real and imaginary parts in turn
                v = self.f_numpy_stack(I, [I.newlist([
                    self.f_numpy_real(I, [b], {}), self.call(
                        I, "numpy.imag", [b], {})])], {"axis": const(-1)})
                r = self.f_numpy_ravel(I, [v], {})
                return r.copy(roots=b.roots)
            return AV(b.dim, None, b.deps | I.deps_of(t), b.roots)
        if nm in ("item", "tolist"):
            if nm == "item" and not args:
                return AV(b.dim, b.gv if b.sh in ((), None) else None,
                          b.deps, sh=())
            if nm == "tolist":
                its = I.static_iter(b)
                if its is not None:
                    return I.newlist(its)
                return I.newlist(None, I.generic_elem(b), gv=b.gv,
                                 deps=b.deps)
            return self.index(I, b, list(args))
        if nm in self.ARR_MUT:
            deps = b.deps
            g = [b.gv]
            for x in args:
                deps = deps | I.deps_of(x)
                g.append(I.gv_of(x))
            gv = None
            if None not in g:
                if nm == "fill":
                    gv = g[1]
                else:
                    gv = I.safe(tm.fn, nm, *g)
            I.mutate(b, b.copy(gv=gv, deps=deps, elems=None, cst=NOC),
                     ".%s()" % nm)
            return const(None)
        if nm == "is_integer":
            v = b
            if isnum(v.cst):
                return const(float(v.cst).is_integer()).copy(deps=v.deps)
            gv = I.safe(tm.fn, "is_integer", v.gv, scalar=True) \
                if v.gv is not None else None
            return AV(DLESS, gv, v.deps, sh=(), isbool=True)
        if nm in ("tofile", "dump"):
            I.ev("io", "calls .%s" % nm, {"fn": nm, "pc": list(I.pc)})
            return const(None)
        deps = b.deps
        for x in list(args) + list(kwargs.values()):
            deps = deps | I.deps_of(x)
        return TopV(deps, E0)

    def str_method(self, I, b, nm, args, kwargs):
        deps = b.deps
        for x in list(args) + list(kwargs.values()):
            deps = deps | I.deps_of(x)
        if isinstance(b.cst, str):
            c = [x.cst if isinstance(x, AV) else NOC for x in args]
            if all(x is not NOC for x in c) and not kwargs and nm in (
                    "lower", "upper", "strip", "startswith", "endswith",
                    "replace", "title", "capitalize", "rstrip", "lstrip"):
                try:
                    r = getattr(b.cst, nm)(*c)
                    return const(r).copy(deps=deps)
                except Exception:
                    pass
        g = [I.gv_of(b), nm] + [I.gv_of(x) for x in args]
        gv = I.safe(tm.fn, "strm", *g, scalar=True) if None not in g else None
        if nm in ("startswith", "endswith"):
            return AV(DLESS, gv, deps, sh=(), isbool=True)
        if nm == "split":
            return TopV(deps, E0, gv)
        return AV(None, gv, deps, sh=())

    def dict_method(self, I, ref, r, nm, args, kwargs):
        if nm in ("keys",):
            return ref
        if nm == "values":
            if not r.open and r.rest is None:
                return I.newlist(list(r.items.values()))
            e = r.rest
            for v in r.items.values():
                e = v if e is None else I.join(e, v, (None, E0))
            return I.newlist(None, e if e is not None else TopV(
                r.deps, r.roots), roots=E0, deps=r.deps)
        if nm == "items":
            if not r.open and r.rest is None:
                return I.newlist([TupV([const(k), v])
                                  for k, v in r.items.items()])
            e = r.rest
            for v in r.items.values():
                e = v if e is None else I.join(e, v, (None, E0))
            return I.newlist(None, TupV([TopV(r.deps), e if e is not None
                                         else TopV(r.deps, r.roots)]),
                             deps=r.deps)
        if nm in ("get", "pop", "setdefault"):
            key = args[0].cst if isinstance(args[0], AV) else NOC
            dflt = args[1] if len(args) > 1 else const(None)
            if nm == "pop" or nm == "setdefault":
                I.container_mut(ref, ".%s()" % nm)
            if key is not NOC and key in r.items:
                v = r.items[key]
                if nm == "pop":
                    r.items.pop(key)
                return v
            if key is not NOC and not r.open and r.rest is None:
                if nm == "setdefault":
                    r.items[key] = dflt
                return dflt
            return TopV(r.deps | I.deps_of(args[0]) | I.deps_of(dflt),
                        r.roots)
        if nm == "update":
            I.container_mut(ref, ".update()")
            if args:
                I.dict_update(r, args[0])
            for q, v in kwargs.items():
                r.items[q] = v
            return const(None)
        if nm == "clear":
            I.container_mut(ref, ".clear()")
            r.items.clear()
            r.rest, r.open = None, False
            return const(None)
        if nm == "copy":
            n = r.copy()
            n.roots = E0
            return I.alloc(n)
        if nm == "add":
            I.container_mut(ref, ".add()")
            return const(None)
        return TopV(I.deps_of(ref), r.roots)

    def list_method(self, I, ref, r, nm, args, kwargs):
        if nm == "append":
            I.container_mut(ref, ".append()")
            if r.items is not None:
                r.items = r.items + [args[0]]
            else:
                r.elem = args[0] if r.elem is None else I.join(
                    r.elem, args[0], (None, E0))
                g = I.gv_of(args[0])
                r.gv = I.safe(tm.fn, "appended1", r.gv, g) \
                    if r.gv is not None and g is not None else None
            return const(None)
        if nm == "extend":
            I.container_mut(ref, ".extend()")
            its = I.static_iter(args[0])
            if r.items is not None and its is not None:
                r.items = r.items + its
            else:
                r.elem = I.generic_elem(ref) if r.items else r.elem
                e = I.generic_elem(args[0])
                r.elem = e if r.elem is None else I.join(r.elem, e,
                                                         (None, E0))
                r.items, r.gv = None, None
                r.deps = r.deps | I.deps_of(args[0])
            return const(None)
        if nm in ("insert", "remove", "reverse", "sort", "clear", "pop",
                  "add", "discard", "update"):
            I.container_mut(ref, ".%s()" % nm)
            if nm == "pop":
                e = I.generic_elem(ref)
                if r.items:
                    i = args[0].cst if args and isinstance(args[0], AV) \
                        else -1
                    if isinstance(i, int) and -len(r.items) <= i < len(
                            r.items):
                        its = list(r.items)
                        e = its.pop(i)
                        r.items = its
                return e
            if nm == "reverse" and r.items is not None:
                r.items = list(reversed(r.items))
                return const(None)
            if nm == "clear":
                r.items = []
                return const(None)
            if r.items is not None:
                e = I.generic_elem(ref) if r.items else None
                for x in args[-1:]:
                    if nm in ("insert", "add"):
                        e = x if e is None else I.join(e, x, (None, E0))
                r.items, r.elem, r.gv = None, e, None
            return const(None)
        if nm == "copy":
            n = r.copy()
            n.roots = E0
            return I.alloc(n)
        if nm in ("index", "count"):
            return AV(DLESS, None, I.deps_of(ref), sh=())
        if nm in ("union", "intersection", "difference"):
            return TopV(I.deps_of(ref))
        return TopV(I.deps_of(ref), r.roots)
