"""Abstract transfer functions for Python builtins, numpy, scipy, ..."""
import ast
import math
from fractions import Fraction
from . import terms as tm
from . import arreval
from .values import *      # noqa

S_ = {"A": 1}
DIM_A = D(A=1)
DIM_S = D(s=1)
DIM_V = D(V=1)
DIM_J = D(V=1, A=1, s=1)
DIM_K = D(K=1)

CONSTS = {"k": ("k_B", D(V=1, A=1, s=1, K=-1)),
          "e": ("q_e", D(A=1, s=1)),
          "h": ("h_P", D(V=1, A=1, s=2)),
          "hbar": ("hbar", D(V=1, A=1, s=2)),
          "c": ("c_light", None),
          "pi": None}
CONSTS["elementary_charge"] = CONSTS["e"]
CONSTS["Boltzmann"] = CONSTS["k"]
CONSTS["Planck"] = CONSTS["h"]

FFTMODS = ("numpy.fft.", "scipy.fftpack.", "scipy.fft.")

# canonical names of aliases
ALIAS = {
    "numpy.absolute": "numpy.abs", "numpy.amin": "numpy.min",
    "numpy.amax": "numpy.max", "numpy.conjugate": "numpy.conj",
    "numpy.trapezoid": "numpy.trapz", "numpy.float_power": "numpy.power",
    "numpy.fabs": "numpy.abs", "numpy.product": "numpy.prod",
    "scipy.integrate.trapz": "numpy.trapz",
    "scipy.integrate.trapezoid": "numpy.trapz",
    "math.sqrt": "numpy.sqrt", "math.exp": "numpy.exp",
    "math.log": "numpy.log", "math.ceil": "math.ceil",
    "math.floor": "math.floor", "math.fabs": "numpy.abs",
    "scipy.sqrt": "numpy.sqrt", "math.sin": "numpy.sin",
    "math.cos": "numpy.cos", "math.isnan": "numpy.isnan",
    "math.isinf": "numpy.isinf", "cmath.exp": "numpy.exp",
    "scipy.linalg.inv": "numpy.linalg.inv",
    "scipy.linalg.pinv": "numpy.linalg.pinv",
    "numpy.true_divide": "numpy.divide", "numpy.remainder": "numpy.mod",
    "numpy.bitwise_and": "numpy.logical_and",
    "numpy.bitwise_or": "numpy.logical_or",
    "numpy.invert": "numpy.logical_not",
    "numpy.asanyarray": "numpy.asarray",
    "numpy.ascontiguousarray": "numpy.asarray",
    "numpy.random.default_rng": "numpy.random.default_rng",
    "numpy.row_stack": "numpy.vstack", "numpy.float64": "numpy.float64",
}

TYPES = {"float", "int", "str", "bool", "list", "tuple", "dict", "set",
         "complex", "object", "type", "bytes", "frozenset", "slice"}
EXCS = {"ValueError", "TypeError", "KeyError", "IndexError", "RuntimeError",
        "Exception", "AttributeError", "NotImplementedError", "OSError",
        "ZeroDivisionError", "AssertionError", "NameError", "StopIteration",
        "ArithmeticError", "FloatingPointError", "ImportError", "IOError",
        "LookupError", "UserWarning", "RuntimeWarning", "DeprecationWarning",
        "FutureWarning", "Warning", "BaseException", "FileNotFoundError",
        "OverflowError", "ModuleNotFoundError", "PermissionError",
        "KeyboardInterrupt", "PendingDeprecationWarning", "SystemExit"}
BUILTINS = {"len", "range", "enumerate", "zip", "map", "filter", "abs", "min",
            "max", "sum", "round", "sorted", "print", "isinstance", "hasattr",
            "getattr", "setattr", "any", "all", "super", "open", "type",
            "iter", "next", "reversed", "callable", "id", "repr", "locals",
            "globals", "vars", "input", "hash", "divmod", "pow", "ord", "chr",
            "format", "staticmethod", "property", "classmethod", "issubclass",
            "dir", "eval", "exec", "delattr", "__import__", "bin", "hex",
            "oct", "ascii", "bytearray", "memoryview", "complex"}

WEAK = set()

RNGMODS = ("numpy.random.", "random.", "scipy.stats.rv")


def isnum(v):
    return isinstance(v, (int, float, complex)) and not isinstance(v, bool)


def E(n):
    return tm.num(n)


def nonneg(e):
    """Known not to be negative (a negative bound counts from the end)."""
    c = e.const()
    if c is not None:
        return complex(c).real >= 0
    f = arreval.fingerprint(e)
    return f is not None and all(x >= 0 for x in f)


def lenval(x, n):
    """The value of a length when the one symbol in it is n (None: no)."""
    syms = set()

    def atom(at):
        if at.kind == "sym":
            syms.add(at.name)
            return Fraction(n)
        if at.kind == "poly":
            return expr(at.args[0])
        if at.kind != "fn":
            raise ValueError
        if at.name in ("floordiv", "mod"):
            a, b = expr(at.args[0]), expr(at.args[1])
            return Fraction(a // b) if at.name == "floordiv" else a % b
        if at.name in ("floor", "ceil", "intp"):
            a = expr(at.args[0])
            return Fraction({"floor": math.floor, "ceil": math.ceil,
                             "intp": int}[at.name](a))
        raise ValueError

    def expr(e):
        tot = Fraction(0)
        for m, c in e.t.items():
            v = Fraction(c)
            for a, k in m:
                w = atom(tm.T.atoms[a])
                if k != int(k):
                    raise ValueError
                v *= w ** int(k)
            tot += v
        return tot
    try:
        v = expr(x)
    except (ValueError, TypeError, ZeroDivisionError, OverflowError):
        return None
    return (v, syms) if len(syms) == 1 else None


class Lib(object):
    def __init__(self):
        self.handlers = {}
        for k in dir(self):
            if k.startswith("f_"):
                self.handlers[k[2:]] = getattr(self, k)
        self.unmodelled = {}
        self.rngn = 0
        self.fitn = 0

    # ------------------------------------------------------------- names
    def value(self, I, name):
        name = ALIAS.get(name, name)
        if name in ("numpy.pi", "math.pi", "scipy.constants.pi", "scipy.pi"):
            return AV(DLESS, tm.sym("pi", pos=True), sh=(), lo=3, hi=4)
        if name in ("numpy.e", "math.e"):
            return AV(DLESS, tm.exp_(tm.ONE), sh=(), lo=2, hi=3)
        if name in ("numpy.inf", "numpy.Inf", "math.inf", "numpy.infty"):
            return const(float("inf"))
        if name in ("numpy.nan", "numpy.NaN", "math.nan"):
            return const(float("nan"))
        if name == "numpy.newaxis":
            return const(None)
        if name.startswith("scipy.constants."):
            c = CONSTS.get(name.split(".")[-1])
            if c:
                return AV(c[1], tm.sym(c[0], pos=True), sh=(), lo=1e-40)
        return LibV(name)

    def builtin(self, I, name):
        if name in ("__name__", "__file__", "__doc__"):
            return AV(None, None)
        if name in TYPES or name in BUILTINS:
            return LibV("builtins." + name)
        if name in EXCS:
            return LibV(name)
        if name == "NotImplemented":
            return TopV()
        return None

    # ------------------------------------------------------------- logic
    def not_gv(self, g):
        if g is None:
            return None
        c = g.const()
        if c is not None:
            return tm.ZERO if c != 0 else tm.ONE
        at = g.single_atom()
        if at is not None and at.kind == "fn":
            sc = at.scalar
            if at.name == "not":
                return at.args[0]
            if at.name == "lt":
                return tm.fn("le", at.args[1], at.args[0], scalar=sc)
            if at.name == "le":
                return tm.fn("lt", at.args[1], at.args[0], scalar=sc)
            if at.name in ("and", "or"):
                return self.boolop("or" if at.name == "and" else "and",
                                   [self.not_gv(a) for a in at.args])
            return tm.fn("not", g, scalar=sc)
        return tm.fn("not", g, scalar=tm.is_scalar(g))

    def boolop(self, op, gs):
        if any(g is None for g in gs):
            return None
        out = []
        for g in gs:
            at = g.single_atom()
            if at is not None and at.kind == "fn" and at.name == op:
                out.extend(at.args)
            else:
                out.append(g)
        keep = []
        for g in out:
            c = g.const()
            if c is not None:
                if op == "and" and c == 0:
                    return tm.ZERO
                if op == "or" and c != 0:
                    return tm.ONE
                continue
            if g not in keep:
                keep.append(g)
        if not keep:
            return tm.ONE if op == "and" else tm.ZERO
        if len(keep) == 1:
            return keep[0]
        keep.sort(key=lambda e: tm.fmt(e, 8))
        return tm.fn(op, *keep, scalar=all(tm.is_scalar(g) for g in keep))

    # ------------------------------------------------------------- shapes
    def bshape(self, I, a, b):
        if a == ():
            return b
        if b == ():
            return a
        if a is None or b is None:
            return None
        n = max(len(a), len(b))
        a = (tm.ONE,) * (n - len(a)) + tuple(a)
        b = (tm.ONE,) * (n - len(b)) + tuple(b)
        out = []
        for x, y in zip(a, b):
            if x is not None and x == tm.ONE:
                out.append(y)
            elif y is not None and y == tm.ONE:
                out.append(x)
            elif x is None or y is None:
                out.append(x if x is not None else y)
            elif x == y:
                out.append(x)
            else:
                self.lengths(I, x, y)
                out.append(x)
        return tuple(out)

    def lengths(self, I, x, y):
        """Reports two lengths that cannot agree."""
        d = I.safe(lambda: (x - y).const())
        if d is not None and d != 0:
            I.ev("shape", "operands of lengths %s and %s" % (
                tm.fmt(x), tm.fmt(y)))
            return
        if self.never_equal(I, x, y):
            I.ev("shape", "operands of the unrelated lengths %s and %s" % (
                tm.fmt(x), tm.fmt(y)))
            return
        for p, q in ((x, y), (y, x)):
            at = p.single_atom()
            if at is not None and at.name == "rcount" and at.args[0] == q:
                I.ev("shape", "the length of np.arange with a step that is "
                     "no integer depends on rounding, here it has to be %s" %
                     tm.fmt(q))

    def never_equal(self, I, x, y):
        """True when two lengths, functions of the lengths of the documented
        arguments, differ for almost all of these."""
        p, q = x.single_atom(), y.single_atom()
        if p is not None and q is not None and p is not q and \
                p.kind == q.kind == "sym":
            return True
        from .compare import atoms_deep
        hit, names = 0, set()
        for par in (0, 1):
            v = [(lenval(x, n), lenval(y, n)) for n in range(40 + par, 60, 2)]
            if any(a is None or b is None or a[1] != b[1] for a, b in v):
                return False
            names |= v[0][0][1]
            hit += all(a[0] != b[0] for a, b in v)
        if hit == 1:
            # odd (or even) lengths only: unless the branch selects them
            for c in I.pc:
                if c[0] is None or any(
                        tm.T.atoms[i].kind == "sym" and tm.T.atoms[i].name
                        in names for i in atoms_deep(c[0])):
                    return False
        return hit > 0

    def lossy(self, I, dt, val):
        """Notes a value that may not fit the elements of its array."""
        if dt is None or dt == "c" or val.isbool or val.cst is None or \
                isinstance(val.cst, str) or val.dt == dt:
            return
        for v in (val.elems.values() if val.elems is not None else [val]):
            if v.gv is None or (tm.is_real(v.gv) if dt == "f" else
                                tm.is_int(v.gv) and not I.isnan(v)):
                continue
            I.ev("lossy", "stores %s in an array of %s" % (
                "nan" if I.isnan(v) else "a value",
                "real numbers" if dt == "f" else "integers" if dt == "i" else
                "the type of the argument %s (integers for integers)" %
                dt[2:]), {"gv": v.gv, "to": dt})

    def fits(self, I, base, keys, val):
        """Reports a stored array whose shape cannot be that of the place."""
        if base.sh is None or not val.sh or any(
                not isinstance(k, (AV, SliceV)) for k in keys):
            return
        t = self.index(I, base.copy(gv=None, elems=None), keys).sh
        if t is None:
            return
        v = val.sh[max(len(val.sh) - len(t), 0):]
        for x, y in zip(reversed(v), reversed(t)):
            if x is not None and y is not None and x != tm.ONE:
                self.lengths(I, x, y)

    def lower(self, I, v):
        """Numeric AV of any value (lists become arrays)."""
        if isinstance(v, AV):
            return v
        if isinstance(v, TopV):
            return AV(None, v.gv, v.deps, v.roots)
        if isinstance(v, (TupV, RefV, RangeV, IterV)):
            return self.mkarray(I, v)
        if isinstance(v, ChoiceV):
            return I.join(self.lower(I, v.a), self.lower(I, v.b),
                          (v.cond, v.deps))
        return AV(None, None, I.deps_of(v), I.roots_of(v))

    @staticmethod
    def lead(sh):
        """Leading axes of length one: the term of an array does not mention
        them (broadcasting ignores them)."""
        u = 0
        if sh is not None:
            while u < len(sh) - 1 and sh[u] is not None and sh[u] == tm.ONE:
                u += 1
        return u

    def nd_of(self, v):
        return None if v.sh is None else len(v.sh) - self.lead(v.sh)

    def setnd(self, av):
        if av.gv is not None and av.sh is not None:
            at = av.gv.single_atom()
            if at is not None and at.shape is None:
                at.shape = self.nd_of(av)
        return av

    def mkarray(self, I, v):
        if isinstance(v, RangeV):
            g = [I.gv_of(x) for x in (v.start, v.stop, v.step)]
            if None not in g and g[2] == tm.ONE:
                n = g[1] - g[0]
                gv = I.safe(lambda: tm.fn("arange", n, scalar=False) + g[0])
                return AV(DLESS, gv, I.deps_of(v), sh=(n,))
            return AV(DLESS, I.gv_of(v), I.deps_of(v), sh=(None,))
        its = I.static_iter(v)
        if its is None:
            deps = I.deps_of(v)
            if isinstance(v, RefV):
                r = I.rec(v)
                if isinstance(r, ListRec) and isinstance(r.elem, AV):
                    sh = None
                    if r.elem.sh is not None:
                        sh = (None,) + r.elem.sh
                    return AV(r.elem.dim, I.gv_of(v), deps | r.deps, sh=sh)
            return AV(I.dim_of(v), I.gv_of(v), deps)
        its = [self.lower(I, x) if isinstance(x, (TupV, RefV, ChoiceV))
               else x for x in its]
        if its and all(isinstance(x, AV) for x in its):
            deps = frozenset().union(*[x.deps for x in its])
            n = E(len(its))
            if all(x.sh == () for x in its):
                el = {(i,): x for i, x in enumerate(its)}
                av = AV(self.joindims(I, its), None, deps, sh=(n,), elems=el)
                av.gv = I.gv_of(av)
                if len(its) > 40:
                    av.elems = None
                return av
            if all(x.elems is not None and x.sh and len(x.sh) == 1
                   for x in its):
                el = {}
                for i, x in enumerate(its):
                    for k, y in x.elems.items():
                        el[(i,) + k] = y
                av = AV(self.joindims(I, its), None, deps,
                        sh=(n,) + its[0].sh, elems=el)
                av.gv = I.gv_of(av)
                return av
            sh = None
            s0 = its[0].sh
            if s0 is not None and all(x.sh == s0 for x in its):
                sh = (n,) + s0
            g = [x.gv for x in its]
            gv = None
            if None not in g:
                gv = I.safe(tm.fn, "stack", *g, real=all(
                    tm.is_real(x) for x in g))
            return AV(self.joindims(I, its), gv, deps, sh=sh)
        if not its:
            return AV(ANY, tm.ZERO, E0, sh=(E(0),))
        return AV(None, I.gv_of(v), I.deps_of(v))

    def joindims(self, I, avs):
        d = ANY
        for x in avs:
            if x.dim is None or d is None:
                return None
            d = djoin(d, x.dim)
        return d

    def length(self, I, v):
        if isinstance(v, AV):
            if v.sh and v.sh[0] is not None:
                return v.sh[0]
            if v.gv is not None and v.sh != ():
                return I.safe(tm.fn, "len", v.gv, scalar=True, integer=True,
                              pos=True)
            return None
        its = I.static_iter(v)
        if its is not None:
            return E(len(its))
        if isinstance(v, RangeV):
            g = [I.gv_of(x) for x in (v.start, v.stop, v.step)]
            if None in g or g[2] != tm.ONE:
                return None
            return g[1] - g[0]
        if isinstance(v, IterV):
            for p in v.parts:
                n = self.length(I, p)
                if n is not None:
                    return n
        g = I.gv_of(v)
        if g is not None:
            return I.safe(tm.fn, "len", g, scalar=True, integer=True, pos=True)
        return None

    def lenav(self, I, v):
        its = I.static_iter(v)
        if its is not None:
            return const(len(its)).copy(deps=E0)
        n = self.length(I, v)
        if n is not None:
            c = n.const()
            if c is not None and c.denominator == 1:
                return const(int(c))
        return AV(DLESS, n, I.deps_of(v) if not isinstance(v, AV) else
                  (v.deps if v.sh is None else E0), sh=())

    # ---------------------------------------------------------------- dims
    def dimcheck(self, I, a, b, what):
        """a, b: AV; returns the joined dimension."""
        for x, y in ((a, b), (b, a)):
            if x.sp == "lit" and x.dim is None and x.cst is not NOC and \
                    y.dim is not None and y.dim not in (ANY, DLESS):
                I.ev("dim", "%s of a quantity with unit %s with the fixed "
                     "number %g" % (what, dfmt(y.dim), x.cst),
                     {"a": y.dim, "b": DLESS, "lit": abs(x.cst)})
        if a.dim is None:
            return b.dim if b.dim != ANY else None
        if b.dim is None:
            return a.dim if a.dim != ANY else None
        d = djoin(a.dim, b.dim)
        if d is None:
            I.ev("dim", "%s mixes units %s and %s" % (what, dfmt(a.dim),
                                                      dfmt(b.dim)),
                 {"a": a.dim, "b": b.dim, "ac": a.cst, "bc": b.cst})
        return d

    def needdless(self, I, a, what):
        if a.dim is not None and a.dim != ANY and a.dim != DLESS:
            I.ev("dim", "%s of a quantity with unit %s" % (what, dfmt(a.dim)),
                 {"a": a.dim, "b": DLESS})

    # -------------------------------------------------------------- binop
    def binop(self, I, op, a, b):
        on = type(op).__name__
        # sequences
        if on == "Add" and isinstance(a, TupV) and isinstance(b, TupV):
            return TupV(a.items + b.items)
        if isinstance(a, RefV) and isinstance(b, RefV) and on == "Add":
            ra, rb = I.rec(a), I.rec(b)
            if isinstance(ra, ListRec) and isinstance(rb, ListRec):
                if ra.items is not None and rb.items is not None:
                    return I.newlist(ra.items + rb.items)
                return I.newlist(None, None, deps=I.deps_of(a) | I.deps_of(b))
        if on == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (RefV, TupV)) and isinstance(y, AV):
                    its = I.static_iter(x)
                    if isinstance(x, RefV) and not isinstance(I.rec(x),
                                                              ListRec):
                        continue
                    if its is not None and isinstance(y.cst, int) and \
                            y.cst <= 64 and y.sh == ():
                        r = its * y.cst
                        return TupV(r) if isinstance(x, TupV) else \
                            I.newlist(r)
                    if y.sh == () and y.dim == DLESS and not isinstance(
                            x, TupV):
                        el = None
                        if its:
                            el = its[0]
                        return I.newlist(None, el, deps=I.deps_of(x) | y.deps)
        # strings
        for x in (a, b):
            if isinstance(x, AV) and isinstance(x.cst, str):
                if on == "Add" and isinstance(a, AV) and isinstance(b, AV) \
                        and isinstance(a.cst, str) and isinstance(b.cst, str):
                    return const(a.cst + b.cst)
                return AV(None, None, I.deps_of(a) | I.deps_of(b), sh=())
        a0, b0 = a, b
        a, b = self.lower(I, a), self.lower(I, b)
        if a.cst is None or b.cst is None:
            I.ev("nonearith", "arithmetic on None")
        if a.isbool and b.isbool and on in ("BitAnd", "BitOr", "BitXor"):
            gv = None
            if a.gv is not None and b.gv is not None:
                if on == "BitXor":
                    gv = I.safe(tm.fn, "xor", *sorted([a.gv, b.gv],
                                                      key=tm.fmt))
                else:
                    gv = I.safe(self.boolop, "and" if on == "BitAnd" else
                                "or", [a.gv, b.gv])
            return AV(DLESS, gv, a.deps | b.deps, isbool=True,
                      sh=self.bshape(I, a.sh, b.sh))
        return self.arith(I, on, a, b)

    def arith(self, I, on, a, b):
        deps = a.deps | b.deps
        if on == "MatMult":
            return self.matmul(I, a, b)
        sh = self.bshape(I, a.sh, b.sh)
        # constant folding
        if isnum(a.cst) and isnum(b.cst):
            v = self.fold(on, a.cst, b.cst)
            if v is not None:
                r = const(v).copy(deps=deps)
                if isinstance(v, float) and v != 0 and not (
                        isinstance(a.cst, int) and isinstance(b.cst, int)):
                    pass
                if r.gv is not None and a.gv is not None and b.gv is not None:
                    g = I.safe(self.gvop, I, on, a, b)
                    if g is not None:
                        r.gv = g
                return r
        # elementwise on small arrays
        elems = None
        if a.elems is not None or b.elems is not None:
            elems = self.elop(I, on, a, b)
        dim = self.dimop(I, on, a, b)
        gv = None
        if elems is None:
            if a.gv is not None and b.gv is not None:
                gv = I.safe(self.gvop, I, on, a, b)
        r = AV(dim, gv, deps, E0, sh=sh, elems=elems)
        if elems is not None:
            r.gv = I.gv_of(r)
        # index spaces
        if a.isp is not None or b.isp is not None:
            x, y = (a, b) if a.isp is not None else (b, a)
            if on in ("Add", "Sub") and y.cst is NOC:
                pass
            elif on == "Add" and isinstance(y.cst, int) and y.cst == 0:
                r.isp = x.isp
        self.bounds(r, on, a, b)
        return r

    def bounds(self, r, on, a, b):
        def lo(x):
            if isnum(x.cst) and not isinstance(x.cst, complex):
                return x.cst
            return x.lo
        la, lb = lo(a), lo(b)
        ha = a.cst if isnum(a.cst) and not isinstance(a.cst, complex) \
            else a.hi
        hb = b.cst if isnum(b.cst) and not isinstance(b.cst, complex) \
            else b.hi
        if on == "Add":
            if la is not None and lb is not None:
                r.lo = la + lb
            if ha is not None and hb is not None:
                r.hi = ha + hb
        elif on == "Sub":
            if la is not None and hb is not None:
                r.lo = la - hb
            if ha is not None and lb is not None:
                r.hi = ha - lb
        elif on in ("Mult", "Div"):
            if la is not None and lb is not None and la > 0 and lb > 0:
                r.lo = 0 if on == "Div" else la * lb
                if r.lo == 0:
                    r.lo = None

    def fold(self, on, x, y):
        try:
            if on == "Add":
                return x + y
            if on == "Sub":
                return x - y
            if on == "Mult":
                return x * y
            if on == "Div":
                return x / y
            if on == "FloorDiv":
                return x // y
            if on == "Mod":
                return x % y
            if on == "Pow":
                v = x ** y
                if isinstance(v, complex) and not isinstance(x, complex):
                    return None
                if isinstance(v, int) and abs(v) > 10 ** 30:
                    return float(v)
                return v
        except Exception:
            return None
        return None

    def elop(self, I, on, a, b):
        if a.elems is not None and b.elems is not None:
            if set(a.elems) == set(b.elems):
                return {k: self.arith(I, on, a.elems[k], b.elems[k])
                        for k in a.elems}
            ka = len(next(iter(a.elems)))
            kb = len(next(iter(b.elems)))
            if ka == 2 and kb == 1:
                if all((k[1],) in b.elems for k in a.elems):
                    return {k: self.arith(I, on, a.elems[k],
                                          b.elems[(k[1],)])
                            for k in a.elems}
            return None
        if a.elems is not None and b.sh == ():
            return {k: self.arith(I, on, v, b) for k, v in a.elems.items()}
        if b.elems is not None and a.sh == ():
            return {k: self.arith(I, on, a, v) for k, v in b.elems.items()}
        return None

    def dimop(self, I, on, a, b):
        if on in ("Add", "Sub"):
            return self.dimcheck(I, a, b, "addition" if on == "Add" else
                                 "subtraction")
        if on == "Mod":
            return self.dimcheck(I, a, b, "modulo")
        if on == "Mult":
            return dmul(a.dim, b.dim)
        if on in ("Div", "FloorDiv"):
            return dmul(a.dim, b.dim, -1)
        if on == "Pow":
            self.needdless(I, b, "exponent")
            if a.dim == DLESS or a.dim == ANY:
                return a.dim
            if isnum(b.cst) and not isinstance(b.cst, complex):
                return dpow(a.dim, Fraction(repr(b.cst)).limit_denominator(
                    1000) if isinstance(b.cst, float) else b.cst)
            c = b.gv.const() if b.gv is not None else None
            if c is not None:
                return dpow(a.dim, c)
            return None
        if on in ("BitAnd", "BitOr", "BitXor"):
            return DLESS
        return None

    def gvop(self, I, on, a, b):
        x, y = a.gv, b.gv
        if x is None or y is None:
            return None
        if a.isbool and a.cst is NOC or b.isbool and b.cst is NOC:
            # booleans used as numbers stay ordinary atoms
            pass
        x, y = self.align(a, b)
        if on == "Add":
            return x + y
        if on == "Sub":
            return x - y
        if on == "Mult":
            return x * y
        if on == "Div":
            return x / y
        if on == "Pow":
            c = y.const()
            if c is not None:
                return tm.powq(x, c)
            return tm.exp_(tm.mul(y, self.log_gv(x)))
        if on == "FloorDiv":
            return self.floordiv(x, y)
        if on == "Mod":
            return self.mod(x, y)
        return tm.fn("op" + on, x, y, real=False)

    def align(self, a, b):
        """Broadcasting of a 1-D against an n-D operand is implicit."""
        return a.gv, b.gv

    def log_gv(self, x):
        c = x.const()
        if c is not None and c == 1:
            return tm.ZERO
        at = x.single_atom()
        if at is not None and at.kind == "exp":
            return at.args[0]
        # log of products of positive atoms
        if len(x.t) == 1:
            (m, cf), = x.t.items()
            if cf > 0 and all(tm.T.atoms[i].pos for i, _ in m):
                r = tm.ZERO if cf == 1 else tm.fn("log", tm.num(cf),
                                                  scalar=True)
                for i, e in m:
                    atm = tm.T.atoms[i]
                    if atm.kind == "exp":
                        r = r + tm.scale(atm.args[0], e)
                    else:
                        r = r + tm.scale(tm.fn("log", tm.of_atom(atm),
                                               scalar=atm.scalar), e)
                return r
        return tm.fn("log", x, scalar=tm.is_scalar(x))

    def floordiv(self, x, y):
        cx, cy = x.const(), y.const()
        if cx is not None and cy:
            return tm.num(cx // cy)
        if cy is not None and cy.denominator == 1 and cy > 0:
            # split an integer polynomial into multiple of cy plus rest
            q = {}
            r = {}
            for m, c in x.t.items():
                if c.denominator != 1 or not all(
                        tm.T.atoms[i].integer and e.denominator == 1 and
                        e > 0 for i, e in m):
                    return tm.fn("floordiv", x, y, scalar=tm.is_scalar(x),
                                 integer=True)
                k = c // cy
                if k:
                    q[m] = Fraction(k)
                rest = c - k * cy
                if rest:
                    r[m] = Fraction(rest)
            qe, re = tm.Expr(q), tm.Expr(r)
            rc = re.const()
            if rc is not None:
                return qe + tm.num(rc // cy)
            return qe + tm.fn("floordiv", re, y, scalar=tm.is_scalar(x),
                              integer=True)
        return tm.fn("floordiv", x, y,
                     scalar=tm.is_scalar(x) and tm.is_scalar(y), integer=True)

    def mod(self, x, y):
        cy = y.const()
        if cy is not None and cy > 0 and cy.denominator == 1 and all(
                c.denominator == 1 and all(
                    tm.T.atoms[i].integer and e > 0 and e.denominator == 1
                    for i, e in m)
                for m, c in x.t.items()):
            r = tm.Expr({m: Fraction(c % cy) for m, c in x.t.items()
                         if c % cy})
            rc = r.const()
            if rc is not None:
                return tm.num(rc % cy)
            return x - y * self.floordiv(x, y)
        return tm.fn("mod", x, y,
                     scalar=tm.is_scalar(x) and tm.is_scalar(y))

    def unop(self, I, op, v):
        on = type(op).__name__
        v = self.lower(I, v)
        if on == "USub":
            if isnum(v.cst):
                return const(-v.cst).copy(deps=v.deps, dim=v.dim)
            if isinstance(v.cst, bool):
                return const(-int(v.cst)).copy(deps=v.deps)
            el = None
            if v.elems is not None:
                el = {k: self.unop(I, op, x) for k, x in v.elems.items()}
            return AV(v.dim, I.safe(lambda: -v.gv) if v.gv is not None
                      else None, v.deps, sh=v.sh, elems=el,
                      lo=-v.hi if v.hi is not None else None,
                      hi=-v.lo if v.lo is not None else None)
        if on == "UAdd":
            return v
        if on == "Invert":
            if v.isbool or v.gv is not None and v.cst is NOC:
                return AV(DLESS, I.safe(self.not_gv, v.gv)
                          if v.isbool and v.gv is not None else
                          (I.safe(tm.fn, "inv", v.gv) if v.gv is not None
                           else None), v.deps, sh=v.sh, isbool=v.isbool)
        return AV(v.dim, None, v.deps, sh=v.sh)

    # ------------------------------------------------------------- compare
    def compare(self, I, op, a, b):
        on = type(op).__name__
        deps = I.deps_of(a) | I.deps_of(b)
        if on in ("Is", "IsNot"):
            r = self.is_(I, a, b)
            if isinstance(r, bool):
                v = r if on == "Is" else not r
                return const(v).copy(deps=deps)
            g = r
            if on == "IsNot" and g is not None:
                g = I.safe(self.not_gv, g)
            return AV(DLESS, g, deps, sh=(), isbool=True)
        if on in ("In", "NotIn"):
            its = I.static_iter(b)
            if isinstance(b, RefV) and isinstance(I.rec(b), DictRec) and \
                    isinstance(a, AV) and a.cst is not NOC:
                r = I.rec(b)
                if a.cst in r.items:
                    v = on == "In"
                    if not r.open:
                        return const(v)
                elif not r.open and r.rest is None:
                    return const(on != "In")
                g = I.gv_of(b)
                gv = I.safe(tm.fn, "in", I.gv_of(a), g, scalar=True) \
                    if g is not None else None
                if gv is not None and on == "NotIn":
                    gv = I.safe(self.not_gv, gv)
                return AV(DLESS, gv, deps, sh=(), isbool=True)
            if isinstance(b, AV) and isinstance(b.cst, str) and \
                    isinstance(a, AV) and isinstance(a.cst, str):
                return const((a.cst in b.cst) == (on == "In")).copy(deps=deps)
            if its is not None and isinstance(a, AV):
                eqs = [I.compare(ast.Eq(), a, x) for x in its]
                ts = [I.truth(e) for e in eqs]
                if any(t is True for t in ts):
                    return const(on == "In").copy(deps=deps)
                if all(t is False for t in ts):
                    return const(on != "In").copy(deps=deps)
                g = [I.bool_gv(e) for e, t in zip(eqs, ts) if t is None]
                gv = I.safe(self.boolop, "or", g) if None not in g else None
                if gv is not None and on == "NotIn":
                    gv = I.safe(self.not_gv, gv)
                return AV(DLESS, gv, deps, sh=(), isbool=True)
            g = [I.gv_of(a), I.gv_of(b)]
            gv = I.safe(tm.fn, "in", *g, scalar=True) \
                if None not in g else None
            if gv is not None and on == "NotIn":
                gv = I.safe(self.not_gv, gv)
            return AV(DLESS, gv, deps, sh=(), isbool=True)
        # structural tuples
        ia, ib = (I.static_iter(a) if isinstance(a, (TupV, RefV)) else None,
                  I.static_iter(b) if isinstance(b, (TupV, RefV)) else None)
        if on in ("Eq", "NotEq") and ia is not None and ib is not None:
            if len(ia) != len(ib):
                return const(on == "NotEq").copy(deps=deps)
            r = const(True)
            ts = []
            gs = []
            for x, y in zip(ia, ib):
                e = I.compare(ast.Eq(), x, y)
                ts.append(I.truth(e))
                gs.append(I.bool_gv(e))
            if any(t is False for t in ts):
                return const(on == "NotEq").copy(deps=deps)
            if all(t is True for t in ts):
                return const(on == "Eq").copy(deps=deps)
            gv = I.safe(self.boolop, "and", gs) if None not in gs else None
            if gv is not None and on == "NotEq":
                gv = I.safe(self.not_gv, gv)
            return AV(DLESS, gv, deps, sh=(), isbool=True)
        if isinstance(a, (FnV, ClsV, LibV)) or isinstance(b, (FnV, ClsV,
                                                              LibV)):
            return AV(DLESS, None, deps, sh=(), isbool=True)
        a, b = self.lower(I, a), self.lower(I, b)
        if a.cst is not NOC and b.cst is not NOC:
            x, y = a.cst, b.cst
            try:
                r = {"Eq": lambda: x == y, "NotEq": lambda: x != y,
                     "Lt": lambda: x < y, "LtE": lambda: x <= y,
                     "Gt": lambda: x > y, "GtE": lambda: x >= y}[on]()
                return const(bool(r)).copy(deps=deps)
            except Exception:
                I.ev("badcompare", "comparison of incompatible constants")
                return AV(DLESS, None, deps, sh=(), isbool=True)
        for x, y in ((a, b), (b, a)):
            if isinstance(x.cst, str) and (y.cst is None or y.sh == () and
                                           y.dim is not None and
                                           y.cst is NOC and not y.mnone
                                           and y.gv is not None and False):
                if on == "Eq":
                    return const(False).copy(deps=deps)
                if on == "NotEq":
                    return const(True).copy(deps=deps)
            if x.cst is None and y.cst is NOC and not y.mnone and \
                    on in ("Eq", "NotEq") and y.sh == ():
                return const(on == "NotEq").copy(deps=deps)
        if not (isinstance(a.cst, str) or isinstance(b.cst, str) or
                a.cst is None or b.cst is None):
            self.dimcheck(I, a, b, "comparison")
        sh = self.bshape(I, a.sh, b.sh)
        # interval decisions
        t = self.interval(on, a, b)
        if t is not None and sh == ():
            return const(t).copy(deps=deps)
        if a.ref == b.ref and on in ("Eq",) and sh == () and a.gv is not None:
            return const(True).copy(deps=deps)
        if a.elems is not None and b.sh == () or a.elems is not None and \
                b.elems is not None and set(a.elems) == set(b.elems):
            el = {k: I.compare(op, x, b if b.sh == () else b.elems[k])
                  for k, x in a.elems.items()}
            r = AV(DLESS, None, deps, sh=sh, isbool=True, elems=el)
            r.gv = I.gv_of(r)
            return r
        gv = None
        if a.gv is not None and b.gv is not None:
            gv = I.safe(self.cmp_gv, on, a.gv, b.gv)
        if gv is not None and sh == ():
            c = gv.const()
            if c is not None:
                return const(bool(c)).copy(deps=deps)
        return AV(DLESS, gv, deps, sh=sh, isbool=True)

    def cmp_gv(self, on, x, y):
        sc = tm.is_scalar(x) and tm.is_scalar(y)
        d = (x - y)
        c = d.const()
        if c is not None and not (tm.symbols(x) & {"inf", "nan"}):
            r = {"Eq": c == 0, "NotEq": c != 0, "Lt": c < 0, "LtE": c <= 0,
                 "Gt": c > 0, "GtE": c >= 0}[on]
            return tm.ONE if r else tm.ZERO
        if sc and on not in ("Eq", "NotEq") and tm.is_int(d):
            z = d if on in ("Gt", "GtE") else tm.ZERO - d
            s = 1 if on in ("Lt", "Gt") else 0
            try:
                lo = tm.lower_bound(z)
                if lo is not None and lo > s - 1:
                    return tm.ONE
                lo = tm.lower_bound(tm.ZERO - z)
                if lo is not None and lo > -s:
                    return tm.ZERO
            except tm.TooBig:
                pass
        if on == "Lt":
            return tm.fn("lt", x, y, scalar=sc)
        if on == "Gt":
            return tm.fn("lt", y, x, scalar=sc)
        if on == "LtE":
            return tm.fn("le", x, y, scalar=sc)
        if on == "GtE":
            return tm.fn("le", y, x, scalar=sc)
        p, q = sorted([x, y], key=lambda e: tm.fmt(e, 8))
        g = tm.fn("eq", p, q, scalar=sc)
        return g if on == "Eq" else self.not_gv(g)

    def interval(self, on, a, b):
        def rng(x):
            if isnum(x.cst) and not isinstance(x.cst, complex):
                return x.cst, x.cst
            return x.lo, x.hi
        (la, ha), (lb, hb) = rng(a), rng(b)
        if on in ("Lt", "GtE"):
            if ha is not None and lb is not None and ha < lb:
                return on == "Lt"
            if la is not None and hb is not None and la >= hb:
                return on != "Lt"
        if on in ("Gt", "LtE"):
            if la is not None and hb is not None and la > hb:
                return on == "Gt"
            if ha is not None and lb is not None and ha <= lb:
                return on != "Gt"
        if on in ("Eq", "NotEq"):
            if (la is not None and hb is not None and la > hb) or \
                    (ha is not None and lb is not None and ha < lb):
                return on == "NotEq"
        return None

    def is_(self, I, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, AV) and y.cst is None:
                if isinstance(x, AV):
                    if x.cst is None:
                        return True
                    if x.mnone:
                        g = x.gv
                        at = g.single_atom() if g is not None else None
                        none = tm.sym("None")
                        if at is not None and at.name == "ite":
                            if at.args[1] == none:
                                return at.args[0]
                            if at.args[2] == none:
                                return I.safe(self.not_gv, at.args[0])
                        return I.safe(tm.fn, "isnone", g, scalar=True) \
                            if g is not None else None
                    return False
                if isinstance(x, TopV):
                    return I.safe(tm.fn, "isnone", x.gv, scalar=True) \
                        if x.gv is not None else None
                return False
        if isinstance(a, AV) and isinstance(b, AV):
            for x, y in ((a, b), (b, a)):
                if isinstance(y.cst, bool):
                    if isinstance(x.cst, bool):
                        return x.cst == y.cst
                    if x.cst is not NOC:
                        return False
                if isinstance(y.cst, str) and isinstance(x.cst, str):
                    I.ev("isliteral", "identity test against a string")
                    return None
            if a.ref == b.ref:
                return True
            return None
        if isinstance(a, RefV) and isinstance(b, RefV):
            return a.id == b.id
        if isinstance(a, LibV) and isinstance(b, LibV):
            return a.name == b.name
        if isinstance(a, (LibV, ClsV)) and isinstance(b, (LibV, ClsV)):
            return False
        return None

    # ------------------------------------------------------------ indexing
    def keynorm(self, I, keys, nd):
        """Expand Ellipsis when the number of dimensions is known."""
        keys = list(keys)
        if any(k is ELL for k in keys) and nd is not None:
            i = [j for j, k in enumerate(keys) if k is ELL][0]
            used = sum(1 for k in keys if k is not ELL and not (
                isinstance(k, AV) and k.cst is None))
            fill = [SliceV(const(None), const(None), const(None))] * max(
                0, nd - used)
            keys = keys[:i] + fill + keys[i + 1:]
        return keys

    def fullslice(self, k):
        return isinstance(k, SliceV) and all(
            isinstance(x, AV) and x.cst is None for x in (k.lo, k.hi, k.step))

    def axlen(self, base, ax):
        if base.sh is not None and ax < len(base.sh):
            return base.sh[ax]
        return None

    def bound(self, I, v, n, default):
        """Slice bound as an Expr in [0, n]."""
        if isinstance(v, AV) and v.cst is None:
            return default
        if isinstance(v, AV):
            if isinstance(v.cst, int) and v.cst < 0:
                if n is None:
                    return None
                return n + E(v.cst)
            g = v.gv
            if g is None:
                return None
            return g
        return None

    def index(self, I, base, keys):
        if isinstance(base, RefV):
            return self.index_ref(I, base, keys)
        if isinstance(base, TupV):
            k = keys[0]
            if isinstance(k, AV) and isinstance(k.cst, int) and \
                    len(keys) == 1:
                if -len(base.items) <= k.cst < len(base.items):
                    return base.items[k.cst]
                I.ev("indexerr", "index %d out of range of a %d-tuple" % (
                    k.cst, len(base.items)))
                return TopV()
            if isinstance(k, SliceV) and len(keys) == 1:
                c = [x.cst for x in (k.lo, k.hi, k.step)]
                if all(x is None or isinstance(x, int) for x in c):
                    return TupV(base.items[slice(*c)])
            return I.generic_elem(base)
        if isinstance(base, RangeV):
            return AV(DLESS, None, I.deps_of(base), sh=())
        if isinstance(base, LibV):
            if base.name in ("numpy.r_", "numpy.c_", "numpy.s_",
                             "numpy.ix_"):
                return self.r_(I, base, keys)
            return TopV()
        if isinstance(base, TopV):
            deps = base.deps
            g = [base.gv]
            for k in keys:
                deps = deps | I.deps_of(k)
                g.append(I.gv_of(k))
            gv = None
            if None not in g:
                gv = I.safe(tm.fn, "item", *g, real=False)
            return TopV(deps, base.roots, gv)
        if isinstance(base, AV):
            if isinstance(base.cst, str):
                k = keys[0]
                if isinstance(k, AV) and isinstance(k.cst, int):
                    try:
                        return const(base.cst[k.cst])
                    except IndexError:
                        pass
                return AV(None, None, base.deps, sh=())
            r = self.index_av(I, base, keys)
            if base.dt and isinstance(r, AV) and r.sh != ():
                r = r.same(dt=base.dt)
            return r
        if isinstance(base, IterV):
            return TopV(I.deps_of(base), I.roots_of(base))
        return TopV(I.deps_of(base))

    def r_(self, I, base, keys):
        deps = E0
        g = []
        for k in keys:
            deps = deps | I.deps_of(k)
            h = I.gv_of(k)
            if base.name == "numpy.r_" and isinstance(k, SliceV):
                lo, hi = I.gv_of(k.lo), I.gv_of(k.hi)
                if isinstance(k.lo, AV) and k.lo.cst is None:
                    lo = tm.ZERO
                if isinstance(k.step, AV) and k.step.cst in (None, 1) and \
                        lo is not None and hi is not None:
                    h = I.safe(lambda: tm.fn("arange", hi - lo) + lo)
            g.append(h)
        gv = None
        if None not in g:
            gv = I.safe(tm.fn, "concatenate" if base.name == "numpy.r_"
                        else base.name, *g)
        isp = None
        return AV(DLESS, gv, deps, sh=(None,), isp=isp)

    def index_ref(self, I, ref, keys):
        r = I.rec(ref)
        if isinstance(r, DictRec):
            k = keys[0] if len(keys) == 1 else TupV(keys)
            key = NOC
            if isinstance(k, AV):
                key = k.cst
            elif isinstance(k, TupV) and all(
                    isinstance(x, AV) and x.cst is not NOC for x in k.items):
                key = tuple(x.cst for x in k.items)
            if key is not NOC:
                try:
                    if key in r.items:
                        return I.taint(r.items[key], r.deps)
                except TypeError:
                    pass
                if r.rest is not None:
                    return I.taint(r.rest, r.deps)
                if not r.open:
                    I.ev("keyerr", "key %r is never present" % (key,),
                         {"key": key})
                    return TopV()
                g = r.gv
                return TopV(r.deps, r.roots, I.safe(
                    tm.fn, "item", g, repr(key), real=False)
                    if g is not None else None)
            e = r.rest
            for v in r.items.values():
                e = v if e is None else I.join(e, v, (None, E0))
            d = r.deps | I.deps_of(k)
            return I.taint(e, d) if e is not None else TopV(d, r.roots)
        if isinstance(r, ListRec):
            if len(keys) == 1:
                k = keys[0]
                if r.items is not None:
                    if isinstance(k, AV) and isinstance(k.cst, int):
                        if -len(r.items) <= k.cst < len(r.items):
                            return r.items[k.cst]
                        I.ev("indexerr", "index %d out of range of a list of "
                             "%d" % (k.cst, len(r.items)))
                        return TopV()
                    if isinstance(k, SliceV):
                        c = [x.cst for x in (k.lo, k.hi, k.step)]
                        if all(x is None or isinstance(x, int) for x in c):
                            return I.newlist(r.items[slice(*c)])
                if isinstance(k, SliceV):
                    return I.newlist(None, I.generic_elem(ref),
                                     deps=I.deps_of(k) | r.deps)
            if all(isinstance(k, AV) for k in keys):
                av = self.lower(I, ref)
                if av.gv is not None and av.elems is None:
                    el = I.generic_elem(ref)
                    if isinstance(el, AV):
                        x = self.index_av(I, AV(
                            el.dim, av.gv, av.deps, r.roots,
                            sh=(av.sh if av.sh is not None else None)), keys)
                        return x
            return I.taint(I.generic_elem(ref), I.deps_of(keys[0]))
        return TopV(getattr(r, "deps", E0), getattr(r, "roots", E0))

    def index_av(self, I, base, keys):
        nd = len(base.sh) if base.sh is not None else None
        if base.mnone and base.gv is not None:
            pass
        keys = self.keynorm(I, keys, nd)
        deps = base.deps
        for k in keys:
            deps = deps | I.deps_of(k)
        # full slices only
        if all(self.fullslice(k) for k in keys) and keys:
            return base.copy(roots=base.roots, ref=None, lst=None)
        # element of a small static array
        if base.elems is not None:
            r = self.index_elems(I, base, keys, deps)
            if r is not None:
                return r
        if len(keys) == 1 and isinstance(keys[0], TupV):
            its = keys[0].items
            if len(its) == 1:
                keys = [its[0]]
            else:
                keys = list(its)
        keys = [self.lower(I, k) if isinstance(k, (RefV, RangeV)) else k
                for k in keys]
        outsh = []
        known = base.sh is not None
        ax = 0
        view = True
        adv = False
        steps = []          # ops to apply on the term
        gvok = base.gv is not None
        prefix = False
        for k in keys:
            n = self.axlen(base, ax)
            if isinstance(k, AV) and k.cst is None:
                outsh.append(tm.ONE)
                steps.append(("new", len(steps)))
                continue
            if isinstance(k, SliceV):
                st = k.step
                step1 = isinstance(st, AV) and (st.cst is None or st.cst == 1)
                if self.fullslice(k):
                    outsh.append(n)
                    steps.append(("all",))
                    ax += 1
                    continue
                for bd in (k.lo, k.hi, k.step):
                    if isinstance(bd, AV):
                        if bd.cst is not None:
                            self.needdless(I, bd, "slice bound")
                        self.intcheck(I, bd)
                if not step1:
                    c = st.cst if isinstance(st, AV) else NOC
                    lo = I.gv_of(k.lo)
                    hi = I.gv_of(k.hi)
                    if isinstance(c, int) and c == -1 and \
                            isinstance(k.lo, AV) and k.lo.cst is None and \
                            isinstance(k.hi, AV) and k.hi.cst is None:
                        outsh.append(n)
                        steps.append(("rev", n))
                    else:
                        outsh.append(None)
                        if lo is None or hi is None or I.gv_of(st) is None:
                            gvok = False
                        else:
                            nn = n if n is not None else tm.sym("n?")
                            hi2 = n if (isinstance(k.hi, AV) and
                                        k.hi.cst is None and n is not None) \
                                else hi
                            lo2 = tm.ZERO if (isinstance(k.lo, AV) and
                                              k.lo.cst is None) else lo
                            steps.append(("stride", lo2, hi2, I.gv_of(st)))
                    ax += 1
                    continue
                lo = self.bound(I, k.lo, n, tm.ZERO)
                hi = self.bound(I, k.hi, n, n)
                if isinstance(k.hi, AV) and k.hi.cst is None and n is None:
                    hi = tm.sym("end", integer=True)
                if lo is None or hi is None:
                    gvok = False
                    outsh.append(None)
                    steps.append(("all",))
                else:
                    L = I.safe(lambda: hi - lo)
                    if "end" in tm.symbols(hi):
                        L = None
                    outsh.append(L)
                    if L is not None and n is not None and L == n:
                        steps.append(("all",))
                    elif L is not None and L == tm.ONE and ax == 0 and \
                            not steps and base.sh is not None and \
                            len(base.sh) > 1 and n is not None and \
                            n.const() is not None and \
                            lo.const() is not None and \
                            0 <= lo.const() < n.const():
                        # an axis of length one in front
                        steps.append(("idx", lo))
                    else:
                        steps.append(("slice", lo, hi, n))
                    if lo == tm.ZERO:
                        prefix = True
                ax += 1
                continue
            if isinstance(k, AV):
                if k.isbool or (k.sp == "mask"):
                    view = False
                    adv = True
                    kd = len(k.sh) if k.sh is not None else 1
                    for j in range(kd):
                        if k.sh is not None and base.sh is not None and \
                                ax + j < len(base.sh):
                            p, q = k.sh[j], base.sh[ax + j]
                            if p is not None and q is not None and p != q:
                                dd = I.safe(lambda: (p - q).const())
                                I.ev("maskspace", "boolean mask of length %s "
                                     "indexes an axis of length %s" % (
                                         tm.fmt(p), tm.fmt(q)),
                                     {"p": p, "q": q})
                    if k.gv is not None and k.gv == tm.ONE and kd == 1 and \
                            n is not None:
                        outsh.append(n)
                        steps.append(("all",))
                        ax += 1
                        continue
                    cnt = I.safe(tm.fn, "count", k.gv, scalar=True,
                                 integer=True) if k.gv is not None else None
                    outsh.append(cnt)
                    if k.gv is None:
                        gvok = False
                    else:
                        steps.append(("sel", k.gv, kd))
                    ax += kd
                    continue
                self.needdless(I, k, "index")
                self.intcheck(I, k)
                if k.isp is not None and n is not None and k.isp != n:
                    self.ispace(I, k, n)
                if k.sh == ():
                    g = k.gv
                    if isinstance(k.cst, int) and k.cst < 0 and n is not None:
                        g = n + E(k.cst)
                    if g is None:
                        gvok = False
                    else:
                        steps.append(("idx", g))
                    if isinstance(k.cst, int) and n is not None:
                        c = n.const()
                        if c is not None and not -c <= k.cst < c:
                            I.ev("indexerr", "index %d out of range of axis "
                                 "of length %s" % (k.cst, c))
                    ax += 1
                    continue
                view = False
                adv = True
                if k.gv is not None:
                    at = k.gv.single_atom()
                    if k.sh is not None and len(k.sh) == 1 and \
                            k.sh[0] is not None and k.sh[0] == tm.ONE and \
                            tm.is_scalar(k.gv):
                        # only an axis in front may be left out
                        steps.append(("idx" if ax == 0 and not steps else
                                      "take1", k.gv))
                    elif at is not None and at.name == "flatnonzero" and not (
                            k.sp == "ix" and len(keys) > 1):
                        steps.append(("sel", at.args[0], 1))
                    else:
                        steps.append(("outer" if k.sp == "ix" else "take",
                                      k.gv))
                else:
                    gvok = False
                if k.sh is None:
                    known = False
                else:
                    outsh.extend(k.sh)
                ax += 1
                continue
            if isinstance(k, TopV):
                gk = k.gv
                if gk is None:
                    gvok = False
                else:
                    steps.append(("take", gk))
                known = False
                view = False
                ax += 1
                continue
            if k is ELL:
                steps.append(("ell",))
                known = False
                continue
            # tuples etc. inside a key
            g = I.gv_of(k)
            if g is None:
                gvok = False
            else:
                steps.append(("take", g))
            known = False
            view = False
            ax += 1
        if base.sh is not None and ax > len(base.sh) and all(
                isinstance(k, (AV, SliceV)) for k in keys):
            I.ev("indexerr", "%d indices for an array with %d dimension%s" % (
                ax, len(base.sh), "" if len(base.sh) == 1 else "s"),
                {"n": ax, "nd": len(base.sh)})
        sh = None
        if known:
            sh = tuple(outsh) + tuple(base.sh[ax:])
        elif base.sh is None and keys and all(
                isinstance(k, AV) and k.sh == () and k.cst is not None
                and not k.isbool for k in keys):
            sh = None
        gv = None
        if gvok:
            nda = nd
            st2 = steps
            if nd is not None and not any(q[0] == "ell" for q in steps):
                # new leading axes and the axes of length one before the
                # others do not appear in the term
                while st2 and st2[0][0] == "new":
                    st2 = st2[1:]
                u = self.lead(base.sh)
                while u and st2 and (st2[0][0] in ("all", "new") or
                                     st2[0] in (("idx", tm.ZERO),
                                                ("idx", E(-1)))):
                    if st2[0][0] != "new":
                        u -= 1
                        nda -= 1
                    st2 = st2[1:]
                if st2 and st2[0][0] == "take1":
                    st2 = [("idx", st2[0][1])] + list(st2[1:])
                if not st2:
                    u = 0
                    nda = self.nd_of(base)
            gv = I.safe(self.index_gv, base.gv, st2, nda)
            if gv is not None and sh is not None and all(
                    x is not None and x == tm.ONE for x in sh):
                gv = I.safe(self.scalarize, gv)
        r = AV(base.dim, gv, deps,
               base.roots if view and sh != () else E0, sh=sh,
               isbool=base.isbool)
        if prefix and len(keys) == 1:
            r.sp = "prefix"
        if base.isp is not None:
            r.isp = base.isp
        return self.setnd(r)

    def intcheck(self, I, k):
        """An index / bound must be an integer; float-valued index events."""
        return

    def ispace(self, I, k, n):
        d = I.safe(lambda: (k.isp - n).const())
        I.ev("ispace", "index into an axis of length %s is used on an axis "
             "of length %s" % (tm.fmt(k.isp), tm.fmt(n)),
             {"have": k.isp, "want": n})

    def scalarize(self, gv):
        """Mark the (fully indexed) atoms as scalars."""
        for i in gv.atoms():
            at = tm.T.atoms[i]
            if not at.scalar and at.kind == "fn" and at.name in (
                    "idx", "ite", "min", "max", "item", "get"):
                at.scalar = True
        return gv

    def index_gv(self, gv, steps, nd):
        steps = [s for s in steps if not (s[0] == "ell" and nd is not None)]
        while steps and steps[-1][0] == "all":
            steps = steps[:-1]
        if not steps:
            return gv
        if len(steps) == 1:
            s = steps[0]
            return self.apply1(gv, s, nd)
        # multi-axis key: keep as one operator
        key = tuple(tuple(x if isinstance(x, (str, int, tm.Expr)) else "?"
                          for x in s if not isinstance(x, int) or True)
                    for s in steps)
        if all(s[0] == "all" for s in steps[:-1]) and steps[-1][0] in (
                "idx", "slice", "sel", "take"):
            return self.push(gv, ("last%d" % len(steps),) + key[-1], nd)
        return self.push(gv, key, nd)

    def push(self, gv, key, nd):
        """Opaque indexing operator pushed onto the non-scalar atoms."""
        return self.pw(gv, lambda at: tm.fn(
            "get", tm.of_atom(at), key, real=at.real, pos=at.pos,
            integer=at.integer), nd, ("get", key))

    def pw(self, gv, f, nd, name):
        """Map f over the non-scalar atoms of gv when the operation commutes
        with elementwise arithmetic (all atoms of the same rank)."""
        ats = self.array_atoms(gv, [])
        if len(ats) > 1 and nd is not None and nd > 1:
            if any(a.shape != nd for a in ats) or any(
                    a.shp != ats[0].shp for a in ats if a.shp and ats[0].shp):
                return tm.fn("getw", gv, name, real=tm.is_real(gv))

        done = {}

        def go(at):
            if at.scalar:
                return tm.of_atom(at)
            r = done.get(at.id)
            if r is None:
                r = done[at.id] = go1(at)
            return r

        def go1(at):
            if at.kind == "poly":
                return tm.map_atoms(at.args[0], go)
            if at.kind == "exp":
                return tm.exp_(tm.map_atoms(at.args[0], go))
            if at.kind == "root":
                return tm.powq(tm.map_atoms(at.args[0], go),
                               Fraction(1, at.args[1]))
            if at.kind == "fn" and at.name == "ite":
                c, x, y = at.args
                return self.mk_ite(c if tm.is_scalar(c) else
                                   self.bool_push(c, go),
                                   tm.map_atoms(x, go), tm.map_atoms(y, go))
            if at.kind == "fn" and at.name in ("conj",):
                return tm.conj(tm.map_atoms(at.args[0], go))
            if at.kind == "fn" and at.name in POINTFN:
                return tm.fn(at.name, *[tm.map_atoms(x, go) if isinstance(
                    x, tm.Expr) and not tm.is_scalar(x) else x
                    for x in at.args],
                    real=at.real, pos=at.pos, scalar=False,
                    integer=at.integer)
            return f(at)
        return tm.map_atoms(gv, go)

    def bool_push(self, c, go):
        return tm.map_atoms(c, go)

    def mk_ite(self, c, x, y):
        if x == y:
            return x
        cc = c.const()
        if cc is not None:
            return x if cc != 0 else y
        return tm.fn("ite", c, x, y, real=tm.is_real(x) and tm.is_real(y),
                     scalar=tm.is_scalar(x) and tm.is_scalar(y),
                     pos=tm.is_pos(x) and tm.is_pos(y),
                     integer=tm.is_int(x) and tm.is_int(y))

    def array_atoms(self, gv, acc):
        for i in gv.atoms():
            at = tm.T.atoms[i]
            if at.scalar:
                continue
            if at.kind in ("poly", "exp", "root"):
                self.array_atoms(at.args[0], acc)
            elif at not in acc:
                acc.append(at)
        return acc

    def apply1(self, gv, s, nd):
        op = s[0]
        if op == "new":
            return self.push(gv, ("new", s[1]), nd)
        if op == "idx":
            return self.pw(gv, lambda at: self.idx_atom(at, s[1]), nd, s)
        if op == "slice":
            # rfft is the first half of fft
            return self.pw(gv, lambda at: self.slice_atom(
                at, s[1], s[2], s[3]), nd, s)
        if op == "sel":
            return self.pw(gv, lambda at: tm.fn(
                "sel", tm.of_atom(at), s[1], real=at.real, pos=at.pos,
                integer=at.integer), nd, s)
        if op == "take":
            return self.pw(gv, lambda at: tm.fn(
                "idx", tm.of_atom(at), s[1], real=at.real, pos=at.pos,
                integer=at.integer), nd, s)
        return self.push(gv, tuple(s), nd)

    def idx_atom(self, at, k):
        x = tm.of_atom(at)
        if at.kind == "fn":
            if at.name == "arange":
                return k
            if at.name == "slice" and isinstance(at.args[1], tm.Expr):
                return self.idx_expr(at.args[0], at.args[1] + k)
            if at.name == "st":
                r = self.st_lookup(at, k)
                if r is not None:
                    return r
            if at.name == "stsl":
                # store into a slice: base, lo, hi, value
                base, lo, hi, val = at.args
                c1 = (k - lo).const()
                c2 = (hi - k).const()
                if c1 is not None and c1 < 0 or c2 is not None and c2 <= 0:
                    return self.idx_expr(base, k)
                if (c1 is not None and c1 >= 0) and (
                        c2 is not None and c2 > 0 or
                        "end" in tm.symbols(hi)):
                    return self.idx_expr(val, k - lo)
            if at.name == "roll" and len(at.args) == 2:
                pass
            if at.name == "arr":
                c = k.const()
                if c is not None:
                    for i in range(0, len(at.args), 2):
                        if at.args[i] == (int(c),):
                            return at.args[i + 1]
            if at.name == "mapst":
                pass
        return tm.fn("idx", x, k, real=at.real, pos=at.pos,
                     integer=at.integer)

    def idx_expr(self, gv, k):
        if tm.is_scalar(gv):
            return gv
        return self.pw(gv, lambda a: self.idx_atom(a, k), None, None)

    def st_lookup(self, at, k):
        base, key, val = at.args
        if key == k:
            return val
        c = (key - k).const()
        if c is not None and c != 0:
            return self.idx_expr(base, k)
        return None

    def slice_atom(self, at, lo, hi, n):
        if at.kind == "fn":
            if at.name == "arange" and nonneg(lo) and nonneg(hi):
                return tm.fn("arange", hi - lo) + lo
            if at.name == "slice" and isinstance(at.args[1], tm.Expr) and \
                    "end" not in tm.symbols(hi) and nonneg(lo) and \
                    nonneg(hi) and nonneg(at.args[1]):
                return self.slice_expr(at.args[0], at.args[1] + lo,
                                       at.args[1] + hi, None)
            if at.name == "st":
                base, key, val = at.args
                ck = key.const()
                cl = lo.const()
                if ck is not None and cl is not None:
                    if 0 <= ck < cl:
                        return self.slice_expr(base, lo, hi, n)
                    if ck >= cl >= 0:
                        d = (hi - key).const()
                        inner = self.slice_expr(base, lo, hi, n)
                        if d is None or d > 0:
                            r = self.mk_st(inner, key - lo, val)
                            b = r.single_atom()
                            if b is not None and b.shp is None and at.shp \
                                    and None not in at.shp:
                                setshp(b, (hi - lo,) + at.shp[1:])
                            return r
                        return inner
                else:
                    d = (key - hi).const()
                    if d is not None and d >= 0:
                        return self.slice_expr(base, lo, hi, n)
            if at.name == "stsl":
                base, l2, h2, val = at.args
                if l2 == lo and h2 == hi:
                    return val
            if at.name == "fft" and lo == tm.ZERO and n is not None and \
                    len(at.args) == 1:
                h = self.floordiv(n, E(2)) + tm.ONE
                if h == hi and tm.is_real(at.args[0]):
                    return tm.linear("rfft", at.args[0])
            if at.name == "fftint" and lo == tm.ZERO:
                nn = at.args[0]
                h = self.floordiv(nn + tm.ONE, E(2))
                if h == hi:
                    return tm.fn("arange", h)
            if lo == tm.ZERO and at.name in ("cumsum",):
                pass
        return tm.fn("slice", tm.of_atom(at), lo, hi, real=at.real,
                     pos=at.pos, integer=at.integer)

    def slice_expr(self, gv, lo, hi, n):
        if tm.is_scalar(gv):
            return gv
        return self.pw(gv, lambda a: self.slice_atom(a, lo, hi, n), None,
                       None)

    def mk_st(self, base, key, val):
        at = base.single_atom()
        if at is not None and at.name == "st":
            if at.args[1] == key:
                return self.mk_st(at.args[0], key, val)
            c0, c1 = at.args[1].const(), key.const()
            if c0 is not None and c1 is not None and c1 < c0:
                inner = self.mk_st(at.args[0], key, val)
                return self.mk_st(inner, at.args[1], at.args[2])
        if at is not None and at.name == "stsl":
            # keep slice stores outermost when disjoint
            lo, hi = at.args[1], at.args[2]
            d = (key - lo).const()
            if d is not None and d < 0:
                inner = self.mk_st(at.args[0], key, val)
                return tm.fn("stsl", inner, lo, hi, at.args[3],
                             real=tm.is_real(inner) and
                             tm.is_real(at.args[3]))
        return tm.fn("st", base, key, val, real=tm.is_real(base) and
                     tm.is_real(val), pos=(tm.is_pos(base) or
                                           base.is_zero() and False)
                     and tm.is_pos(val))

    def index_elems(self, I, base, keys, deps):
        nd = len(next(iter(base.elems)))
        if len(keys) == 1 and nd == 1:
            k = keys[0]
            n = len(base.elems)
            if isinstance(k, AV) and isinstance(k.cst, int) and \
                    not isinstance(k.cst, bool):
                i = k.cst if k.cst >= 0 else n + k.cst
                if (i,) in base.elems:
                    return base.elems[(i,)]
                I.ev("indexerr", "index %d out of range of %d elements" % (
                    k.cst, n))
                return TopV(deps)
            if isinstance(k, SliceV):
                c = [x.cst if isinstance(x, AV) else NOC
                     for x in (k.lo, k.hi, k.step)]
                if all(x is None or isinstance(x, int) for x in c):
                    idx = range(n)[slice(*c)]
                    el = {(j,): base.elems[(i,)] for j, i in enumerate(idx)}
                    r = AV(self.joindims(I, list(el.values())), None,
                           base.deps, base.roots, sh=(E(len(el)),), elems=el)
                    r.gv = I.gv_of(r)
                    return r
            if isinstance(k, AV) and k.sh == () and not k.isbool:
                j = None
                for v in base.elems.values():
                    j = v if j is None else I.join_av(j, v, None, E0)
                g = base.gv
                if j is not None and g is not None and k.gv is not None:
                    j = j.copy(gv=I.safe(tm.fn, "idx", g, k.gv,
                                         scalar=True), deps=deps)
                return j
        if nd == 2 and all(isinstance(k, AV) and isinstance(k.cst, int)
                           for k in keys):
            rows = 1 + max(k[0] for k in base.elems)
            cols = 1 + max(k[1] for k in base.elems)
            i = keys[0].cst
            i = i if i >= 0 else rows + i
            if len(keys) == 2:
                j = keys[1].cst
                j = j if j >= 0 else cols + j
                if (i, j) in base.elems:
                    return base.elems[(i, j)]
                I.ev("indexerr", "index out of range")
                return TopV(deps)
            el = {(k[1],): v for k, v in base.elems.items() if k[0] == i}
            if el:
                r = AV(self.joindims(I, list(el.values())), None, base.deps,
                       base.roots, sh=(E(len(el)),), elems=el)
                r.gv = I.gv_of(r)
                return r
        if nd == 2 and len(keys) == 2:
            rows = 1 + max(k[0] for k in base.elems)
            cols = 1 + max(k[1] for k in base.elems)
            rr = self.static_sel(keys[0], rows)
            cc = self.static_sel(keys[1], cols)
            if rr is not None and cc is not None:
                el = {}
                for a, i in enumerate(rr[0]):
                    for b, j in enumerate(cc[0]):
                        key = ()
                        if not rr[1]:
                            key += (a,)
                        if not cc[1]:
                            key += (b,)
                        el[key] = base.elems[(i, j)]
                sh = tuple([E(len(rr[0]))] * (not rr[1]) +
                           [E(len(cc[0]))] * (not cc[1]))
                r = AV(self.joindims(I, list(el.values())), None, base.deps,
                       base.roots, sh=sh, elems=el)
                r.gv = I.gv_of(r)
                return r
        return None

    def static_sel(self, k, n):
        if isinstance(k, AV) and isinstance(k.cst, int):
            i = k.cst if k.cst >= 0 else n + k.cst
            return ([i], True) if 0 <= i < n else None
        if isinstance(k, SliceV):
            c = [x.cst if isinstance(x, AV) else NOC
                 for x in (k.lo, k.hi, k.step)]
            if all(x is None or isinstance(x, int) for x in c):
                return list(range(n)[slice(*c)]), False
        return None

    # -------------------------------------------------------------- stores
    def stored(self, I, base, keys, v):
        val = self.lower(I, v)
        nd = len(base.sh) if base.sh is not None else None
        keys = self.keynorm(I, keys, nd)
        deps = base.deps | val.deps
        for k in keys:
            deps = deps | I.deps_of(k)
        self.fits(I, base, keys, val)
        self.lossy(I, base.dt, val)
        full = bool(keys) and all(self.fullslice(k) or k is ELL for k in keys)
        if full:
            r = base.copy(dim=val.dim if val.dim != ANY else (
                val.dim if base.dim in (None, ANY) else base.dim),
                gv=val.gv, deps=val.deps, elems=None, cst=NOC, dt=base.dt,
                isbool=base.isbool)
            if val.elems is not None and val.sh == base.sh:
                r.elems = val.elems
            return r
        # units of the new content
        dim = base.dim
        if val.cst is not NOC and val.dim == DLESS and not (
                base.dim is None or base.dim == ANY or base.dim == DLESS):
            dim = base.dim           # literal placeholder
        elif base.dim == DLESS and base.gv is not None and \
                base.gv.const() is not None:
            # np.ones(..) etc. used as storage
            dim = val.dim
        elif base.dim is None or base.dim == ANY:
            dim = val.dim if val.dim != ANY else base.dim
            if val.cst is not NOC and val.dim == DLESS:
                dim = base.dim
        elif val.dim is None or val.dim == ANY:
            dim = base.dim
        elif val.dim != base.dim:
            el = base.elems
            static = base.sh is not None and all(
                x is not None and x.const() is not None for x in base.sh)
            if el is None and not static:
                I.ev("dim", "stores a quantity with unit %s into an array "
                     "with unit %s" % (dfmt(val.dim), dfmt(base.dim)),
                     {"a": val.dim, "b": base.dim, "store": True})
            dim = None
        elems = None
        if base.elems is not None:
            nd = len(next(iter(base.elems)))
            kk = tuple(k.cst if isinstance(k, AV) else NOC for k in keys)
            if all(isinstance(x, int) for x in kk) and len(kk) == nd and \
                    val.sh == ():
                mx = [1 + max(k[i] for k in base.elems) for i in range(nd)]
                kk = tuple(x if x >= 0 else mx[i] + x
                           for i, x in enumerate(kk))
                if kk in base.elems:
                    elems = dict(base.elems)
                    elems[kk] = val
                    r = base.copy(dim=self.joindims(I, list(elems.values())),
                                  gv=None, deps=deps, elems=elems, cst=NOC,
                                  dt=base.dt)
                    r.gv = I.gv_of(r)
                    return r
        gv = None
        bg = base.gv
        self.maskcheck(I, base, keys)
        if bg is not None and val.gv is not None:
            gv = I.safe(self.stored_gv, I, base, keys, val)
            at = gv.single_atom() if gv is not None else None
            if at is not None and at.shp is None and base.sh is not None:
                at.shp = lead1(base.sh)
        return base.copy(dim=dim, gv=gv, deps=deps, elems=None, cst=NOC,
                         dt=base.dt)

    def maskcheck(self, I, base, keys):
        ax = 0
        for k in keys:
            if isinstance(k, AV) and k.isbool and k.sh and base.sh is not None:
                if ax < len(base.sh):
                    p, q = k.sh[0], base.sh[ax]
                    if p is not None and q is not None and p != q:
                        I.ev("maskspace", "boolean mask of length %s stores "
                             "into an axis of length %s" % (
                                 tm.fmt(p), tm.fmt(q)), {"p": p, "q": q})
            elif isinstance(k, AV) and k.isp is not None and \
                    base.sh is not None and ax < len(base.sh) and \
                    base.sh[ax] is not None and k.isp != base.sh[ax]:
                self.ispace(I, k, base.sh[ax])
            ax += 1

    def stored_gv(self, I, base, keys, val):
        r = self.stored_gv1(I, base, keys, val)
        if r is None or len(keys) != 1 or "uninit" not in tm.symbols(r):
            return r
        return self.covered(r)

    def covered(self, r):
        """Stores which together fill the array leave nothing of what it
        was created with."""
        chain, x = [], r
        while True:
            at = x.single_atom()
            if at is None or at.kind != "fn" or \
                    at.name != "ststr":
                break
            chain.append(at)
            x = at.args[0]
        if x != tm.sym("uninit", scalar=True) or len(chain) < 2:
            return r
        if all(a.args[2] == tm.sym("end", integer=True) for a in chain):
            cs = [(a.args[1].const(), a.args[3].const()) for a in chain]
            st = cs[0][1]
            if st is None or sorted(c[0] for c in cs if c[0] is not None) != \
                    list(range(int(st))) or any(c[1] != st for c in cs):
                return r
            order = sorted(chain, key=lambda a: a.args[1].const())
        else:
            return r
        y = tm.ZERO
        for a in order:
            if any("uninit" in tm.symbols(z) for z in a.args[1:]):
                return r
            y = tm.fn(a.name, y, *a.args[1:], real=tm.is_real(y) and
                      tm.is_real(a.args[-1]), scalar=False)
            b = y.single_atom()
            if b is not None and b.shp is None:
                b.shp = a.shp
        return y

    def stored_gv1(self, I, base, keys, val):
        bg = base.gv
        if len(keys) == 1:
            k = keys[0]
            n = self.axlen(base, 0)
            if isinstance(k, AV) and k.sh == () and not k.isbool and \
                    k.gv is not None:
                g = k.gv
                if isinstance(k.cst, int) and k.cst < 0 and n is not None:
                    g = n + E(k.cst)
                at = g.single_atom()
                if at is not None and at.name == "i" and at.kind == "fn" and \
                        n is not None and at.args[0] == tm.ZERO and \
                        at.args[1] == n and at.args[2] == tm.ONE:
                    return tm.fn("mapst", bg, self.unidx(val.gv, g),
                                 real=tm.is_real(bg) and tm.is_real(val.gv))
                return self.mk_st(bg, g, val.gv)
            if isinstance(k, AV) and k.isbool and k.gv is not None:
                # masked store = ite
                v = val.gv
                if not tm.is_scalar(v):
                    v2 = self.unsel(v, k.gv)
                    if v2 is None:
                        return tm.fn("stm", bg, k.gv, v, real=tm.is_real(bg)
                                     and tm.is_real(v))
                    v = v2
                    return self.mk_ite(k.gv, v, bg)
                return self.mk_ite(self.leadmask(I, base, k, k.gv), v, bg)
            if isinstance(k, SliceV):
                st = k.step
                step1 = isinstance(st, AV) and (st.cst is None or st.cst == 1)
                if step1:
                    lo = self.bound(I, k.lo, n, tm.ZERO)
                    hi = self.bound(I, k.hi, n, n if n is not None else
                                    tm.sym("end", integer=True))
                    if lo is not None and hi is not None:
                        if lo == tm.ZERO and n is not None and hi == n:
                            return val.gv
                        return self.mk_stsl(bg, lo, hi, val.gv)
                g = [I.gv_of(k.lo), I.gv_of(k.hi), I.gv_of(k.step)]
                if None in g:
                    return None
                if isinstance(k.lo, AV) and k.lo.cst is None:
                    g[0] = tm.ZERO
                if n is not None and (isinstance(k.hi, AV) and
                                      k.hi.cst is None or g[1] == n):
                    g[1] = tm.sym("end", integer=True)
                r = tm.fn("ststr", bg, g[0], g[1], g[2], val.gv,
                          real=tm.is_real(bg) and tm.is_real(val.gv),
                          scalar=False)
                at = r.single_atom()
                if base.sh and len(base.sh) == 1 and n is not None and \
                        at is not None and at.shp is None:
                    at.shp = (n,)
                return r
        if len(keys) == 1 and isinstance(keys[0], AV) and keys[0].sh and \
                len(keys[0].sh) == 1 and keys[0].gv is not None and \
                not keys[0].isbool:
            # the places of an index array
            k, v = keys[0].gv, val.gv
            at = k.single_atom()
            if at is not None and at.name == "flatnonzero" and \
                    tm.is_scalar(v) and tm.is_scalar(bg) is not None:
                return self.mk_ite(self.leadmask(I, base, keys[0], at.args[0]), v,
                                   bg)
            return tm.fn("sti", bg, k, v, real=tm.is_real(bg) and
                         tm.is_real(v), scalar=False)
        g = [I.gv_of(k) if k is not ELL else tm.sym("...") for k in keys]
        if None in g:
            return None
        # generic loop index over the leading axis with full rest
        k0 = keys[0]
        if isinstance(k0, AV) and k0.gv is not None and all(
                self.fullslice(k) for k in keys[1:]):
            return self.stored_gv(I, base, [k0], val)
        return tm.fn("stn", bg, tuple(g), val.gv, real=tm.is_real(bg) and
                     tm.is_real(val.gv))

    def leadmask(self, I, base, k, g):
        """A mask of the leading axes, against the whole array."""
        if base.sh is None or k.sh is None or \
                not 0 < len(k.sh) < len(base.sh):
            return g
        n = len(k.sh)
        if not k.isbool:
            k = AV(DLESS, g, k.deps, sh=base.sh[:1], isbool=True)
            n = 1
        all_ = SliceV(const(None), const(None), const(None))
        r = self.index(I, k.copy(gv=g), [all_] * n + [const(None)] * (
            len(base.sh) - n))
        return r.gv if isinstance(r, AV) and r.gv is not None else g

    def mk_stsl(self, base, lo, hi, val):
        at = base.single_atom()
        if at is not None and at.name == "stsl" and at.args[1] == lo and \
                at.args[2] == hi:
            base = at.args[0]
        return tm.fn("stsl", base, lo, hi, val, real=tm.is_real(base) and
                     tm.is_real(val))

    def unsel(self, v, mask):
        """x such that sel(x, mask) == v, or None."""
        bad = []

        def go(at):
            if at.scalar:
                return tm.of_atom(at)
            if at.kind == "poly":
                return tm.map_atoms(at.args[0], go)
            if at.kind == "exp":
                return tm.exp_(tm.map_atoms(at.args[0], go))
            if at.kind == "root":
                return tm.powq(tm.map_atoms(at.args[0], go),
                               Fraction(1, at.args[1]))
            if at.name == "sel" and at.args[1] == mask:
                return at.args[0]
            bad.append(at)
            return tm.of_atom(at)
        r = tm.map_atoms(v, go)
        return None if bad else r

    def unidx(self, v, i):
        """Lift idx(x, i) -> x for the generic loop index i."""
        def rank1(at):
            """Everything indexed by i below this atom is a matrix or a
            vector: its rows are lines."""
            st, seen = [tm.of_atom(at)], set()
            while st:
                x = st.pop()
                if isinstance(x, tuple):
                    st.extend(x)
                if not isinstance(x, tm.Expr):
                    continue
                for j in x.atoms():
                    if j in seen:
                        continue
                    seen.add(j)
                    b = tm.T.atoms[j]
                    if b.kind == "fn" and b.name == "idx" and \
                            b.args[1] == i:
                        c = b.args[0].single_atom()
                        if c is None or not c.shp or len(c.shp) > 2:
                            return False
                        continue
                    st.extend(b.args)
            return True

        def mark(at):
            """A function of a row, applied to all rows."""
            if len(at.args) == 1 and at.name in REDUCE and rank1(at):
                return (("ax", -1),)
            return ("row",)

        def arg(x):
            if isinstance(x, tm.Expr):
                return tm.map_atoms(x, go)
            if isinstance(x, tuple):
                return tuple(arg(y) for y in x)
            return x

        memo = {}

        def go(at):
            r = memo.get(id(at))
            if r is None:
                r = memo[id(at)] = go1(at)
            return r

        def go1(at):
            if at.kind == "poly":
                return tm.map_atoms(at.args[0], go)
            if at.kind == "exp":
                return tm.exp_(tm.map_atoms(at.args[0], go))
            if at.kind == "root":
                return tm.powq(tm.map_atoms(at.args[0], go),
                               Fraction(1, at.args[1]))
            if at.kind == "fn" and at.name == "idx" and at.args[1] == i:
                return at.args[0]
            if tm.of_atom(at) == i:
                return tm.fn("arange", at.args[1])
            if at.kind == "fn":
                if at.name in tm.LINEAR and isinstance(at.args[0], tm.Expr):
                    # reductions over another axis
                    a = tuple(arg(y) for y in at.args)
                    if a == at.args:
                        return tm.of_atom(at)
                    if at.name in ("fft", "ifft", "rfft", "irfft") and \
                            rank1(at):
                        return tm.linear(at.name, a[0], *a[1:])
                    return tm.linear(at.name, a[0], *(a[1:] + mark(at)))
                a = tuple(arg(y) for y in at.args)
                if a != at.args:
                    if at.name not in POINTFN and at.name not in (
                            "ite", "conj", "box", "get", "idx", "item",
                            "and", "or", "not", "truth", "stn", "st", "stsl",
                            "stm", "ststr", "sti", "mapst", "mu", "i", "minof",
                            "maxof", "isfinite", "getw"):
                        a = a + mark(at)
                    return tm.fn(at.name, *a, real=at.real, pos=at.pos,
                                 scalar=False, integer=at.integer)
            return tm.of_atom(at)
        return tm.map_atoms(v, go)

    # ----------------------------------------------------------- attributes
    def av_attr(self, I, v, name):
        if name == "shape":
            if v.sh is not None and all(s is not None for s in v.sh):
                return TupV([self.lenexpr(s, v) for s in v.sh])
            if v.sh is not None:
                return TupV([self.lenexpr(s, v) if s is not None else
                             AV(DLESS, None, v.deps, sh=()) for s in v.sh])
            g = I.safe(tm.fn, "shape", v.gv, scalar=True) \
                if v.gv is not None else None
            return AV(DLESS, g, v.deps, sp="shape")
        if name == "size":
            if v.sh is not None and None not in v.sh:
                r = tm.ONE
                for s in v.sh:
                    r = I.safe(tm.mul, r, s) if r is not None else None
                return self.lenexpr(r, v)
            g = I.safe(tm.fn, "len", v.gv, scalar=True, integer=True,
                       pos=True) if v.gv is not None else None
            return AV(DLESS, g, v.deps, sh=())
        if name == "ndim":
            if v.sh is not None:
                return const(len(v.sh))
            g = I.safe(tm.fn, "ndim", v.gv, scalar=True, integer=True) \
                if v.gv is not None else None
            return AV(DLESS, g, v.deps, sh=())
        if name == "T":
            return self.transpose(I, v)
        if name == "real":
            return self.f_numpy_real(I, [v], {}, view=True)
        if name == "imag":
            return self.f_numpy_imag(I, [v], {}, view=True)
        if name in ("dtype",):
            return AV(None, I.safe(tm.fn, "dtype", v.gv, scalar=True)
                      if v.gv is not None else None, v.deps, sh=())
        if name in ("flat",):
            return v
        return None

    def lenexpr(self, e, v):
        if e is None:
            return AV(DLESS, None, v.deps, sh=())
        c = e.const()
        if c is not None and c.denominator == 1:
            return const(int(c))
        return AV(DLESS, e, E0, sh=())

    def transpose(self, I, v, axes=None):
        el = None
        if v.elems is not None and len(next(iter(v.elems))) == 2:
            el = {(k[1], k[0]): x for k, x in v.elems.items()}
        if v.sh is not None and len(v.sh) <= 1:
            return v.copy(roots=v.roots)
        sh = tuple(reversed(v.sh)) if v.sh is not None else None
        gv = None
        if v.gv is not None:
            at = v.gv.single_atom()
            if at is not None and at.name == "T":
                gv = at.args[0]
            else:
                gv = I.safe(tm.linear_or, "T", v.gv) if False else I.safe(
                    tm.fn, "T", v.gv, real=tm.is_real(v.gv))
        r = AV(v.dim, gv, v.deps, v.roots, sh=sh, elems=el)
        if v.sp and isinstance(v.sp, tuple) and v.sp[0] == "jac":
            r.sp = ("jacT",) + v.sp[1:]
        if el is not None:
            r.gv = I.gv_of(r)
        return r


REDUCE = {"sum", "mean", "median", "std", "var", "min", "max", "argmin",
          "argmax", "count", "any", "all", "trapz"}
POINTFN = {"lt", "le", "eq", "not", "and", "or", "log", "sin", "cos",
           "arctan2", "isnan", "isinf", "floor", "ceil", "rint", "tan",
           "arctan", "sign", "mod", "floordiv", "angle", "intp"}
