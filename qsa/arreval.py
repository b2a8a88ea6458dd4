"""Random interpretation of array terms.

The abstract values of two results are compared by giving every input symbol
a random value (arrays: a few random elements) and evaluating the two terms -
not the code of the package - with the exact meaning of the operators in them.
A difference is a counterexample to the equality of the two terms as long as
no uninterpreted operator took part; agreement on many samples is taken as
equality, as in random interpretation for global value numbering (Gulwani and
Necula).  Samples in which the analysed code raises are left out."""
import cmath
import math
import random
import statistics
from . import terms as tm

NAN = float("nan")
E0 = frozenset()
SEEDS = range(1000, 1120)
SESSION = None
DOMAIN = {}
NEED = 10
# operators without a value of their own
CONTROL = {"mu", "h", "i", "get", "getw", "stn", "mapst", "uninit", "rng"}
BOOL = set()
# arrays some of whose elements are nan, with the share of them
NANS = {}
# library functions as free symbols: two calls with different arguments are
# taken to differ when both sides use the same functions
FREE = {"butter", "filtfilt", "fftconvolve", "ndshift", "interp1d", "csd",
        "rng", "curvefit", "cfx", "cfcov", "lsq", "lsqx", "lsqjac", "item",
        "minimize", "savgol_filter", "norm.pdf", "percentile", "poly1d",
        "gradient", "inv", "corrcoef", "resample_poly", "astats",
        "expon.cdf", "norm.cdf", "chi2.ppf", "norm.ppf"}


class No(Exception):
    """not evaluated: unknown operator"""


class Skip(Exception):
    """the sample has no result"""


class OutOfRange(Skip):
    """an element that does not exist is read"""


class Fill(object):
    """An array of unknown length: a value everywhere except some places."""

    def __init__(self, v, ov=()):
        self.v, self.ov = v, dict(ov)

    def lst(self, n):
        r = [self.v] * n
        for i, x in self.ov.items():
            if not -n <= i < n:
                raise Skip
            r[i] = x
        return r


def zip2(f, a, b):
    if isinstance(a, Fill) and isinstance(b, list):
        a = a.lst(len(b))
    if isinstance(b, Fill) and isinstance(a, list):
        b = b.lst(len(a))
    if isinstance(a, Fill) or isinstance(b, Fill):
        ks = set()
        for x in (a, b):
            if isinstance(x, Fill):
                ks |= set(x.ov)

        def at(x, k):
            if not isinstance(x, Fill):
                return x
            return x.v if k is None else x.ov.get(k, x.v)
        if any(k < 0 for k in ks):
            raise No("at")
        return Fill(f(at(a, None), at(b, None)),
                    {k: f(at(a, k), at(b, k)) for k in ks})
    da, db = depth(a), depth(b)
    if da > db:
        return [zip2(f, x, b) for x in a]
    if db > da:
        return [zip2(f, a, y) for y in b]
    if da:
        if len(a) != len(b):
            if len(a) == 1:
                return [zip2(f, a[0], y) for y in b]
            if len(b) == 1:
                return [zip2(f, x, b[0]) for x in a]
            raise Skip
        return [zip2(f, x, y) for x, y in zip(a, b)]
    return f(a, b)


def depth(v):
    n = 0
    while isinstance(v, list):
        n += 1
        if not v:
            break
        v = v[0]
    return n


def flat(v):
    if isinstance(v, list):
        return [y for x in v for y in flat(x)]
    return [v]


def red(v, lev, g, keep=False):
    """Reduce the axis at the given level with g (a list to a value)."""
    if lev > 0:
        return [red(x, lev - 1, g, keep) for x in v]
    if not isinstance(v, list) or not v:
        raise Skip
    if isinstance(v[0], list):
        r = [red([x[i] for x in v], 0, g) for i in range(len(v[0]))]
    else:
        r = g(v)
    return [r] if keep else r


def width(v, lev):
    """The size of an axis."""
    while lev:
        if not v:
            return 0
        v, lev = v[0], lev - 1
    return len(v)


def drop(v, lev):
    """Without an axis of length one."""
    if lev == 0:
        return v[0]
    return [drop(x, lev - 1) for x in v]


def swap(v, lev):
    """With the axes lev and lev + 1 exchanged."""
    if lev:
        return [swap(x, lev - 1) for x in v]
    return [list(r) for r in zip(*v)]


def unlead(v, d):
    """Without leading axes of length one beyond d axes."""
    while depth(v) > d and len(v) == 1:
        v = v[0]
    return v


def along(v, lev, g):
    """Map the lines along the axis at the given level with g (a list to a
    list)."""
    if lev > 0:
        return [along(x, lev - 1, g) for x in v]
    if not isinstance(v, list) or not v:
        raise Skip
    if isinstance(v[0], list):
        cs = [along([x[i] for x in v], 0, g) for i in range(len(v[0]))]
        return [list(r) for r in zip(*cs)]
    return g(v)


MASKED = 1234.5678       # stands for a masked element


def x_shape(x):
    at = x.single_atom()
    return len(at.shp) if at is not None and at.shp else None


def map1(f, a):
    if isinstance(a, list):
        return [map1(f, x) for x in a]
    if isinstance(a, Fill):
        return Fill(f(a.v), {k: f(x) for k, x in a.ov.items()})
    return f(a)


def isinf(x):
    return cmath.isinf(x)


def mul(x, y):
    if isinf(x) or isinf(y):
        if x == 0 or y == 0:
            raise Skip
        s = complex(x if isinf(y) is False else 1).real
        x_, y_ = complex(x), complex(y)
        if x_.imag == 0 and y_.imag == 0:
            return x_.real * y_.real
        raise Skip
    return x * y


def power(x, e):
    if isinf(x):
        if e < 0:
            return 0.0
        return complex(x).real ** e if complex(x).imag == 0 else x
    if x != x or x == 0 and e < 0:
        return NAN       # no value here: matters only if it is used
    if e == int(e):
        return x ** int(e)
    z = complex(x)
    if abs(z.imag) <= 1e-9 * abs(z):
        if z.real < -1e-9:
            raise Skip
        return max(z.real, 0.0) ** float(e)
    return z ** float(e)


def SUM(v):
    return sum(v)


def MEAN(v):
    return sum(v) / len(v)


def STD(v):
    m = MEAN(v)
    return math.sqrt(sum(abs(x - m) ** 2 for x in v) / len(v))


def sum_lists(vs):
    return [y for v in vs for y in v]


def elem(v, k):
    if not -len(v) <= k < len(v):
        raise OutOfRange
    return v[k]


def first(v, m):
    for i, x in enumerate(v):
        if x == m or near(x, m):
            return float(i)


def interp(t, xp, fp):
    if not xp:
        raise Skip
    if t <= xp[0]:
        return fp[0]
    if t >= xp[-1]:
        return fp[-1]
    for p, q, y, z in zip(xp, xp[1:], fp, fp[1:]):
        if q < p:
            raise Skip
        if p <= t <= q and p != q:
            return y + (z - y) * (t - p) / (q - p)
    raise Skip


def real(x):
    z = complex(x)
    if z != z:
        raise Skip
    return z.real


def integer(x):
    z = complex(x)
    if abs(z.imag) > 1e-9 or z.real != z.real or isinf(z):
        raise Skip
    r = round(z.real)
    if abs(z.real - r) > 1e-9:
        raise Skip
    return int(r)


def dft(x, sg):
    n = len(x)
    if n == 0:
        raise Skip
    return [sum(mul(x[k], cmath.exp(sg * 2j * cmath.pi * j * k / n))
                for k in range(n)) for j in range(n)]


def truth(c):
    if isinstance(c, (list, Fill)):
        raise No("truth")
    return real(c) != 0


class Ev(object):
    def __init__(self, seed, force=(), ints=(), nan=False):
        self.seed = seed
        self.nan = nan                # nan is a value
        self.ints = ints              # arguments given as whole numbers
        self.force = sorted(force)    # comparisons whose outcome is chosen
        self.cov = {}                 # outcomes of the comparisons
        self.r = random.Random(seed)
        self.memo = {}
        self.names = {}
        self.used = E0            # the free operators that took part
        self.n = self.r.randint(4, 9)

    # ------------------------------------------------------------ symbols
    def rnd(self, key, at):
        r = random.Random(repr((self.seed, key)))
        if at.pos:
            return r.uniform(0.4, 1.6)
        if at.real:
            return r.uniform(0.4, 1.6) * r.choice((1, -1))
        return complex(r.uniform(0.4, 1.4) * r.choice((1, -1)),
                       r.uniform(0.4, 1.4) * r.choice((1, -1)))

    def sym(self, at):
        nm = at.name
        if nm == "J":
            return 1j
        if nm == "pi":
            return math.pi
        if nm == "inf":
            return float("inf")
        if nm == "nan":
            if self.nan:
                return NAN
            raise Skip
        if nm.startswith("exc@") and nm not in self.names:
            # a handled exception: in some of the cases
            v = self.names[nm] = int(random.Random(repr((
                self.seed, nm))).random() < .4)
        if nm.startswith("exc@") and self.names[nm]:
            self.used = self.used | {"exception"}
        if nm in self.names:
            return self.names[nm]
        if at.scalar is False or at.shp:
            v = self.table(at, nm)
        elif nm in DOMAIN:
            v = DOMAIN[nm](self, random.Random(repr((self.seed, nm))))
        elif at.integer:
            r = random.Random(repr((self.seed, nm)))
            v = self.n if nm == "N" else r.randint(1, self.n + 2) \
                if at.pos else r.randint(-self.n, self.n)
        else:
            v = self.rnd(nm, at)
        self.names[nm] = v
        return v

    def table(self, at, key):
        """Random elements of an array of known shape."""
        if not at.shp or None in at.shp:
            raise No("no shape: %s" % at.name)
        if not at.real and at.integer:
            raise No("sym")
        n = [integer(self.expr(x)) for x in at.shp]
        bool_ = at.name in BOOL or at.name.startswith("F:c")
        p = NANS.get(at.name)
        scale = DOMAIN["*"](self, random.Random(repr((self.seed, "*")))) \
            if "*" in DOMAIN and not at.integer else 1

        def go(d, k):
            if d == len(n):
                x = self.rnd((key,) + k, at)
                if p and self.nan and random.Random(repr((
                        self.seed, "nan", key, k))).random() < p:
                    return NAN
                if bool_:
                    return int(complex(x).real > 0)
                return int(x * 5) if at.integer else x * scale \
                    if at.name not in self.ints else int(x * 50)
            return [go(d + 1, k + (i,)) for i in range(n[d])]
        return go(0, ())

    # ------------------------------------------------------------- atoms
    def atom(self, i):
        m = self.memo.get(i)
        if m is None:
            at = tm.T.atoms[i]
            was, self.used = self.used, E0
            try:
                v = self.atom_(at)
                if isinstance(v, Fill) and at.shp and len(at.shp) == 1 and \
                        at.shp[0] is not None:
                    v = v.lst(integer(self.expr(at.shp[0])))
                elif at.shp and None not in at.shp and not isinstance(
                        v, list):
                    # a value that does not vary
                    if isinstance(v, Fill):
                        raise No("fill")
                    for d in reversed(at.shp):
                        v = [v] * integer(self.expr(d))
                if at.shp and isinstance(v, list) and v and \
                        isinstance(v[0], list):
                    v = unlead(v, len(at.shp))
                m = (0, v, self.used)
            except (No, Skip) as x:
                m = (1, x, self.used)
            self.used = was
            self.memo[i] = m
        self.used = self.used | m[2]
        if m[0]:
            raise m[1]
        return m[1]

    def atom_(self, at):
        k = at.kind
        if k == "sym":
            return self.sym(at)
        if k == "poly":
            return self.expr(at.args[0])
        if k == "exp":
            return map1(cmath.exp, self.expr(at.args[0]))
        if k == "root":
            q = 1.0 / at.args[1]
            return map1(lambda x: power(x, q), self.expr(at.args[0]))
        f = getattr(self, "f_" + at.name, None)
        if at.name == "chi2.ppf" and len(at.args) == 2:
            f = self.ppf
        if f is not None:
            return f(at, *at.args)
        return self.unint(at)

    def ppf(self, at, p, n):
        p = real(self.expr(p))
        if abs(real(self.expr(n)) - 1) > 1e-9 or not 0 < p < 1:
            return self.unint(at)
        return statistics.NormalDist().inv_cdf((1 + p) / 2)**2

    def unint(self, at):
        if at.kind != "fn" or at.name in CONTROL:
            raise No(at.name)
        k = (at.name, at.real, at.pos, self.key(at.args))
        self.used = self.used | {at.name}
        if at.scalar is False:
            return self.table(at, k)
        return self.rnd(k, at)

    def key(self, a):
        if isinstance(a, tm.Expr):
            return self.vkey(self.expr(a))
        if isinstance(a, tuple):
            return tuple(self.key(b) for b in a)
        return repr(a)

    def vkey(self, v):
        if isinstance(v, list):
            return tuple(self.vkey(x) for x in v)
        if isinstance(v, Fill):
            raise No("vkey")
        v = complex(v)
        if v != v:
            if self.nan:
                return "nan"
            raise Skip
        return tuple("%.6e" % (0.0 if abs(p) < max(1e-9 * abs(v), 1e-13)
                               else p) for p in (v.real, v.imag))

    def f_conj(self, at, x):
        return map1(lambda z: complex(z).conjugate(), self.expr(x))

    def f_box(self, at, x):
        return self.expr(x)

    def f_bc(self, at, x):
        return self.expr(x)

    def f_ite(self, at, c, a, b):
        cv = self.expr(c)
        if isinstance(cv, (list, Fill)):
            def get(e):
                try:
                    return self.expr(e)
                except Skip:
                    return NAN
            x, y = get(a), get(b)
            t = zip2(lambda p, q: (p, q), cv, x)
            r = zip2(lambda p, q: p[1] if real(p[0]) else q, t, y)
            bad = r if isinstance(r, list) else []
            if any(z != z for z in bad) and not self.nan:
                raise Skip
            return r
        return self.expr(a if truth(cv) else b)

    def cmp(self, at, f, a, b):
        # against a tolerance, what is zero but for rounding counts as zero
        tol = [tiny(a), tiny(b)]

        def g(x, y):
            if tol[1] and abs(x) <= 1e-11:
                x = -1.0 if y > 0 else 1.0
            if tol[0] and abs(y) <= 1e-11:
                y = -1.0 if x > 0 else 1.0
            x, y = complex(x), complex(y)
            if x != x or y != y:
                if NANS:
                    return 0
                raise Skip
            if abs(x.imag) > 1e-9 or abs(y.imag) > 1e-9:
                raise Skip
            return int(f(x.real, y.real))
        return self.seen(at, zip2(g, self.expr(a), self.expr(b)))

    def seen(self, at, v):
        """Record the outcomes of a comparison."""
        if at.id in self.force:
            return self.forced(at, v)
        c = self.cov.setdefault(at.id, set())
        if isinstance(v, Fill):
            c |= {0, 1}
        else:
            c |= {int(bool(x)) for x in (flat(v) if isinstance(v, list)
                                         else (v,))}
        return v

    def forced(self, at, v):
        """One of the comparisons that never hold on the samples holds (one
        of those that always do fails), another one at every place."""
        n = len(self.force)

        def go(x, k):
            if isinstance(x, list):
                return [go(y, k + (i,)) for i, y in enumerate(x)]
            if isinstance(x, Fill):
                raise No("forced")
            w = random.Random(repr((self.seed, k))).randrange(n)
            return int(not x) if self.force[w] == at.id else x
        return go(v, ())

    def f_lt(self, at, a, b):
        return self.cmp(at, lambda x, y: x < y and not near(x, y), a, b)

    def f_le(self, at, a, b):
        return self.cmp(at, lambda x, y: x <= y or near(x, y), a, b)

    def f_eq(self, at, a, b):
        return self.seen(at, zip2(
            lambda x, y: int(x == y or abs(x - y) <= 1e-9),
            self.expr(a), self.expr(b)))

    def f_not(self, at, a):
        return map1(lambda x: int(not real(x)), self.expr(a))

    def f_truth(self, at, a):
        return map1(lambda x: int(real(x) != 0), self.expr(a))

    def f_and(self, at, *a):
        r = 1
        for x in a:
            try:
                y = self.expr(x)
            except (No, Skip):
                if not isinstance(r, (list, Fill)) and not r:
                    return 0
                raise
            if not isinstance(y, (list, Fill)) and not real(y):
                # a false operand decides (arrays keep their shape)
                if not isinstance(r, (list, Fill)):
                    r = 0
                    continue
            r = zip2(lambda p, q: int(bool(real(p)) and bool(real(q))), r, y)
        return r

    def f_or(self, at, *a):
        r = 0
        for x in a:
            r = zip2(lambda p, q: int(bool(real(p)) or bool(real(q))), r,
                     self.expr(x))
        return r

    def f_floordiv(self, at, a, b):
        return zip2(lambda x, y: float(math.floor(
            real(x) / real(y) + 1e-9)) if real(y) else skip(),
            self.expr(a), self.expr(b))

    def f_mod(self, at, a, b):
        def g(x, y):
            x, y = real(x), real(y)
            if y == 0 or isinf(x) or isinf(y):
                raise Skip
            r = x - y * math.floor(x / y)
            return 0.0 if abs(r - y) < 1e-9 * abs(y) else r
        return zip2(g, self.expr(a), self.expr(b))

    def polyfit(self, x, y, deg):
        """The coefficients of the least squares polynomial."""
        x, y = self.lst(x), self.lst(y)
        if depth(x) != 1 or depth(y) != 1 or len(x) != len(y) or \
                len(x) <= deg:
            raise Skip
        c = sum(x) / len(x)
        n = deg + 1
        # powers of x - c, highest first
        v = [[(t - c)**(deg - i) for i in range(n)] for t in x]
        m = [[sum(r[i] * r[j] for r in v) for j in range(n)] + [
            sum(r[i] * t for r, t in zip(v, y))] for i in range(n)]
        for i in range(n):
            p = max(range(i, n), key=lambda j: abs(m[j][i]))
            if abs(m[p][i]) < 1e-9 * max(abs(z) for r in m for z in r):
                raise Skip
            m[i], m[p] = m[p], m[i]
            m[i] = [z / m[i][i] for z in m[i]]
            for j in range(n):
                if j != i:
                    m[j] = [u - m[j][i] * z for u, z in zip(m[j], m[i])]
        q = [r[n] for r in m]
        # back to powers of x: Horner's rule on polynomials
        out = [q[0]]
        for z in q[1:]:
            new = [0] * (len(out) + 1)
            for i, u in enumerate(out):
                new[i] += u
                new[i + 1] -= c * u
            new[-1] += z
            out = new
        return out

    def f_item(self, at, x, k):
        """One of the values a library function returns."""
        a = x.single_atom() if isinstance(x, tm.Expr) else None
        if a is not None and a.kind == "fn" and a.name == "polyfit" and \
                isinstance(k, int) and isinstance(a.args[2], int):
            return self.polyfit(*a.args)[k]
        a = x.single_atom() if isinstance(x, tm.Expr) else None
        if a is None or a.kind != "fn" or a.name not in FREE:
            return self.unint(at)
        self.used = self.used | {a.name}
        r = (a.name, self.key(a.args), self.key((k,)))
        if at.shp:
            return self.table(at, r)
        return self.rnd(r, at)

    def f_is_integer(self, at, a):
        return map1(lambda x: int(abs(real(x) - round(real(x))) < 1e-9),
                    self.expr(a))

    def f_minof(self, at, *a):
        return self.best(a, lambda p, q: p if p <= q else q)

    def f_maxof(self, at, *a):
        return self.best(a, lambda p, q: p if p >= q else q)

    def best(self, a, f):
        r = None
        for x in a:
            if not isinstance(x, tm.Expr):
                raise No("minof")
            v = self.expr(x)
            r = v if r is None else zip2(lambda p, q: f(real(p), real(q)),
                                         r, v)
        return r

    def f_clip(self, at, x, lo, hi):
        r = zip2(lambda p, q: p if real(p) > real(q) else q, self.expr(x),
                 self.expr(lo))
        return zip2(lambda p, q: p if real(p) < real(q) else q, r,
                    self.expr(hi))

    def f_rint(self, at, a):
        return map1(lambda x: float(round(real(x))), self.expr(a))

    def f_floor(self, at, a):
        return map1(lambda x: float(math.floor(real(x) + 1e-9)),
                    self.expr(a))

    def f_rcount(self, at, a):
        return self.expr(a)

    def f_intp(self, at, a):
        return map1(lambda x: float(int(real(x) + math.copysign(
            1e-9, real(x)))), self.expr(a))

    def f_log(self, at, a):
        return map1(lambda x: cmath.log(x) if x else skip(), self.expr(a))

    def mm(self, f, a):
        r = self.expr(a[0])
        for x in a[1:]:
            r = zip2(lambda p, q: f(real(p), real(q)), r, self.expr(x))
        return r

    def f_minof(self, at, *a):
        return self.mm(min, a)

    def f_maxof(self, at, *a):
        return self.mm(max, a)

    # ------------------------------------------------------------- arrays
    def lst(self, a):
        v = self.expr(a)
        if not isinstance(v, list):
            raise No("no array: " + tm.fmt(a, 4)[:120])
        return v

    def f_fftint(self, at, n):
        n = integer(self.expr(n))
        return [float(k if k < (n + 1) // 2 else k - n) for k in range(n)]

    def axis(self, o, v):
        """(level of the axis or None for all, keepdims)"""
        lev, keep = None, False
        for x in o:
            if x == "keep":
                keep = True
            elif isinstance(x, tuple) and len(x) == 2 and x[0] == "ax" and \
                    (isinstance(x[1], int) or isinstance(x[1], tuple)):
                lev = x[1]
            else:
                raise No("axis")
        if lev is None:
            return None, keep
        d = depth(v)
        ls = [k if k >= 0 else d + k for k in (
            lev if isinstance(lev, tuple) else (lev,))]
        if any(not isinstance(k, int) or not 0 <= k < d for k in ls):
            raise No("axis")
        return sorted(ls, reverse=True), keep

    def reduce(self, x, o, g):
        v = self.expr(x)
        if not isinstance(v, list):
            raise No("no array: " + tm.fmt(x, 4)[:120])
        ls, keep = self.axis(o, v)
        if ls is None:
            v = flat(v)
            return g(v) if v else skip()
        if len(ls) > 1 and g is not SUM:
            raise No("axes")
        for k in ls:
            v = red(v, k, g, keep)
        return v

    def line(self, x, o, g):
        v = self.expr(x)
        if not isinstance(v, list):
            raise No("no array: " + tm.fmt(x, 4)[:120])
        if not o:
            return along(v, depth(v) - 1, g)
        ls, _ = self.axis(o, v)
        return along(v, ls[0], g)

    def f_fft(self, at, x, *o):
        return self.line(x, o, lambda v: dft(v, -1))

    def f_ifft(self, at, x, *o):
        return self.line(x, o, lambda v: [y / len(v) for y in dft(v, 1)])

    def f_rfft(self, at, x, *o):
        return self.line(x, o, lambda v: dft(v, -1)[:len(v) // 2 + 1])

    def f_sum(self, at, x, *o):
        v = self.expr(x)
        if v == []:
            return 0.0
        if isinstance(v, Fill) and not o and v.v == 0:
            return SUM(list(v.ov.values()))
        return self.reduce(x, o, SUM)

    def f_mean(self, at, x, *o):
        return self.reduce(x, o, MEAN)

    def f_std(self, at, x, *o):
        return self.reduce(x, o, STD)

    def f_var(self, at, x, *o):
        return self.reduce(x, o, lambda v: STD(v) ** 2)

    def f_median(self, at, x, *o):
        def g(v):
            s = sorted(real(y) for y in v)
            n = len(s)
            return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
        return self.reduce(x, o, g)

    def f_trapz(self, at, x, *o):
        if len(o) > 1:
            raise No("trapz")
        if len(o) == 1 and isinstance(o[0], tm.Expr):
            y, t = self.lst(x), self.lst(o[0])
            if len(y) != len(t):
                raise Skip
            return sum((p + q) / 2 * (v - u) for p, q, u, v in zip(
                y, y[1:], t, t[1:]))
        v = self.expr(x)
        if not isinstance(v, list):
            raise No("trapz")
        ls, _ = self.axis(o, v)
        return red(v, depth(v) - 1 if ls is None else ls[0], lambda y: sum(
            (p + q) / 2 for p, q in zip(y, y[1:])))

    def f_interp(self, at, x, xp, fp, *o):
        xp, fp = [real(y) for y in self.lst(xp)], self.lst(fp)
        o = dict(zip(o[::2], o[1::2]))
        if "period" in o:
            raise No("interp")
        if len(xp) != len(fp) or not xp:
            raise Skip

        def g(t):
            t = real(t)
            if near(t, xp[0]):
                return fp[0]
            if near(t, xp[-1]):
                return fp[-1]
            if t < xp[0] and "left" in o:
                return self.expr(o["left"])
            if t > xp[-1] and "right" in o:
                return self.expr(o["right"])
            return interp(t, xp, fp)
        return map1(g, self.expr(x))

    def f_ndshift(self, at, x, n, order, mode, cval, *o):
        v, k, c = self.expr(x), self.expr(n), self.expr(cval)
        if o not in ((), ("row",)) or mode != "'constant'" or \
                isinstance(c, list) or depth(v) != len(o) + 1 or \
                depth(k) > len(o) or not order.isdigit():
            return self.unint(at)
        ks = k if isinstance(k, list) else [k] * (len(v) if o else 1)
        if int(order) > 1 and any(abs(real(q) - round(real(q))) > 1e-9
                                  for q in ks):
            return self.unint(at)
        if not o:
            return self.ndshift(v, k, order, c)
        return [self.ndshift(p, q, order, c) for p, q in zip(v, ks)]

    def ndshift(self, v, k, order, c):
        k, m = real(k), len(v)

        def g(i):
            t = i - k
            if t < -1e-9 or t > m - 1 + 1e-9:
                return c
            if order != "1":
                if abs(t - math.floor(t) - 0.5) < 1e-6:
                    raise Skip
                return v[int(math.floor(t + 0.5))]
            return interp(t, list(range(m)), v)
        return [g(i) for i in range(m)]

    def f_fftconvolve(self, at, x, y, mode, *o):
        x, y = self.expr(x), self.expr(y)
        if o == ("row",) and max(depth(x), depth(y)) == 2 and mode in (
                "full", "same", "valid"):
            m = len(x) if depth(x) == 2 else len(y)
            xs = x if depth(x) == 2 else [x] * m
            ys = y if depth(y) == 2 else [y] * m
            if len(xs) != len(ys):
                raise No("rows")
            return [self.convolve(p, q, mode) for p, q in zip(xs, ys)]
        if o:
            return self.unint(at)
        if mode not in ("full", "same", "valid") or depth(x) != 1 or \
                depth(y) != 1:
            return self.unint(at)
        return self.convolve(x, y, mode)

    def convolve(self, x, y, mode):
        r = [0.0] * (len(x) + len(y) - 1)
        for i, p in enumerate(x):
            for j, q in enumerate(y):
                r[i + j] = r[i + j] + p * q
        if mode == "full":
            return r
        if len(y) > len(x):
            raise Skip
        if mode == "same":
            a = (len(y) - 1) // 2
            return r[a:a + len(x)]
        return r[len(y) - 1:len(x)]

    def f_T(self, at, x):
        v = self.expr(x)
        if depth(v) == 1 and at.shp and len(at.shp) == 2:
            return [[y] for y in v]
        if depth(v) < 2:
            return v
        if depth(v) != 2:
            raise No("T")
        return [list(r) for r in zip(*v)]

    def f_reshape(self, at, x, s):
        v = self.expr(x)
        c = s.single_atom() if isinstance(s, tm.Expr) else None
        if c is None or c.kind != "fn" or c.name != "tuple" or \
                isinstance(v, Fill) or depth(v) != 1 and not (
                    at.shape and depth(v) == x_shape(x)):
            return self.unint(at)
        v = flat(v) if isinstance(v, list) else [v]
        n = [integer(self.expr(q)) for q in c.args]
        p = 1
        for q in n:
            p *= q if q >= 0 else 1
        if n.count(-1) == 1 and p and len(v) % p == 0:
            n[n.index(-1)] = len(v) // p
            p = len(v)
        if min(n) < 0 or p != len(v):
            raise No("reshape")
        for q in reversed(n[1:]):
            v = [v[i:i + q] for i in range(0, len(v), q)] if q else v
        return v

    def f_ravel(self, at, x):
        return flat(self.expr(x))

    def f_diff(self, at, x):
        v = self.lst(x)
        return along(v, depth(v) - 1, lambda y: [
            q - p for p, q in zip(y, y[1:])])

    def f_mapst(self, at, base, v):
        # every element set
        return self.expr(v)

    def f_isinf(self, at, x):
        return map1(lambda y: int(isinf(y)), self.expr(x))

    def f_isnan(self, at, x):
        return map1(lambda y: int(y != y), self.expr(x))

    def f_maskedarr(self, at, x, *o):
        if not o:
            return self.expr(x)
        if len(o) != 2 or o[0] != "mask":
            return self.unint(at)
        return zip2(lambda p, q: MASKED if real(q) else p, self.expr(x),
                    self.expr(o[1]))

    def f_isfinite(self, at, x):
        return map1(lambda y: int(not isinf(y)), self.expr(x))

    def f_mu(self, at, *a):
        # the value of a loop: a free symbol, unless every iteration only
        # writes its own element
        r = self.mapped(at)
        if r is not None:
            return r
        k = "mu%d" % at.id
        self.used = self.used | {k}
        if at.scalar is False:
            return self.table(at, k)
        return self.rnd(k, at)

    def f_comp(self, at, el, *its):
        from .compare import deep
        own = set()

        def find(a, go):
            if a.kind == "fn" and a.name in ("mu", "comp", "mapst"):
                raise Skip("nested loops")
            if a.kind == "fn" and a.name == "i":
                own.add(a)
            return None
        deep(el, find)
        if len(its) != 1 or len(own) != 1:
            raise Skip("comprehension")
        own = own.pop()
        lo, hi, sp = [integer(self.expr(y)) for y in own.args[:3]]
        if not sp:
            raise Skip("step")
        r = []
        for n in range(lo, hi, sp):
            r.append(self.expr(deep(
                el, lambda a, go: tm.num(n) if a is own else None)))
        return r

    def mapped(self, at):
        from . import unroll
        from .compare import deep
        p = unroll.parts(at)
        if p is None or len(p) != 1:
            return None
        x, step, out = p[at.args[1]]
        st = step.single_atom() if step is not None else None
        if step != out or st is None or st.kind != "fn" or st.name != "stn":
            return None
        h, keys, v = st.args
        head = unroll.head(at.args[1], at.args[0])
        names = {head, head + "~"}
        if not tm.symbols(h) & names or h.single_atom() is None or \
                h.single_atom().kind != "sym":
            return None
        if any(tm.symbols(k) & names for k in tuple(keys) + (v,)
               if isinstance(k, tm.Expr)):
            return None
        own = [a for a in (k.single_atom() for k in keys
                           if isinstance(k, tm.Expr))
               if a is not None and a.name == "i" and a.kind == "fn"]
        if len(own) != 1:
            return None
        own = own[0]
        lo, hi, sp = [integer(self.expr(y)) for y in own.args[:3]]
        if not sp:
            raise Skip
        r = self.full(st, self.expr(x))
        for n in range(lo, hi, sp):
            def rule(a, go):
                return tm.num(n) if a is own else None
            r = self.stn_(st, r, tuple(deep(k, rule) for k in keys),
                          deep(v, rule))
        return r

    def f_stm(self, at, base, m, v):
        b, m, v = self.expr(base), self.lst(m), self.expr(v)
        if isinstance(b, Fill):
            b = b.lst(len(m))
        if not isinstance(b, list):
            b = [b] * len(m)
        if depth(b) != 1 or depth(m) != 1 or len(b) != len(m):
            raise No("stm")
        if not isinstance(v, list):
            v = [v] * len(m)
            return [y if real(c) else x for x, y, c in zip(b, v, m)]
        if depth(v) != 1 or len(v) != sum(1 for c in m if real(c)):
            raise Skip
        it = iter(v)
        return [next(it) if real(c) else x for x, c in zip(b, m)]

    def f_array_equal(self, at, a, b):
        a, b = self.lst(a), self.lst(b)

        def same(x, y):
            if isinstance(x, list) != isinstance(y, list):
                raise Skip
            if isinstance(x, list):
                return len(x) == len(y) and all(map(same, x, y))
            return abs(x - y) <= 1e-9 * (abs(x) + abs(y))
        return int(same(a, b))

    def f_sti(self, at, base, k, v):
        b, k, v = self.full(at, self.expr(base)), self.lst(k), self.expr(v)
        if isinstance(b, Fill) or depth(b) < 1 or depth(k) > 1:
            raise No("sti")
        if k == [] and (v == [] or not isinstance(v, list)):
            return b
        if depth(b) > 1 and not (isinstance(v, list) and depth(v) == depth(
                b) and all(len(y) == len(b[0]) for y in v)):
            raise No("sti")
        b = list(b)
        if not isinstance(v, list):
            v = [v] * len(k)
        if len(v) != len(k):
            raise Skip
        for i, y in zip(k, v):
            i = integer(i)
            if not -len(b) <= i < len(b):
                raise OutOfRange
            b[i] = y
        return b

    def f_i(self, at, lo, hi, st, *o):
        # the general iteration: any of them
        a = [integer(self.expr(x)) for x in (lo, hi, st)]
        if not a[2]:
            raise Skip
        a = range(*a)
        if not a:
            raise Skip
        k = "i%d" % at.id
        self.used = self.used | {k}
        return random.Random(repr((self.seed, k))).choice(a)

    def f_appended(self, at, base, it, d, *vals):
        """A list to which every iteration of a loop appends."""
        from .compare import deep
        b = self.expr(base)
        if not isinstance(b, list):
            raise No("appended")
        own = set()

        def find(a, go):
            if a.kind == "fn" and a.name == "i" and a.args[3] == d:
                own.add(a.id)
            return None
        for v in vals:
            deep(v, find)
        if len(own) > 1:
            raise No("appended")
        b = list(b)
        if own:
            own = tm.T.atoms[own.pop()]
            rg = [integer(self.expr(y)) for y in own.args[:3]]
            if not rg[2]:
                raise Skip
            rg = range(*rg)
        else:
            x = self.expr(it)
            if not isinstance(x, list):
                raise No("appended")
            rg = range(len(x))
        for n in rg:
            def rule(a, go):
                return tm.num(n) if a is own else None
            for v in vals:
                b.append(self.expr(deep(v, rule) if own else v))
        return b

    def f_list(self, at, *a):
        return [self.expr(x) for x in a]

    f_tuple = f_list

    def f_ststr(self, at, base, lo, hi, st, v):
        b, v = self.full(at, self.expr(base)), self.expr(v)
        if isinstance(v, Fill):
            raise No("ststr")
        k = integer(self.expr(st))

        def e(x):
            if isinstance(x, tm.Expr):
                a = x.single_atom()
                if a is not None and a.name == "end":
                    return None
                return integer(self.expr(x))
            return None
        if not isinstance(b, list):
            # of unknown length: as long as the values ask for
            a = e(lo) or 0
            if e(hi) is not None or a < 0 or k < 1 or \
                    not isinstance(v, list):
                raise No("ststr")
            return Fill(b.v, b.ov | {
                a + k * j: y for j, y in enumerate(v)})
        ix = range(len(b))[slice(e(lo), e(hi), k)]
        if not isinstance(v, list):
            v = [v] * len(ix)
        if len(v) != len(ix):
            raise Skip
        b = list(b)
        for i, y in zip(ix, v):
            b[i] = y
        return b

    def f_hstack(self, at, *a):
        vs = [self.expr(x) for x in a]
        d = {depth(v) for v in vs}
        if len(d) != 1 or 0 in d:
            raise No("hstack")
        if d == {1}:
            return sum_lists(vs)
        return [sum_lists(r) for r in zip(*vs)]

    def f_vstack(self, at, *a):
        vs = [self.expr(x) for x in a]
        vs = [[v] if depth(v) == 1 else v for v in vs]
        if {depth(v) for v in vs} != {2}:
            raise No("vstack")
        return sum_lists(vs)

    def f_stackax(self, at, *a):
        ax = 0
        if a and isinstance(a[-1], tuple) and a[-1][0] == "ax":
            a, ax = a[:-1], a[-1][1]
        vs = [self.expr(x) for x in a]
        d = {depth(v) for v in vs}
        if len(d) != 1:
            raise No("stackax")
        d = d.pop()
        if ax < 0:
            ax += d + 1

        def go(ws, k):
            return ws if k == 0 else [go(list(x), k - 1) for x in zip(*ws)]
        return go(vs, ax)

    def f_column_stack(self, at, *a):
        vs = [self.lst(x) for x in a]
        if {depth(v) for v in vs} != {1}:
            raise No("column_stack")
        return [list(x) for x in zip(*vs)]

    def matrix(self, x):
        m = self.lst(x)
        if depth(m) != 2:
            raise No("matrix")
        return m

    def f_cov(self, at, x, *o):
        m = self.lst(x)
        if o:
            raise No("cov")
        if depth(m) == 1:
            m = [m]
        if depth(m) != 2 or len(m[0]) < 2:
            raise Skip
        k = len(m[0])
        c = [[y - MEAN(r) for y in r] for r in m]
        r = [[sum(p * q for p, q in zip(a, b)) / (k - 1) for b in c]
             for a in c]
        return r if len(r) > 1 else r[0][0]

    def f_covd(self, at, x, i):
        """An element of the diagonal of a covariance."""
        try:
            m = self.matrix(x)
            k = self.nth(i)
            v = m[k][k]
        except (No, IndexError):
            return self.unint(at)
        return v

    def f_inv(self, at, x, *o):
        if not o:
            # a 1x1 matrix whose axes of length one the term does not show
            m = self.lst(x)
            if not any(m):
                if len(m) == 0 or all(r == [] for r in m):
                    return []        # of no rows and columns
            if depth(m) == 0 or depth(m) == 1 and len(m) == 1:
                y = m[0] if depth(m) else m
                if abs(y) < 1e-6:
                    raise Skip
                return [1 / y] if depth(m) else 1 / y
        m = self.matrix(x)
        n = len(m)
        if o or any(len(r) != n for r in m):
            raise No("inv")
        m = [list(r) + [float(i == j) for j in range(n)]
             for i, r in enumerate(m)]
        big = size(m)
        for i in range(n):
            p = max(range(i, n), key=lambda j: abs(m[j][i]))
            if abs(m[p][i]) < 1e-6 * big:
                raise Skip
            m[i], m[p] = m[p], m[i]
            m[i] = [y / m[i][i] for y in m[i]]
            for j in range(n):
                if j != i:
                    m[j] = [y - m[j][i] * z for y, z in zip(m[j], m[i])]
        return [r[n:] for r in m]

    def f_matmul(self, at, x, y, *o):
        a, b = self.lst(x), self.lst(y)
        if a == [] and b == []:
            return []
        da, db = depth(a), depth(b)

        def dot(u, v):
            if len(u) != len(v):
                raise Skip
            return SUM([p * q for p, q in zip(u, v)])

        if o and o != ("@",) or da < 1 or db < 1:
            raise No("matmul")
        if da > 2 or db > 2:
            # stacks of matrices
            if da < 2 or db < 2:
                raise No("matmul")

            def mm(p, q):
                u, v = depth(p), depth(q)
                if u == v == 2:
                    c = [list(r) for r in zip(*q)]
                    return [[dot(r, w) for w in c] for r in p]
                if u > v:
                    return [mm(r, q) for r in p]
                if v > u:
                    return [mm(p, r) for r in q]
                if len(p) == 1 < len(q):
                    p = p * len(q)
                if len(q) == 1 < len(p):
                    q = q * len(p)
                if len(p) != len(q):
                    raise Skip
                return [mm(r, w) for r, w in zip(p, q)]
            return mm(a, b)

        if da == 2 and db == 1 and width(a, 1) == 1 != len(b):
            return [[r[0] * y for y in b] for r in a]    # b is one row
        if db == 1:
            return dot(a, b) if da == 1 else [dot(r, b) for r in a]
        c = [list(r) for r in zip(*b)]
        return [dot(a, q) for q in c] if da == 1 else [
            [dot(r, q) for q in c] for r in a]

    def f_diag(self, at, x, *o):
        m = self.lst(x)
        if o or depth(m) not in (1, 2):
            raise No("diag")
        if depth(m) == 2:
            return [r[i] for i, r in enumerate(m) if i < len(r)]
        return [[y if i == j else 0.0 for j in range(len(m))]
                for i, y in enumerate(m)]

    def f_stack(self, at, *a):
        if not all(isinstance(x, tm.Expr) for x in a):
            raise No("stack")
        return [self.expr(x) for x in a]

    def f_arr(self, at, *a):
        ks = dict(zip(a[::2], a[1::2]))
        n = len(ks)
        if ks and all(isinstance(k, tuple) and len(k) == 2 for k in ks):
            m = 1 + max(k[0] for k in ks)
            n = 1 + max(k[1] for k in ks)
            if set(ks) != {(i, j) for i in range(m) for j in range(n)}:
                raise No("arr")
            return [[self.expr(ks[i, j]) for j in range(n)]
                    for i in range(m)]
        if set(ks) != {(i,) for i in range(n)}:
            raise No("arr")
        return [self.expr(ks[(i,)]) for i in range(n)]

    def f_get(self, at, x, key):
        return self.keyed(self.expr(x), key)

    def f_getw(self, at, x, name):
        if not isinstance(name, tuple):
            raise No("getw")
        if name and name[0] == "get":
            return self.keyed(self.expr(x), name[1])
        if name in (("squeeze",), ("ravel",)):
            return getattr(self, "f_" + name[0])(at, x)
        return self.keyed(self.expr(x), (name,))

    def keyed(self, v, key):
        if isinstance(v, Fill):
            raise No("get")
        if isinstance(key[0], str) and key[0].startswith("last"):
            key = (("all",),) * (int(key[0][4:]) - 1) + (key[1:],)
        if key and isinstance(key[0], str):
            key = (key,)
        if not all(isinstance(k, tuple) for k in key):
            raise No("get")

        def go(v, ks):
            if not ks:
                return v
            k, rest = ks[0], ks[1:]
            if k[0] == "new":
                return [go(v, rest)]
            if not isinstance(v, list):
                raise No("get")
            if k[0] == "all":
                return [go(x, rest) for x in v]
            if k[0] == "slice":
                a, b = self.ends(k[1], k[2], len(v))
                return [go(x, rest) for x in v[a:b]]
            if k[0] == "rev":
                return [go(x, rest) for x in v[::-1]]
            if k[0] == "stride":
                b = [integer(self.expr(y)) for y in k[1:]]
                if not b[2]:
                    raise Skip
                return [go(x, rest) for x in v[slice(*b)]]
            if k[0] == "take1":
                i = self.expr(k[1])
                while isinstance(i, list) and len(i) == 1:
                    i = i[0]
                if isinstance(i, (list, Fill)):
                    raise No("get")
                return [go(elem(v, integer(i)), rest)]
            if k[0] in ("idx", "take", "outer"):
                i = self.expr(k[1])
                if isinstance(i, Fill):
                    raise No("get")
                if isinstance(i, list):
                    if k[0] != "outer" and any(r[0] not in (
                            "all", "slice", "new") for r in rest):
                        raise No("get")
                    return map1(lambda j: go(elem(v, integer(j)), rest), i)
                return go(elem(v, integer(i)), rest)
            if k[0] == "sel":
                m = self.lst(k[1])
                if depth(m) != 1 or len(m) != len(v) or any(
                        r[0] not in ("all", "slice", "new", "idx")
                        for r in rest):
                    raise No("get")
                return [go(x, rest) for x, c in zip(v, m) if real(c)]
            raise No("get")
        return go(v, tuple(key))

    def f_cumsum(self, at, x, *o):
        def g(v):
            r, t = [], 0
            for y in v:
                t = t + y
                r.append(t)
            return r
        return self.line(x, o, g)

    def f_count(self, at, x, *o):
        return self.reduce(x, o, lambda v: float(sum(
            1 for y in v if real(y)))) if o else float(sum(
                1 for y in flat(self.lst(x)) if real(y)))

    def f_len(self, at, x):
        return float(len(self.lst(x)))

    def f_any(self, at, x, *o):
        return self.reduce(x, o, lambda v: int(any(real(y) for y in v)))

    def f_all(self, at, x, *o):
        return self.reduce(x, o, lambda v: int(all(real(y) for y in v)))

    def ext(self, x, o, f):
        return self.reduce(x, o, lambda v: f([real(y) for y in v]))

    def f_max(self, at, x, *o):
        return self.ext(x, o, max)

    def f_min(self, at, x, *o):
        return self.ext(x, o, min)

    def f_argmin(self, at, x, *o):
        return self.ext(x, o, lambda v: first(v, min(v)))

    def f_argmax(self, at, x, *o):
        return self.ext(x, o, lambda v: first(v, max(v)))

    def f_argsort(self, at, x, *o):
        v = [real(y) for y in self.lst(x)]
        if o or depth(v) != 1:
            raise No("argsort")
        s = sorted(v)
        if any(near(p, q) for p, q in zip(s, s[1:])):
            raise Skip
        return [float(i) for i in sorted(range(len(v)), key=v.__getitem__)]

    def f_arange(self, at, *a):
        a = [self.expr(x) for x in a]
        return [float(k) for k in range(*[integer(x) for x in a])]

    def f_range(self, at, *a):
        return self.f_arange(at, *a)

    def f_delete(self, at, x, i):
        """np.delete without an axis: of the array in one dimension."""
        v, i = self.lst(x), self.expr(i)
        while depth(v) > 1:
            v = [y for r in v for y in r]
        i = i if isinstance(i, list) else [i]
        if depth(i) > 1:
            raise No("delete")
        i = [integer(y) for y in i]
        if any(not -len(v) <= y < len(v) for y in i):
            raise Skip
        i = {y % len(v) for y in i}
        return [y for k, y in enumerate(v) if k not in i]

    def f_concatenate(self, at, *a):
        ax = 0
        if a and isinstance(a[-1], tuple):
            if a[-1][0] != "ax" or not isinstance(a[-1][1], int):
                raise No("concatenate")
            ax, a = a[-1][1], a[:-1]
        vs = [self.lst(x) for x in a]
        d = max([depth(v) for v in vs] or [0])
        if at.shp:
            d = max(d, len(at.shp))
        for i, v in enumerate(vs):
            while depth(v) < d:
                v = [v]          # a leading axis of length one
            vs[i] = v
        if ax < 0:
            ax += d
        if len({depth(v) for v in vs}) != 1 or not 0 <= ax < d:
            raise No("concatenate")

        def cat(vs, k):
            if k == 0:
                return sum_lists(vs)
            if len({len(v) for v in vs}) != 1:
                raise Skip
            return [cat(list(r), k - 1) for r in zip(*vs)]
        return cat(vs, ax)

    def f_flatnonzero(self, at, m):
        return [float(i) for i, x in enumerate(self.lst(m)) if real(x)]

    def f_sel(self, at, x, m):
        m = self.lst(m)
        x = self.expr(x)
        if isinstance(x, Fill):
            x = x.lst(len(m))
        if not isinstance(x, list):
            x = [x] * len(m)
        if not isinstance(x, list) or len(x) != len(m):
            raise Skip
        return [y for y, c in zip(x, m) if real(c)]

    def f_idx(self, at, x, *i):
        if len(i) != 1 or not isinstance(i[0], tm.Expr):
            raise No("f_idx")
        x = self.expr(x)
        i = self.expr(i[0])
        if isinstance(i, Fill):
            raise No("f_idx")

        def g(k):
            k = integer(k)
            if isinstance(x, Fill):
                if k < 0:
                    raise No("idx")
                return x.ov.get(k, x.v)
            if not isinstance(x, list):
                return x          # one value everywhere
            if not -len(x) <= k < len(x):
                raise OutOfRange
            return x[k]
        return map1(g, i)

    def ends(self, lo, hi, n):
        def e(b, d):
            if isinstance(b, tm.Expr):
                c = b.single_atom()
                if c is not None and c.name == "end":
                    return d
                return integer(self.expr(b))
            if b in ("end", "None", None):
                return d
            raise No("e")
        return slice(e(lo, None), e(hi, None)).indices(n)[:2]

    def f_slice(self, at, x, lo, hi, *o):
        x = self.lst(x)
        if o:
            raise No("f_slice")
        a, b = self.ends(lo, hi, len(x))
        return x[a:b]

    def f_st(self, at, x, i, v):
        x, i, v = self.expr(x), self.expr(i), self.expr(v)
        if isinstance(i, (list, Fill)) or isinstance(v, Fill):
            raise No("f_st")
        i = integer(i)
        x = self.full(at, x)
        if depth(v) > depth(x) - 1 and isinstance(x, list):
            v = unlead(v, depth(x) - 1)
        if depth(x) > 1:
            if not x[0:1]:
                raise Skip
            v = zip2(lambda p, q: q, x[0], v)
            if depth(v) != depth(x) - 1:
                raise No("f_st")
        elif isinstance(v, list) and (isinstance(x, list) or at.shp):
            raise No("f_st")
        if isinstance(x, list):
            if not -len(x) <= i < len(x):
                raise Skip
            x = list(x)
            x[i] = v
            return x
        if i < 0:
            raise No("f_st")
        return Fill(x.v, dict(x.ov, **{}) if False else
                    dict(list(x.ov.items()) + [(i, v)]))

    def f_stn(self, at, x, keys, v):
        """An assignment with one key per axis."""
        return self.stn_(at, self.expr(x), keys, v)

    def stn_(self, at, x, keys, v):
        x, v = self.full(at, x), self.expr(v)
        while isinstance(x, list) and depth(x) < len(keys):
            x = [x]            # a leading axis of length one
        if not isinstance(x, list) or isinstance(v, Fill):
            raise No("stn")
        ks = []
        for k in keys:
            a = k.single_atom() if isinstance(k, tm.Expr) else None
            if a is not None and a.name == "slice":
                b = [None if y is None or isinstance(y, tm.Expr) and
                     y.single_atom() is not None and
                     y.single_atom().name in ("None", "end") else
                     integer(self.expr(y)) for y in a.args]
                if b[2] == 0:
                    raise Skip
                ks.append(slice(*b))
            elif isinstance(k, tm.Expr):
                j = self.expr(k)
                if isinstance(j, (list, Fill)):
                    raise No("stn")
                ks.append(integer(j))
            else:
                raise No("stn")

        def get(x, ks):
            if not ks:
                return x
            k = ks[0]
            if isinstance(k, slice):
                return [get(y, ks[1:]) for y in x[k]]
            return get(elem(x, k), ks[1:])

        def put(x, ks, v):
            if not ks:
                return v
            k, x = ks[0], list(x)
            if isinstance(k, slice):
                for n, i in enumerate(range(len(x))[k]):
                    x[i] = put(x[i], ks[1:], v[n])
            else:
                x[k] = put(x[k], ks[1:], v)
            return x
        part = get(x, ks)
        d = depth(part)
        if part == [] or [] in (part if isinstance(part, list) else []):
            return x
        v = unlead(v, d)
        if isinstance(v, list) or isinstance(part, list):
            v = zip2(lambda p, q: q, part, v)
        if depth(v) != d:
            raise Skip
        return put(x, ks, v)

    def f_squeeze(self, at, x, *o):
        if o:
            raise No("squeeze")

        def go(v):
            if not isinstance(v, list):
                return v
            v = [go(y) for y in v]
            return v
        v = self.lst(x)
        d = 0
        while d < depth(v):
            if width(v, d) == 1:
                v = drop(v, d)
            else:
                d += 1
        return v

    def f_full(self, at, x, *sh):
        v = self.expr(x)
        for n in reversed(sh):
            v = [v] * integer(self.expr(n))
        return v

    def f_lsqx(self, at, g, i=None):
        """What a minimisation finds: any number, when its inputs cannot be
        evaluated (both sides name the same minimisation)."""
        was = self.used
        try:
            v = self.unint(at)
            self.used = was | {at.name}
            return v
        except (No, Skip):
            c = g.single_atom() if isinstance(g, tm.Expr) else None
            if at.scalar is False or c is None:
                raise
            self.used = was | {"fit#%d" % id(c)}
            return self.rnd(("found", id(c), str(i)), at)

    def f_cfx(self, at, g, i):
        r = self.linfit(g)
        return self.f_lsqx(at, g, i) if r is None else \
            r[0][self.nth(i)]

    def f_cfcov(self, at, g, i, j):
        r = self.linfit(g)
        return self.unint(at) if r is None else \
            r[1][self.nth(i)][self.nth(j)]

    def nth(self, i):
        return integer(self.expr(i)) if isinstance(i, tm.Expr) else int(i)

    def linfit(self, g):
        """Parameters and covariance of curve_fit for a model that is linear
        in its parameters, at most three of them."""
        c = g.single_atom() if isinstance(g, tm.Expr) else None
        if c is None or c.name != "curvefit":
            return None
        a = list(c.args)
        kw = {a[i]: a[i + 1] for i in range(3, len(a) - 1, 2)
              if isinstance(a[i], str)}
        if set(kw) - {"model", "sigma", "absolute_sigma", "p0", "maxfev"} or \
                "model" not in kw:
            return None
        k = ("linfit", c.id)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        try:
            y = self.lst(a[1])
            if depth(y) != 1:
                return None
            y = [real(v) for v in y]
            s = [1.0] * len(y)
            if "sigma" in kw:
                s = self.expr(kw["sigma"])
                if depth(s) > 1:
                    return None
                s = [real(v) for v in (s if isinstance(s, list)
                                       else [s] * len(y))]
            ab = "absolute_sigma" in kw and truth(self.expr(
                kw["absolute_sigma"]))
            from .compare import atoms_deep
            n = 0
            while n < 4 and tm.sym("fitx%d" % n).single_atom().id in \
                    atoms_deep(kw["model"]):
                n += 1

            self.expr(a[0])
            clean = all(tm.sym("fitx%d" % q).single_atom().id not in
                        self.memo for q in range(n))

            def model(*p):
                e = self.memo, self.names
                self.memo = Overlay(e[0]) if clean else {}
                self.names = dict(self.names)
                for q, v in enumerate(p):
                    self.names["fitx%d" % q] = v
                try:
                    v = self.expr(kw["model"])
                finally:
                    self.memo, self.names = e
                if depth(v) > 1:
                    raise No("curvefit")
                v = [real(z) for z in v] if isinstance(v, list) else \
                    [real(v)] * len(y)
                if len(v) != len(y):
                    raise No("curvefit")
                return v
            if not 1 <= n <= 3 or len(s) != len(y):
                return None
            z = model(*[0.0] * n)
            A = [[v - w for v, w in zip(model(*[float(i == q) for i in
                                                range(n)]), z)]
                 for q in range(n)]
            pt = [0.7, -1.9, 2.3][:n]
            for v, w, *r in zip(model(*pt), z, *A):
                if not near(v, w + sum(p * q for p, q in zip(pt, r))):
                    return None
            if len(y) < n or min(map(abs, s)) < 1e-2 * max(map(abs, s)):
                raise Skip          # no spread, or ill conditioned
            W = [1 / v**2 for v in s]
            x, cov = leastsq([[p / v for p, v in zip(r, s)] for r in A],
                             [(q - o) / v for q, o, v in zip(y, z, s)])
            if not ab:
                if len(y) == n:
                    raise Skip
                c2 = sum(w * (q - o - sum(p * r[m] for p, r in zip(x, A)))**2
                         for m, (w, q, o) in enumerate(zip(W, y, z))) / (
                             len(y) - n)
                cov = [[v * c2 for v in r] for r in cov]
            self.memo[k] = x, cov
        except No:
            pass
        return self.memo[k]

    def f_lsqjac(self, at, g, n=None):
        c = g.single_atom() if isinstance(g, tm.Expr) else None
        if n is None or c is None:
            raise No("lsqjac")
        n = integer(self.expr(n))
        self.used = self.used | {"fit#%d" % id(c)}
        return [[self.rnd(("jac", id(c), r, q), at) for q in range(n)]
                for r in range(n + 2)]

    def f_expand_dims(self, at, x, ax):
        v = self.lst(x)
        ax = int(ax) if isinstance(ax, str) else integer(self.expr(ax))
        n = depth(v) + 1
        if not -n <= ax < n:
            raise Skip

        def go(v, k):
            return [v] if k == 0 else [go(y, k - 1) for y in v]
        return go(v, ax % n)

    def f_tile(self, at, x, r):
        v = self.lst(x)
        c = r.single_atom() if isinstance(r, tm.Expr) else None
        if c is not None and c.kind == "fn" and c.name == "tuple":
            n = [integer(self.expr(q)) for q in c.args]
        elif isinstance(r, tm.Expr) and r.const() is not None:
            n = [integer(self.expr(r))]
        else:
            return self.unint(at)
        if isinstance(v, Fill) or min(n) < 0:
            return self.unint(at)
        while depth(v) < len(n):
            v = [v]
        n = [1] * (depth(v) - len(n)) + n

        def go(v, k):
            return [go(y, k + 1) for y in v] * n[k] if k < len(n) else v
        return go(v, 0)

    def f_swapaxes(self, at, x, a, b):
        v = self.lst(x)
        a, b = sorted(self.nth(y) % depth(v) for y in (a, b))
        if at.shp is None or len(at.shp) != depth(v):
            return self.unint(at)
        for k in range(a, b):
            v = swap(v, k)
        for k in range(b - 2, a - 1, -1):
            v = swap(v, k)
        return v

    def f_moveaxis(self, at, x, a, b):
        v = self.lst(x)
        a, b = [integer(self.expr(y)) if isinstance(y, tm.Expr) else int(y)
                for y in (a, b)]
        n = depth(v)
        if not -n <= a < n or not -n <= b < n:
            raise Skip
        a, b = a % n, b % n
        while a < b:
            v = swap(v, a)
            a += 1
        while a > b:
            a -= 1
            v = swap(v, a)
        return v

    def full(self, at, x):
        """A constant array that is written to."""
        if isinstance(x, Fill) and at.shp and len(at.shp) > 1 and \
                None not in at.shp:
            n = [integer(self.expr(k)) for k in at.shp]

            def row(v):
                if depth(v) == 0:
                    for k in reversed(n[1:]):
                        v = [v] * k
                return v
            if any(k >= n[0] for k in x.ov):
                raise Skip
            r = [row(x.ov.get(k, x.v)) for k in range(n[0])]
            if any(depth(v) != len(n) - 1 for v in r):
                raise No("rows")
            return r
        if isinstance(x, (list, Fill)):
            return x
        if at.shp and None not in at.shp:
            for n in reversed(at.shp):
                x = [x] * integer(self.expr(n))
            return x
        return Fill(x)

    def f_stsl(self, at, x, lo, hi, v):
        x = self.full(at, self.expr(x))
        v = self.expr(v)
        if isinstance(x, list):
            a, b = self.ends(lo, hi, len(x))
            n = max(b - a, 0)
            if depth(x) > 1 and depth(v) < depth(x):
                v = [zip2(lambda p, q: q, r, v) for r in x[a:a + n]]
            elif depth(x) > 1 and isinstance(v, list) and len(v) in (n, 1):
                v = v * n if len(v) == 1 else v
                v = [zip2(lambda p, q: q, r, y)
                     for r, y in zip(x[a:a + n], v)]
            if isinstance(v, list):
                if len(v) not in (n, 1):
                    raise Skip
                v = v * n if len(v) == 1 else v
            elif isinstance(v, Fill):
                v = v.lst(n)
            else:
                v = [v] * n
            return x[:a] + v + x[a + n:]
        if not isinstance(lo, tm.Expr) or not isinstance(hi, tm.Expr):
            raise No("f_stsl")
        a, b = integer(self.expr(lo)), integer(self.expr(hi))
        if a < 0 or b < 0:
            raise No("f_stsl")
        ov = dict(x.ov)
        for k in range(a, b):
            if isinstance(v, list):
                if len(v) != b - a:
                    raise Skip
                ov[k] = v[k - a]
            elif isinstance(v, Fill):
                raise No("f_stsl")
            else:
                ov[k] = v
        return Fill(x.v, ov)

    def f_roll(self, at, x, s, *o):
        x = self.expr(x)
        if isinstance(x, Fill) or o and o[0] != -1 and depth(x) > 1:
            raise No("roll")
        if depth(x) > 1:
            if not o:
                raise No("roll")
            k = integer(self.expr(s))
            return along(x, depth(x) - 1, lambda v: [
                v[(i - k) % len(v)] for i in range(len(v))])
        if not x or not isinstance(x, list):
            return x
        s = integer(self.expr(s)) % len(x)
        return x[-s:] + x[:-s] if s else x

    def f_sort(self, at, x, *o):
        return along(self.lst(x), depth(self.lst(x)) - 1,
                     lambda v: sorted(v, key=real))

    # -------------------------------------------------------- expressions
    def expr(self, x):
        return self.sum(x)[0]

    def sum(self, x):
        """Value and size of the largest contribution."""
        k = ("x", id(x))
        m = self.memo.get(k)
        if m is not None:
            self.used = self.used | m[2]
            return m[0], m[3]
        was, self.used = self.used, E0
        tot = big = 0.0
        for mono, c in x.t.items():
            v = complex(c) if isinstance(c, complex) else float(c)
            for a, e in mono:
                w = self.atom(a)
                w = map1(lambda z: power(z, e), w) if e != 1 else w
                v = zip2(mul, v, w)
            tot = zip2(add, tot, v)
            big = max(big, size(v))
        if len(x.t) > 5 and cancelled(tot, big):
            self.used = self.used | {"ill"}
        self.memo[k] = (tot, x, self.used, big)
        self.used = self.used | was
        return tot, big


def cancelled(x, big):
    """Is little left of contributions of this size?"""
    if isinstance(x, list):
        return any(cancelled(v, big) for v in x)
    return not isinstance(x, Fill) and 0 < abs(x) < 1e-7 * big


def add(x, y):
    if (isinf(x) or isinf(y)) and x == -y:
        raise Skip
    return x + y


def leastsq(A, y):
    """Solution and inverse normal matrix for the columns A."""
    n = len(A)
    Q, R = [], [[0.0] * n for _ in A]
    for j, v in enumerate(A):
        big = sum(p * p for p in v)**.5
        v = list(v)
        for _ in (0, 1):
            for i, q in enumerate(Q):
                c = sum(p * r for p, r in zip(q, v))
                R[i][j] += c
                v = [r - c * p for p, r in zip(q, v)]
        R[j][j] = sum(p * p for p in v)**.5
        if R[j][j] <= 1e-6 * big:
            raise Skip
        Q.append([p / R[j][j] for p in v])
    I = [[0.0] * n for _ in A]          # inverse of R
    for j in range(n):
        I[j][j] = 1 / R[j][j]
        for i in range(j - 1, -1, -1):
            I[i][j] = -sum(R[i][k] * I[k][j]
                           for k in range(i + 1, j + 1)) / R[i][i]
    z = [sum(p * q for p, q in zip(v, y)) for v in Q]
    return [sum(p * q for p, q in zip(r, z)) for r in I], [
        [sum(I[i][k] * I[j][k] for k in range(n)) for j in range(n)]
        for i in range(n)]


class Overlay(dict):
    """Entries added here, over those of another dictionary."""

    def __init__(self, under):
        dict.__init__(self)
        self.under = under

    def get(self, k, d=None):
        v = dict.get(self, k)
        return self.under.get(k, d) if v is None else v


def tiny(x):
    c = x.const() if isinstance(x, tm.Expr) else None
    return c is not None and 0 < abs(float(c)) <= 1e-9


def near(x, y):
    return not (isinf(x) or isinf(y)) and \
        abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))


def skip():
    raise Skip


def size(v):
    if isinstance(v, list):
        return max([size(x) for x in v] + [0.0])
    if isinstance(v, Fill):
        return max([size(x) for x in v.ov.values()] + [size(v.v)])
    return 0.0 if isinf(v) or v != v else abs(v)


def same(x, y, big, nan=False):
    """True, False or None (too close to call)."""
    if isinstance(x, Fill) or isinstance(y, Fill):
        raise No("same")
    if isinstance(x, list) or isinstance(y, list):
        # leading axes of length one do not count
        while depth(x) > depth(y) and len(x) == 1:
            x = x[0]
        while depth(y) > depth(x) and len(y) == 1:
            y = y[0]
        if not isinstance(x, list) and not isinstance(y, list):
            return one(x, y, big, nan)
        if isinstance(y, list) and depth(x) < depth(y):
            x = [x] * len(y)
        elif isinstance(x, list) and depth(y) < depth(x):
            y = [y] * len(x)
        if not isinstance(x, list) or not isinstance(y, list):
            raise No("ranks")
        if len(x) != len(y):
            return False
        rs = [same(p, q, big, nan) for p, q in zip(x, y)]
        return False if False in rs else None if None in rs else True
    return one(x, y, big, nan)


def hasnan(x):
    if isinstance(x, list):
        return any(map(hasnan, x))
    return not isinstance(x, Fill) and x != x


def one(x, y, big, nan=False):
    if x != x or y != y:
        if nan:
            return x != x and y != y
        raise Skip
    if isinf(x) or isinf(y):
        return x == y
    d = abs(x - y)
    if d <= 1e-9 * big:
        return True
    return False if d > 1e-5 * big or d > 1e-3 * max(abs(x), abs(y)) and \
        d > 1e-7 * big else None


def raised(ev, raises):
    """The analysed code raises for this sample (None: not known)."""
    unk = False
    for pc in raises:
        val = True
        for g, pol, _ in pc:
            try:
                if g is None:
                    raise No("raised")
                if truth(ev.expr(g)) != pol:
                    val = False
                    break
            except (No, Skip, OverflowError, ZeroDivisionError, ValueError,
                    RecursionError):
                val = None if val else val
        if val:
            return True
        if val is None:
            unk = True
    return None if unk else False


def compare(a, b, raises=(), need=None, bounds=False, nan=False):
    """(True | False | None, detail); with bounds an index of a that is out
    of range is a difference."""
    need = need or NEED
    nan = nan or bool(NANS)
    eq = tried = nans = 0
    cov = {}
    for s in SEEDS:
        if eq >= need or tried >= 60 and eq < 3:
            break
        tried += 1
        k = (s, "nan") if nan else s
        e = tm.T.evs.get(k)
        if e is None:
            e = tm.T.evs[k] = Ev(s, nan=nan)
        was, e.used = e.used, E0
        try:
            out = raised(e, raises)
            if out:
                continue
            e.used = E0
            y, q = e.sum(b)
            ub, e.used = e.used, E0
            try:
                x, p = e.sum(a)
            except OutOfRange:
                if not bounds or not free(e.used) or out is None:
                    raise
                return False, "%s: an index is out of range" % sample(e)
            ua = e.used
            if hasnan(x) and not hasnan(y) and ua == ub and free(ua) and \
                    out is not None:
                nans += 1
                if nans >= 10 and not eq and nans == tried:
                    return False, "%s: nan against %s" % (sample(e), short(y))
            r = same(x, y, max(p, q), nan)
        except (Skip, OverflowError, ZeroDivisionError):
            continue
        except (No, ValueError, RecursionError, IndexError) as x:
            return None, "not evaluated: %s %s" % (type(x).__name__, x)
        finally:
            e.used = was
        if r is None:
            continue
        if r:
            eq += 1
            for i, c in e.cov.items():
                cov.setdefault(i, set()).update(c)
        elif "ill" in ua | ub:
            continue
        else:
            if ua != ub or not free(ua) or out is None:
                return None, "free operators %s" % sorted(ua | ub)
            return False, "%s: %s against %s" % (sample(e), short(x),
                                                 short(y))
    if eq < need:
        if not eq and not nan and "nan" in tm.symbols(a) | tm.symbols(b):
            return compare(a, b, raises, need, bounds, True)
        return None, ""
    return (True, "") if rare(a, b, cov) else (None, "rare cases differ")


def tolerance(at):
    """A comparison of elements that holds on a set of measure zero, or
    nearly so."""
    if at.kind != "fn" or at.scalar:
        return False
    if at.name == "eq":
        return True
    if at.name not in ("lt", "le"):
        return False
    cs = [x.const() for x in at.args if isinstance(x, tm.Expr)]
    return any(c is not None and 0 < abs(float(c)) <= 1e-3 for c in cs)


def rares(x, cov):
    """Comparisons in x of this kind that did not have both outcomes."""
    ids, st, seen = set(), [x], set()
    while st:
        x = st.pop()
        if isinstance(x, tm.Expr):
            for i in x.atoms():
                if i in seen:
                    continue
                seen.add(i)
                at = tm.T.atoms[i]
                st.extend(at.args)
                if len(cov.get(i, ())) < 2 and tolerance(at):
                    ids.add(i)
        elif isinstance(x, tuple):
            st.extend(x)
    return ids


def rare(a, b, cov):
    """Do the terms also agree when the comparisons without effect so far come
    out the other way?"""
    ids = rares(a, cov) & rares(b, cov)
    if not ids:
        return True
    for s in SEEDS[:12]:
        e = Ev(s, ids)
        try:
            y, q = e.sum(b)
            x, p = e.sum(a)
            if same(x, y, max(p, q)) is False:
                return False
        except (Skip, No, OverflowError, ZeroDivisionError, ValueError,
                RecursionError, IndexError):
            continue
    return True


def fingerprint(e):
    """Values of an integer scalar on the samples, or None."""
    out = []
    for s in SEEDS[:16]:
        v = tm.T.evs.get(s)
        if v is None:
            v = tm.T.evs[s] = Ev(s)
        was, v.used = v.used, E0
        try:
            x = v.expr(e)
            if v.used or isinstance(x, (list, Fill)):
                return None
            out.append(integer(x))
        except (No, Skip, OverflowError, ZeroDivisionError, ValueError,
                RecursionError, IndexError):
            return None
        finally:
            v.used = was
    return tuple(out)


def free(ops):
    return all(o in FREE or o.startswith(("mu", "F:", "fit#")) or o[0] == "i" and
               o[1:].isdigit() for o in ops)


def sample(e):
    return "for " + ", ".join("%s=%s" % (k, short(v)) for k, v in sorted(
        e.names.items()) if not isinstance(v, list))[:160]


def short(v):
    if isinstance(v, list):
        return "[%s]" % ", ".join(short(x) for x in v[:6])
    if isinstance(v, (int, float)):
        return "%.4g" % v
    if isinstance(v, complex):
        return "%.4g" % v.real if abs(v.imag) < 1e-12 else "%.4g%+.4gj" % (
            v.real, v.imag)
    return "?"


def fits_type(g, to, need=3):
    """Whether g is always real (to "f") or an integer (to "i").
    (True | False | None, detail)"""
    n = 0
    at = g.single_atom()
    if at is not None and at.kind == "sym" and at.name == "nan":
        return (True, "") if to == "f" else (False, "nan")
    for s in SEEDS[:20]:
        if n >= need:
            break
        ints = (to[2:],) if to.startswith("a:") else ()
        k = (s,) + ints
        e = tm.T.evs.get(k)
        if e is None:
            e = tm.T.evs[k] = Ev(s, ints=ints)
        was, e.used = e.used, E0
        try:
            x, p = e.sum(g)
            u = e.used
        except Skip:
            continue
        except (No, OverflowError, ZeroDivisionError, ValueError,
                RecursionError, IndexError) as x:
            return None, "not evaluated: %s %s" % (type(x).__name__, x)
        finally:
            e.used = was
        st = [x]
        while st:
            x = st.pop()
            if isinstance(x, list):
                st.extend(x)
                continue
            if isinstance(x, Fill):
                return None, "not evaluated: fill"
            if x != x or isinf(x):
                continue
            big = max(p, 1e-12)
            d = abs(complex(x).imag)
            if to != "f":
                d = max(d, abs(x - round(complex(x).real)))
            if d > 1e-6 * big:
                if u and not free(u):
                    return None, "free operators %s" % sorted(u)
                return False, "%s: %s" % (sample(e), short(x))
            if d > 1e-9 * big:
                return None, "too close to call"
        n += 1
    return (True, "") if n >= need else (None, "")
