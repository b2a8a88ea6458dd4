"""Value-numbering terms.

An abstract value carries a *term*: a canonical expression over atoms (inputs
of the analysed entry point, opaque library calls, ...).  Terms are Laurent
polynomials with rational coefficients; multi-term denominators are kept as
``poly`` atoms with negative exponent, roots as ``root`` atoms, complex
exponentials as ``exp`` atoms, the imaginary unit as ``J``.  Equality is
decided by clearing denominators and expanding (no solver, no sampling);
anything that gets too large is *undecided* and never reported.
"""
from fractions import Fraction

MAXTERMS = 3000
BOXTERMS = 250


class TooBig(Exception):
    pass


class Atom(object):
    __slots__ = ("id", "kind", "name", "args", "real", "pos", "scalar",
                 "integer", "conj", "shape", "shp")

    def __repr__(self):
        return fmt_atom(self)


class Table(object):
    def __init__(self):
        self.atoms = []
        self.byname = {}
        self.buckets = {}
        self.memo = {}
        self.evs = {}
        self.special = set()
        self.boxlim = BOXTERMS


T = Table()


def reset():
    global T, J
    T = Table()
    J = sym("J", real=False, scalar=True)


def _new(kind, name, args, real, pos, scalar, integer=False):
    a = Atom()
    a.id = len(T.atoms)
    a.kind = kind
    a.name = name
    a.args = args
    a.real = real
    a.pos = pos
    a.scalar = scalar
    a.integer = integer
    a.conj = None
    a.shape = None
    a.shp = None
    if kind in ("poly", "root", "exp") or name == "J":
        T.special.add(a.id)
    T.atoms.append(a)
    return a


class Expr(object):
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Expr) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return fmt(self)

    # -- structure -----------------------------------------------------
    def is_zero(self):
        return not self.t

    def const(self):
        """The rational value if this is a pure number, else None."""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return Fraction(self.t[()])
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return T.atoms[m[0][0]]
        return None

    def __add__(self, o):
        return add(self, o)

    def __sub__(self, o):
        return add(self, scale(o, -1))

    def __neg__(self):
        return scale(self, -1)

    def __mul__(self, o):
        return mul(self, o)

    def __truediv__(self, o):
        return div(self, o)


ZERO = Expr({})
ONE = Expr({(): 1})


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        v = Fraction(repr(v))
    v = _i(Fraction(v))
    return Expr({(): v}) if v else ZERO


def number(v):
    """Expr for a python number (complex allowed); inf/nan become symbols."""
    if isinstance(v, complex):
        return number(v.real) + number(v.imag) * J
    if isinstance(v, float):
        if v != v:
            return sym("nan")
        if v in (float("inf"), float("-inf")):
            s = sym("inf", pos=True)
            return s if v > 0 else -s
    return num(v)


def sym(name, real=True, pos=False, scalar=True, integer=False):
    a = T.byname.get(name)
    if a is None:
        a = _new("sym", name, (), real, pos, scalar, integer)
        T.byname[name] = a
    return of_atom(a)


def of_atom(a, e=1):
    return Expr({((a.id, _i(e)),): 1})


def _i(q):
    """Integral fractions as plain integers (same value and hash, faster)."""
    return q.numerator if q.denominator == 1 else q


def scale(x, c):
    c = _i(c)
    if c == 0:
        return ZERO
    if c == 1:
        return x
    return Expr({m: _i(v * c) for m, v in x.t.items()})


def add(x, y):
    if len(x.t) < len(y.t):
        x, y = y, x
    t = dict(x.t)
    for m, c in y.t.items():
        v = t.get(m, 0) + c
        if v:
            t[m] = v if type(v) is int else _i(v)
        else:
            t.pop(m, None)
    if len(t) > MAXTERMS:
        raise TooBig()
    return Expr(t)


_SPECIAL = ("poly", "root", "exp")


def mono_mul(m1, m2):
    """Product of two monomials -> Expr."""
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v if type(v) is int else _i(v)
        else:
            d.pop(a, None)
    if T.special.isdisjoint(d):
        return Expr({tuple(sorted(d.items())): 1})
    return mono_norm(d)


def mono_norm(d):
    coef = 1
    extra = []
    expargs = []
    out = {}
    for a, e in d.items():
        at = T.atoms[a]
        if at.kind == "sym" and at.name == "J":
            k = int(e) % 4
            if k == 1:
                out[a] = 1
            elif k == 2:
                coef = -coef
            elif k == 3:
                coef = -coef
                out[a] = 1
        elif at.kind == "root":
            q = at.args[1]
            k = e.numerator // e.denominator if e.denominator != 1 else int(e)
            w = k // q if e.denominator == 1 else None
            if w is None:
                out[a] = e
                continue
            r = k - w * q
            if r:
                out[a] = r
            if w:
                extra.append((at.args[0], w))
        elif at.kind == "poly":
            if e > 0:
                extra.append((at.args[0], int(e)))
            else:
                out[a] = e
        elif at.kind == "exp":
            expargs.append((at.args[0], e))
        else:
            out[a] = e
    if expargs:
        if len(expargs) == 1 and expargs[0][1] == 1:
            ae = exp_(expargs[0][0])
        else:
            s = ZERO
            for x, e in expargs:
                s = add(s, scale(x, e))
            ae = exp_(s)
        c = ae.const()
        if c is None:
            (m, cc), = ae.t.items()
            out[m[0][0]] = m[0][1]
    res = Expr({tuple(sorted(out.items())): coef})
    for x, w in extra:
        res = mul(res, powi(x, w))
    return res


def mul(x, y):
    if not x.t or not y.t:
        return ZERO
    lim = T.boxlim
    if len(x.t) * len(y.t) > lim:
        # name the larger factors instead of expanding them
        if len(x.t) >= len(y.t):
            x = box(x)
            if len(y.t) > lim:
                y = box(y)
        else:
            y = box(y)
            if len(x.t) > lim:
                x = box(x)
    t = {}
    for m1, c1 in x.t.items():
        for m2, c2 in y.t.items():
            if not m1:
                p = {m2: 1}
            elif not m2:
                p = {m1: 1}
            else:
                p = mono_mul(m1, m2).t
            c = c1 * c2
            for m, v in p.items():
                w = t.get(m, 0) + v * c
                if w:
                    t[m] = w if type(w) is int else _i(w)
                else:
                    t.pop(m, None)
    return Expr(t)


def box(x):
    """Opaque name for a large term (same term, same name)."""
    if len(x.t) < 2:
        return x
    return fn("box", x, real=is_real(x), scalar=is_scalar(x))


def common_den(x):
    """x = N / prod(poly_i ** k_i); returns (N expanded, {poly id: k})."""
    den = {}
    for m in x.t:
        for a, e in m:
            if T.atoms[a].kind == "poly" and e < 0:
                den[a] = max(den.get(a, 0), int(-e))
    if not den:
        return x, den
    n = ZERO
    for m, c in x.t.items():
        d = dict(m)
        mult = ONE
        for a, k in den.items():
            e = int(-d.pop(a, 0))
            if k - e:
                mult = mul(mult, powi(T.atoms[a].args[0], k - e))
        n = add(n, mul(Expr({tuple(sorted(d.items())): c}), mult))
    return n, den


def inv(x):
    if not x.t:
        return sym("inf", pos=True)
    if len(x.t) == 1:
        (m, c), = x.t.items()
        d = {a: -e for a, e in m}
        r = mono_norm(d) if d else ONE
        return scale(r, _i(Fraction(1) / c))
    n, den = common_den(x)
    if den and len(n.t) > 1:
        n, den = cancel_nd(n, den)
    res = ONE
    for a, k in den.items():
        res = mul(res, powi(T.atoms[a].args[0], k))
    if len(n.t) == 1:
        return mul(res, inv(n))
    if not n.t:
        return sym("inf", pos=True)
    # normalise n: content-free with common monomial removed
    c, mono, p = normal_poly(n)
    at = poly_atom(p)
    r = Expr({((at.id, -1),): _i(Fraction(1) / c)})
    r = mul(r, inv(Expr({mono: 1})) if mono else ONE)
    return mul(res, r)


def normal_poly(n):
    ms = list(n.t)
    com = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(com):
            e = d.get(a, 0)
            if e == 0 or (e > 0) != (com[a] > 0):
                del com[a]
            elif abs(e) < abs(com[a]):
                com[a] = e
    # negative exponents anywhere: clear them as well
    for m in ms:
        for a, e in m:
            if e < 0 and T.atoms[a].kind not in ("exp",):
                com[a] = min(com.get(a, 0), e)
    com = {a: e for a, e in com.items()
           if e and T.atoms[a].kind not in ("exp", "root")
           and T.atoms[a].name != "J"}
    mono = tuple(sorted(com.items()))
    p = n
    if mono:
        p = mul(n, Expr({tuple((a, -e) for a, e in mono): 1}))
    lead = min(p.t, key=lambda m: (len(m), m))
    c = p.t[lead]
    return c, mono, scale(p, _i(Fraction(1) / c))


def poly_atom(p):
    b = T.buckets.setdefault("poly", {})
    a = b.get(p)
    if a is None:
        a = _new("poly", "poly", (p,), is_real(p), False, is_scalar(p))
        a.pos = is_pos(p)
        b[p] = a
    return a


def div(x, y):
    return cancel(mul(x, inv(y)))


def poly_div(n, d):
    """Exact quotient n / d of Laurent polynomials, or None."""
    vs = set()
    for m in d.t:
        for a, e in m:
            at = T.atoms[a]
            if at.kind in ("exp", "root", "poly") or at.name == "J" or \
                    at.kind in _SPECIAL or e < 0 or e != int(e):
                return None
            vs.add(a)
    vs = sorted(vs)
    if not vs:
        return None
    ix = {a: i for i, a in enumerate(vs)}

    def vec(m):
        v, rest = [0] * len(vs), []
        for a, e in m:
            if a in ix:
                if e != int(e):
                    return None, None
                v[ix[a]] = int(e)
            else:
                rest.append((a, e))
        return tuple(v), tuple(rest)
    D = []
    for m, c in d.t.items():
        D.append((vec(m)[0], c))
    D.sort(reverse=True)
    lv, lc = D[0]
    groups = {}
    for m, c in n.t.items():
        v, r = vec(m)
        if v is None:
            return None
        groups.setdefault(r, {})[v] = c
    out = {}
    for r, g in groups.items():
        low = [min(v[i] for v in g) for i in range(len(vs))]
        g = dict(g)
        steps = 0
        while g:
            steps += 1
            if steps > 400:
                return None
            v = max(g)
            q = tuple(a - b for a, b in zip(v, lv))
            if any(a < b for a, b in zip(q, low)):
                return None
            c = _i(Fraction(g[v]) / lc)
            mm = tuple(sorted([(vs[i], e) for i, e in enumerate(q) if e] +
                              list(r)))
            out[mm] = c
            for w, k in D:
                z = tuple(a + b for a, b in zip(q, w))
                x = g.get(z, 0) - c * k
                if x:
                    g[z] = _i(x)
                else:
                    g.pop(z, None)
    return Expr(out)


def cancel_nd(n, den):
    den = dict(den)
    for a in sorted(den):
        p = T.atoms[a].args[0]
        while den[a] > 0 and n.t:
            q = poly_div(n, p)
            if q is None:
                break
            n = q
            den[a] -= 1
        if not den[a]:
            del den[a]
    return n, den


def cancel(x):
    """Cancel common factors of a small fraction."""
    if len(x.t) < 2 or len(x.t) > 80:
        return x
    if not any(T.atoms[a].kind == "poly" and e < 0 for m in x.t
               for a, e in m):
        return x
    k = ("cancel", x)
    r = T.memo.get(k)
    if r is None:
        n, den = common_den(x)
        n2, den2 = cancel_nd(n, den)
        if den2 == den:
            r = x
        else:
            r = n2
            for a, e in den2.items():
                r = mul(r, Expr({((a, -e),): 1}))
        T.memo[k] = r
    return r


def powi(x, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(powi(x, -n))
    if len(x.t) == 1:
        (m, c), = x.t.items()
        r = mono_norm({a: e * n for a, e in m}) if m else ONE
        return scale(r, Fraction(c) ** n)
    r = ONE
    for _ in range(n):
        r = mul(r, x)
    return r


def powq(x, q):
    """x ** q for a rational q."""
    q = Fraction(q)
    if q.denominator == 1:
        if abs(q) > 12 and len(x.t) > 1:
            raise TooBig()
        return powi(x, int(q))
    if not x.t:
        return ZERO if q > 0 else sym("inf", pos=True)
    if len(x.t) == 1:
        (m, c), = x.t.items()
        out = ONE
        rest = {}
        for a, e in m:
            at = T.atoms[a]
            if at.pos and at.kind != "exp":
                out = mul(out, mono_norm({a: _i(e * q)}) if at.kind in _SPECIAL
                          else Expr({((a, _i(e * q)),): 1}))
            else:
                rest[a] = e
        c2 = _const_root(c, q) if c > 0 else None
        if c2 is not None:
            out = scale(out, c2)
            c = 1
        if not rest and c == 1:
            return out
        base = Expr({tuple(sorted(rest.items())): c})
        if (c == 1 and len(rest) == 1):
            (a, e), = rest.items()
            if T.atoms[a].kind == "root":
                # nested root stays opaque
                pass
        return mul(out, _root(base, q))
    # pull out a positive common factor so sqrt(a*x+a*y) == sqrt(a)sqrt(x+y)
    n, den = common_den(x)
    c, mono, p = normal_poly(n)
    out = ONE
    keep = {}
    for a, e in mono:
        if T.atoms[a].pos:
            out = mul(out, Expr({((a, _i(e * q)),): 1}))
        else:
            keep[a] = e
    if c > 0:
        c2 = _const_root(c, q)
        if c2 is not None:
            out = scale(out, c2)
            c = 1
    base = mul(p, Expr({tuple(sorted(keep.items())): c}))
    d = ONE
    for a, k in den.items():
        d = mul(d, powi(T.atoms[a].args[0], k))
    if den:
        # sqrt(n/d) : keep canonical as root(n*d)/d  (d real or not)
        if q.denominator == 2:
            dd = inv(d)
            # d**(q) = d**(2q) / d**q ; use root(n/d) directly on n*d
            r = _root(mul(base, d), Fraction(1, 2))
            rr = powi(mul(r, dd), q.numerator)
            return mul(out, rr)
        return mul(out, _root(mul(base, inv(d)), q))
    return mul(out, _root(base, q))


def _iroot(n, k):
    if n < 0:
        return None
    r = int(round(n ** (1.0 / k)))
    for v in (r - 1, r, r + 1):
        if v >= 0 and v ** k == n:
            return v
    return None


def _const_root(c, q):
    k = q.denominator
    try:
        a, b = _iroot(c.numerator, k), _iroot(c.denominator, k)
    except OverflowError:
        return None
    if a is None or b is None:
        return None
    return _i(Fraction(a, b) ** q.numerator)


def _root(base, q):
    k = q.denominator
    b = T.buckets.setdefault(("root", k), {})
    a = b.get(base)
    if a is None:
        for o, oa in b.items():
            if has_poly(base) or has_poly(o):
                if _equal1(base, o):
                    a = oa
                    break
        if a is None:
            a = _new("root", "root", (base, k), True, k == 2,
                     is_scalar(base))
            b[base] = a
    return mono_norm({a.id: q.numerator})


def has_poly(x):
    return any(T.atoms[a].kind in ("poly",) for a in x.atoms())


def exp_(x):
    if not x.t:
        return ONE
    b = T.buckets.setdefault("exp", {})
    a = b.get(x)
    if a is None:
        for o, oa in b.items():
            if (has_poly(x) or has_poly(o)) and equal(o, x):
                a = oa
                break
    if a is None:
        r = is_real(x)
        a = _new("exp", "exp", (x,), r, r, is_scalar(x))
        b[x] = a
    return of_atom(a)


# ---------------------------------------------------------------- predicates
def is_real(x):
    if x is None:
        return False
    if all(T.atoms[a].real for a in x.atoms()):
        return True
    r = T.memo.get(("real", x))
    if r is None:
        r = T.memo[("real", x)] = False if count_nodes(x, 400) > 400 else \
            _conj_eq(x)
    return r


def _conj_eq(x):
    try:
        return conj(x) == x
    except TooBig:
        return False


def is_scalar(x):
    return all(T.atoms[a].scalar for a in x.atoms())


def is_pos(x):
    if not x.t:
        return False
    for m, c in x.t.items():
        if c <= 0:
            return False
        for a, e in m:
            at = T.atoms[a]
            if not at.pos and not (at.real and e.denominator == 1
                                   and e % 2 == 0 and False):
                return False
    return True


# ------------------------------------------------------------------ functions
def arg_eq(a, b):
    if isinstance(a, Expr) and isinstance(b, Expr):
        if a == b:
            return True
        if has_poly(a) or has_poly(b):
            return equal(a, b) is True
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(arg_eq(x, y) for x, y in zip(a, b))
    return a == b


def _hashable_poly(args):
    for a in args:
        if isinstance(a, Expr):
            if has_poly(a):
                return True
        elif isinstance(a, tuple) and _hashable_poly(a):
            return True
    return False


# functions whose value is real when their arguments are
PASS = {"insert", "delete", "concatenate", "r_", "c_",
        "arr", "outer", "matmul", "diff", "gradient", "unique", "sort",
        "sorted", "trace", "cov", "corrcoef", "call", "interp1d", "idx",
        "item", "resample_poly", "ndshift", "nan_to_num", "savgol",
        "convolve", "fftconvolve", "correlate", "dict", "appended1", "numpy.c_",
        "nanmean", "maskedarr", "clip", "hstack", "vstack", "dstack",
        "flip", "take", "shiftnd", "filtfilt", "lfilter", "diagflat"}


def _real_args(args):
    for a in args:
        if isinstance(a, Expr):
            if not is_real(a):
                return False
        elif isinstance(a, tuple) and not _real_args(a):
            return False
    return True


def fn(name, *args, **flags):
    """Opaque function application, interned modulo argument equality."""
    if "real" not in flags:
        flags["real"] = name not in PASS or _real_args(args)
    b = T.buckets.setdefault(("fn", name), {})
    a = b.get(args)
    if a is None and b and name != "box":
        hp = _hashable_poly(args)
        for o, oa in list(b.items()):
            if len(o) == len(args) and (hp or _hashable_poly(o)):
                if arg_eq(o, args):
                    a = oa
                    break
    if a is None:
        a = _new("fn", name, args, flags.get("real", True),
                 flags.get("pos", False), flags.get("scalar", False),
                 flags.get("integer", False))
        b[args] = a
    return of_atom(a)


def map_atoms(x, f):
    """Rebuild x with every atom replaced by f(atom) -> Expr."""
    img = {}
    for a in x.atoms():
        r = f(T.atoms[a])
        if len(r.t) == 1:
            (m, c), = r.t.items()
            if c == 1 and m == ((a, 1),):
                continue
        img[a] = r
    if not img:
        return x
    res = ZERO
    keep = {}
    pw = {}
    for m, c in x.t.items():
        rest = [q for q in m if q[0] not in img]
        if len(rest) == len(m):
            keep[m] = c
            continue
        p = Expr({tuple(rest): c})
        for q in m:
            if q[0] in img:
                r = pw.get(q)
                if r is None:
                    e = q[1]
                    r = pw[q] = powi(img[q[0]], int(e)) \
                        if e.denominator == 1 else powq(img[q[0]], e)
                p = mul(p, r)
        res = add(res, p)
    return add(Expr(keep), res) if keep else res


def conj(x):
    if all(T.atoms[a].real for a in x.atoms()):
        return x
    r = T.memo.get(("conj", x))
    if r is None:
        r = T.memo[("conj", x)] = _conj(x)
    return r


def _conj(x):
    def f(at):
        if at.real:
            return of_atom(at)
        r = T.memo.get(("conja", at.id))
        if r is None:
            r = T.memo[("conja", at.id)] = g(at)
        return r

    def g(at):
        if at.name == "J" and at.kind == "sym":
            return -J
        if at.kind == "exp":
            return exp_(conj(at.args[0]))
        if at.kind == "poly":
            return conj(at.args[0])
        if at.kind == "fn" and at.name in LINEAR and len(at.args) and \
                isinstance(at.args[0], Expr) and at.name not in (
                    "fft", "ifft", "rfft"):
            return linear(at.name, conj(at.args[0]), *at.args[1:],
                          scalar=at.scalar)
        if at.kind == "fn" and at.name in ("idx", "roll"):
            return fn(at.name, conj(at.args[0]), *at.args[1:], real=False,
                      scalar=at.scalar)
        if at.kind == "fn" and at.name == "conj":
            return at.args[0]
        return fn("conj", of_atom(at), real=False, scalar=at.scalar)
    return map_atoms(x, f)


def real(x):
    if all(T.atoms[a].real for a in x.atoms()):
        return x
    return scale(add(x, conj(x)), Fraction(1, 2))


def imag(x):
    if all(T.atoms[a].real for a in x.atoms()):
        return ZERO
    return mul(scale(x - conj(x), Fraction(-1, 2)), J)


def abs2(x):
    return mul(x, conj(x))


def abs_(x):
    if is_pos(x):
        return x
    c = x.const()
    if c is not None:
        return num(abs(c))
    return powq(abs2(x), Fraction(1, 2))


LINEAR = {"sum", "mean", "fft", "ifft", "rfft", "irfft", "trapz", "cumsum"}


def split_scalar(m):
    s, v = [], []
    for a, e in m:
        (s if T.atoms[a].scalar else v).append((a, e))
    return tuple(s), tuple(v)


def linear(name, x, *extra, **flags):
    """Apply a linear operator, pulling scalar factors out per monomial."""
    groups = {}
    for m, c in x.t.items():
        s, v = split_scalar(m)
        g = groups.setdefault(s, {})
        g[v] = g.get(v, 0) + c
    res = ZERO
    for s, g in groups.items():
        for v, c in g.items():
            inner = Expr({v: 1})
            if name in ("sum", "mean", "trapz", "cumsum"):
                rl = is_real(inner)
            elif name == "irfft":
                rl = True
            else:
                rl = False
            at = fn(name, inner, *extra, real=rl,
                    scalar=flags.get("scalar", False),
                    pos=flags.get("pos", False))
            res = add(res, mul(Expr({s: c}), at))
    return res


def pointwise(name, x, *extra):
    """roll / idx style operators: commute with elementwise arithmetic."""
    def f(at):
        if at.scalar:
            return of_atom(at)
        if at.kind == "poly":
            return pointwise(name, at.args[0], *extra)
        if at.kind == "exp":
            return exp_(pointwise(name, at.args[0], *extra))
        if at.kind == "root":
            return powq(pointwise(name, at.args[0], *extra),
                        Fraction(1, at.args[1]))
        return fn(name, of_atom(at), *extra, real=at.real, pos=at.pos,
                  scalar=False, integer=at.integer)
    return map_atoms(x, f)


def subst(x, mapping):
    """Substitute symbol atoms (by name) with Exprs, recursively."""
    memo = {}

    def sub_arg(a):
        if isinstance(a, Expr):
            return go(a)
        if isinstance(a, tuple):
            return tuple(sub_arg(b) for b in a)
        return a

    def f(at):
        if at.id in memo:
            return memo[at.id]
        if at.kind == "sym":
            r = mapping.get(at.name)
            r = of_atom(at) if r is None else r
        elif at.kind == "poly":
            r = go(at.args[0])
        elif at.kind == "exp":
            r = exp_(go(at.args[0]))
        elif at.kind == "root":
            r = powq(go(at.args[0]), Fraction(1, at.args[1]))
        elif at.name == "conj":
            r = conj(go(at.args[0]))
        elif at.name in LINEAR:
            a = tuple(sub_arg(b) for b in at.args)
            r = linear(at.name, a[0], *a[1:], scalar=at.scalar)
        else:
            a = tuple(sub_arg(b) for b in at.args)
            if a == at.args:
                r = of_atom(at)
            else:
                r = fn(at.name, *a, real=at.real, pos=at.pos,
                       scalar=at.scalar, integer=at.integer)
        memo[at.id] = r
        return r

    def go(e):
        return map_atoms(e, f)
    return go(x)


def symbols(x, acc=None):
    """All symbol names occurring anywhere in the term."""
    acc = set() if acc is None else acc
    seen = set()

    def walk(a):
        if isinstance(a, Expr):
            for i in a.atoms():
                if i in seen:
                    continue
                seen.add(i)
                at = T.atoms[i]
                if at.kind == "sym":
                    acc.add(at.name)
                else:
                    for b in at.args:
                        walk(b)
        elif isinstance(a, tuple):
            for b in a:
                walk(b)
    walk(x)
    return acc


def diff(x, name):
    """Partial derivative with respect to a scalar symbol."""
    s = T.byname.get(name)
    if s is None:
        return ZERO

    def datom(at):
        if at is s:
            return ONE
        if at.kind == "sym":
            return ZERO
        if at.kind == "poly":
            return diff(at.args[0], name)
        if at.kind == "exp":
            return mul(of_atom(at), diff(at.args[0], name))
        if at.kind == "root":
            k = at.args[1]
            return mul(scale(of_atom(at), Fraction(1, k)),
                       div(diff(at.args[0], name), at.args[0]))
        if at.name == "box":
            return diff(at.args[0], name)
        if name in symbols(of_atom(at)):
            raise TooBig()
        return ZERO
    res = ZERO
    for m, c in x.t.items():
        for i, (a, e) in enumerate(m):
            d = datom(T.atoms[a])
            if not d.t:
                continue
            rest = dict(m)
            rest[a] = e - 1
            if rest[a] == 0:
                del rest[a]
            r = mono_norm(rest) if rest else ONE
            res = add(res, scale(mul(r, d), c * e))
    return res


def equal(x, y):
    """True / False / None (undecided)."""
    if x is None or y is None:
        return None
    if x == y:
        return True
    k = ("eq", x, y)
    if k not in T.memo:
        T.memo[k] = _equal(x, y)
    return T.memo[k]


def has_box(x):
    seen, st = set(), [x]
    while st:
        a = st.pop()
        if isinstance(a, Expr):
            for i in a.atoms():
                if i not in seen:
                    seen.add(i)
                    if T.atoms[i].name == "box":
                        return True
                    st.extend(T.atoms[i].args)
        elif isinstance(a, tuple):
            st.extend(a)
    return False


def unbox(x):
    def f(at):
        if at.name == "box":
            return unbox(at.args[0])
        return of_atom(at)
    return map_atoms(x, f)


def _equal(x, y):
    r = _equal1(x, y)
    if r is False and T.boxlim == BOXTERMS:
        # give the expansion more room before saying no
        T.boxlim = 40000
        try:
            d = x - y
            if has_box(d):
                d = unbox(d)
            r = _equal1(d, ZERO)
        except (TooBig, ZeroDivisionError):
            r = None
        finally:
            T.boxlim = BOXTERMS
        if r is False and has_box(d):
            r = None
    return r


def _equal1(x, y):
    try:
        d = x - y
        if not d.t:
            return True
        for _ in range(12):
            n, den = common_den(d)
            d = n
            if not d.t:
                return True
            if not den:
                break
        return False
    except TooBig:
        return None


def count_nodes(x, lim=10000):
    seen = set()
    n = 0
    st = [x]
    while st:
        a = st.pop()
        if isinstance(a, Expr):
            for i in a.atoms():
                if i not in seen:
                    seen.add(i)
                    st.extend(T.atoms[i].args)
            n += len(a.t)
            if n > lim:
                return n
        elif isinstance(a, tuple):
            st.extend(a)
    return n


# ------------------------------------------------------------- integer bounds
def is_int(x):
    """Every value of the term is an integer."""
    return all(Fraction(c).denominator == 1 and
               all(T.atoms[a].integer and e == int(e) and e > 0
                   for a, e in m) for m, c in x.t.items())


def lower_bound(x, depth=4):
    """A rational lower bound of a real scalar term, or None. Quotients of
    integer division are tied to what they divide."""
    for _ in range(6):
        # floordiv(e, k) = e/k - r/k with 0 <= r <= k-1
        hit = None
        for m, c in x.t.items():
            for a, e in m:
                at = T.atoms[a]
                if at.kind == "fn" and at.name == "floordiv" and \
                        len(m) == 1 and e == 1:
                    k = at.args[1].const()
                    if k is not None and k > 0 and is_int(at.args[0]):
                        hit = (m, c, at, k)
                        break
            if hit:
                break
        if not hit:
            break
        m, c, at, k = hit
        rest = Expr({q: v for q, v in x.t.items() if q != m})
        r = fn("fdrem", at.args[0], int(k), integer=True, scalar=at.scalar)
        x = rest + scale(at.args[0], _i(Fraction(c) / k)) - scale(
            r, _i(Fraction(c) / k))
    tot = Fraction(0)
    for m, c in x.t.items():
        if not m:
            tot += c
            continue
        if len(m) > 1 or m[0][1] != 1:
            # product of positive things
            if c > 0 and all(T.atoms[a].pos or (
                    T.atoms[a].name in ("arange", "count", "argmin",
                                        "argmax") and e > 0)
                    for a, e in m):
                if all(T.atoms[a].pos and T.atoms[a].integer and e > 0
                       for a, e in m):
                    tot += c
                continue
            return None
        at = T.atoms[m[0][0]]
        lo = hi = None
        if at.name == "fdrem":
            lo, hi = 0, at.args[1] - 1
        elif at.pos:
            lo = 1 if at.integer else 0
        elif at.kind == "fn" and at.name in ("count", "argmin", "argmax"):
            lo = 0
        elif at.kind == "fn" and at.name == "arange" and len(at.args) == 1:
            lo = 0
            if c < 0 and depth > 0:
                # arange(L) <= L - 1
                rest = Expr({q: v for q, v in x.t.items() if q != m})
                return lower_bound(rest + scale(at.args[0] - ONE, c),
                                   depth - 1)
        elif at.kind == "fn" and at.name == "ite" and depth > 0:
            rest = Expr({q: v for q, v in x.t.items() if q != m})
            a = lower_bound(rest + scale(at.args[1], c), depth - 1)
            b = lower_bound(rest + scale(at.args[2], c), depth - 1)
            return None if a is None or b is None else min(a, b)
        if c > 0 and lo is not None:
            tot += c * lo
        elif c < 0 and hi is not None:
            tot += c * hi
        else:
            return None
    return tot


# ------------------------------------------------------------------- printing
def fmt_atom(at, depth=3):
    if at.kind == "sym":
        return at.name
    if depth <= 0:
        return "%s(..)" % at.name
    if at.kind == "poly":
        return "(%s)" % fmt(at.args[0], depth - 1)
    return "%s(%s)" % (at.name, ", ".join(_fa(b, depth - 1)
                                          for b in at.args))


def _fa(b, depth):
    if isinstance(b, Expr):
        return fmt(b, depth)
    if isinstance(b, tuple):
        return "[" + ",".join(_fa(c, depth) for c in b) + "]"
    return str(b)


def fmt(x, depth=4):
    if x is None:
        return "?"
    if not x.t:
        return "0"
    out = []
    for k, (m, c) in enumerate(sorted(x.t.items(), key=lambda q: (len(q[0]), q[0]))):
        if k >= 8:
            out.append("...")
            break
        fs = []
        for a, e in m:
            s = fmt_atom(T.atoms[a], depth)
            fs.append(s if e == 1 else "%s^%s" % (s, e))
        cs = "" if c == 1 and fs else str(c)
        out.append("*".join(([cs] if cs else []) + fs))
    return " + ".join(out)


J = sym("J", real=False, scalar=True)
