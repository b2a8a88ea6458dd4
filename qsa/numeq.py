"""Randomised identity test between terms.

Two terms are compared as rational functions (with roots and exponentials)
over their other atoms: every symbol gets a random value, every application
of an uninterpreted function a value that depends only on the function and on
the values of its arguments (congruence).  No code of the package runs; this
decides equality of two symbolic values when their normal forms are too large
(Schwartz-Zippel)."""
import cmath
import random
from . import terms as tm

SEEDS = range(11, 211, 10)


class No(Exception):
    pass


def rnd(key, at):
    r = random.Random(repr(key))
    if at.pos:
        return r.uniform(0.6, 1.6)
    if at.real:
        return r.uniform(0.6, 1.6) * r.choice((1, -1))
    return complex(r.uniform(0.4, 1.4) * r.choice((1, -1)),
                   r.uniform(0.4, 1.4) * r.choice((1, -1)))


def key_of(v):
    v = complex(v)
    if v == 0:
        return (0, 0)
    return tuple("%.6e" % (0.0 if abs(p) < 1e-9 * abs(v) else p)
                 for p in (v.real, v.imag))


class Ev(object):
    def __init__(self, seed):
        self.seed = seed
        self.memo = {}

    def atom(self, i):
        if i in self.memo:
            return self.memo[i]
        at = tm.T.atoms[i]
        self.memo[i] = v = self.atom_(at)
        return v

    def atom_(self, at):
        k = at.kind
        if k == "sym":
            if at.name == "J":
                return 1j
            if at.name == "pi":
                return cmath.pi
            if at.name in ("inf", "nan"):
                raise No
            return rnd((self.seed, at.name), at)
        if k == "poly":
            return self.expr(at.args[0])
        if k == "exp":
            return cmath.exp(self.expr(at.args[0]))
        if k == "root":
            x = complex(self.expr(at.args[0]))
            if at.real and x.real < 0 and abs(x.imag) <= 1e-9 * abs(x):
                raise No          # outside the domain: no verdict
            return x ** (1.0 / at.args[1])
        if at.name == "conj":
            return complex(self.expr(at.args[0])).conjugate()
        if at.name == "box":
            return self.expr(at.args[0])
        if at.name == "ite":
            raise No
        if at.name == "cfcov" and at.args[1] == at.args[2]:
            return abs(rnd((self.seed, at.name, self.arg(at.args)), at))
        return rnd((self.seed, at.name, at.real, at.pos,
                    self.arg(at.args)), at)

    def arg(self, a):
        if isinstance(a, tm.Expr):
            try:
                return key_of(self.expr(a)[0] if False else self.expr(a))
            except No:
                return ("t", tm.fmt(a, 30))
        if isinstance(a, tuple):
            return tuple(self.arg(b) for b in a)
        return repr(a)

    def sum(self, x):
        """Value and size of the largest contribution."""
        tot, big = 0.0, 0.0
        for m, c in x.t.items():
            v = complex(float(c)) if not isinstance(c, complex) else c
            for a, e in m:
                w = complex(self.atom(a))
                if w == 0 and e < 0:
                    raise No
                v = v * (w ** int(e) if e == int(e) else w ** float(e))
            tot += v
            big = max(big, abs(v))
        return tot, big

    def expr(self, x):
        k = ("x", id(x))
        if k in self.memo:
            return self.memo[k][0]
        v, big = self.sum(x)
        if abs(v) < 1e-11 * big:
            v = 0.0
        self.memo[k] = (v, x)
        return v


def compare(a, b):
    """True, False or None."""
    eq = ne = 0
    for s in SEEDS:
        if eq + ne >= 3:
            break
        e = Ev(s)
        try:
            x, p = e.sum(a)
            y, q = e.sum(b)
        except (No, OverflowError, ZeroDivisionError, ValueError,
                RecursionError):
            continue
        d, m = abs(x - y), max(p, q)
        if not m < 1e100:
            continue
        if d <= 1e-9 * max(m, 1e-30):
            eq += 1
        elif d > 1e-6 * max(abs(x), abs(y)) and d > 1e-7 * m:
            ne += 1
    if eq and not ne:
        return True if eq >= 2 else None
    if ne and not eq:
        return False if ne >= 2 else None
    return None
