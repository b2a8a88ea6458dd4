"""Three-valued equality of abstract values."""
from . import terms as tm
from . import numeq
from . import arreval
from .values import *      # noqa

# function symbols whose normal form is trusted for a verdict of inequality
STRONG = {
    "sum", "mean", "fft", "ifft", "rfft", "irfft", "idx", "roll", "arange",
    "argmin", "argmax", "ite", "lt", "le", "eq", "and", "not", "floor",
    "floordiv", "mod", "log", "trapz", "cumsum", "min", "max", "median", "std",
    "conj", "diag", "slice", "T", "i", "intp", "rint", "st", "stn", "item",
    "inv", "curvefit", "cfx", "cfcov", "lsq", "lsqx", "lsqjac", "covd", "get",
    "interp", "count", "sel", "fftint", "matmul", "tuple", "range", "isnan",
    "any", "all", "stsl", "csd", "corrcoef", "is_integer", "len", "shape",
    "swapaxes", "moveaxis", "butter", "filtfilt", "fftconvolve", "ndshift"}
# array operators with many equivalent forms: no verdict of inequality
STRUCT = {"stm", "sti", "ststr", "hstack", "vstack", "stack", "concatenate",
          "reshape", "ravel", "getw", "squeeze", "swapaxes", "delete", "pad",
          "moveaxis", "new", "expand_dims"}
# functions of single elements
ELEMENT = {"ite", "conj", "box", "lt", "le", "eq", "not", "and", "floor",
           "rint", "log", "mod", "floordiv", "isnan", "is_integer", "bc",
           "fft", "ifft", "rfft", "irfft"}
SPLIT = 6


def atoms_deep(x):
    seen = set()
    st = [x]
    while st:
        a = st.pop()
        if isinstance(a, tm.Expr):
            for i in a.atoms():
                if i not in seen:
                    seen.add(i)
                    st.extend(tm.T.atoms[i].args)
        elif isinstance(a, tuple):
            st.extend(a)
    return seen


def weak(x):
    return {i for i in atoms_deep(x) if tm.T.atoms[i].kind == "fn" and
            tm.T.atoms[i].name not in STRONG}


def nobox(w):
    return {i for i in w if tm.T.atoms[i].name != "box"}


def linears(x):
    return {i for i in atoms_deep(x) if tm.T.atoms[i].kind == "fn" and
            tm.T.atoms[i].name in tm.LINEAR}


def first_ite(x):
    """Some condition of a conditional occurring in x (innermost first)."""
    seen = set()

    def go(a):
        if isinstance(a, tm.Expr):
            for i in a.atoms():
                if i in seen:
                    continue
                seen.add(i)
                at = tm.T.atoms[i]
                for b in at.args:
                    r = go(b)
                    if r is not None:
                        return r
                if at.kind == "fn" and at.name == "ite":
                    return at.args[0]
        elif isinstance(a, tuple):
            for b in a:
                r = go(b)
                if r is not None:
                    return r
        return None
    return go(x)


def pointwise(x, c):
    """Everything that depends on the condition c acts element by element."""
    memo = {}

    def go(a, inner):
        if isinstance(a, tuple):
            return all([go(b, True) for b in a])
        if not isinstance(a, tm.Expr):
            return True
        k = (a, inner)
        if k in memo:
            return memo[k]
        memo[k] = True
        ok = True
        for i in a.atoms():
            at = tm.T.atoms[i]
            if at.kind == "fn" and at.name == "ite" and at.args[0] == c \
                    and inner:
                ok = False
                break
            deep = inner or at.kind == "fn" and at.name not in ELEMENT
            if not all([go(b, deep) for b in at.args]):
                ok = False
                break
        memo[k] = ok
        return ok
    return go(x, False)


def assume(x, c, val):
    """x under the assumption that the condition term c is val."""
    v = tm.ONE if val else tm.ZERO
    ca = c.single_atom()
    memo = {}
    if val and ca is not None and ca.kind == "fn" and ca.name == "eq":
        # an equation for a symbol: use it
        for p, q in (ca.args, ca.args[::-1]):
            y = q.single_atom() if isinstance(q, tm.Expr) else None
            if y is not None and y.kind == "sym" and isinstance(
                    p, tm.Expr) and y.name not in tm.symbols(p) and \
                    tm.of_atom(y) == q:
                memo[ca.id] = tm.ONE
                memo[y.id] = p
                break

    def sub(a):
        if isinstance(a, tm.Expr):
            return go(a)
        if isinstance(a, tuple):
            return tuple(sub(b) for b in a)
        return a

    def f(at):
        if at.id in memo:
            return memo[at.id]
        if at.kind == "sym":
            r = tm.of_atom(at)
        elif at.kind == "poly":
            r = go(at.args[0])
        elif at.kind == "exp":
            r = tm.exp_(go(at.args[0]))
        elif at.kind == "root":
            r = tm.powq(go(at.args[0]), Fraction(1, at.args[1]))
        elif ca is not None and at is ca:
            r = v
        elif at.name == "ite":
            cc = at.args[0]
            if cc == c:
                r = go(at.args[1] if val else at.args[2])
            else:
                cc = go(cc)
                k = cc.const()
                if k is not None:
                    r = go(at.args[1] if k != 0 else at.args[2])
                else:
                    a, b = go(at.args[1]), go(at.args[2])
                    r = a if a == b else tm.fn(
                        "ite", cc, a, b, real=at.real, pos=at.pos,
                        scalar=at.scalar, integer=at.integer)
        elif at.name == "not":
            k = go(at.args[0])
            r = (tm.ONE - k) if k.const() is not None else tm.fn(
                "not", k, scalar=at.scalar)
        elif at.name == "and":
            ks = [go(a) for a in at.args]
            ks = [k for k in ks if k.const() is None or k.const() == 0]
            if any(k.const() == 0 for k in ks):
                r = tm.ZERO
            elif not ks:
                r = tm.ONE
            elif len(ks) == 1:
                r = ks[0]
            else:
                r = tm.fn("and", *ks, scalar=at.scalar)
        elif at.name == "conj":
            r = tm.conj(go(at.args[0]))
        elif at.name in tm.LINEAR:
            a = tuple(sub(b) for b in at.args)
            r = tm.linear(at.name, a[0], *a[1:], scalar=at.scalar)
        else:
            a = tuple(sub(b) for b in at.args)
            r = tm.of_atom(at) if a == at.args else tm.fn(
                at.name, *a, real=at.real, pos=at.pos, scalar=at.scalar,
                integer=at.integer)
        memo[at.id] = r
        return r

    def go(e):
        return tm.map_atoms(e, f)
    return go(x)


def deep(e, rule):
    """Rewrite every atom (outermost first) with rule(atom, go) -> Expr or
    None."""
    memo = {}

    def f(at):
        if at.id in memo:
            return memo[at.id]
        memo[at.id] = tm.of_atom(at)
        r = rule(at, go)
        if r is None and at.kind == "poly":
            r = go(at.args[0])
        elif r is None and at.kind == "exp":
            r = tm.exp_(go(at.args[0]))
        elif r is None and at.kind == "root":
            r = tm.powq(go(at.args[0]), Fraction(1, at.args[1]))
        elif r is None and at.kind == "fn" and at.name == "conj":
            r = tm.conj(go(at.args[0]))
        elif r is None and at.kind == "fn":
            a = tuple(sub(x) for x in at.args)
            if a != at.args:
                if at.name == "ite" and a[1] == a[2]:
                    r = a[1]
                elif at.name in tm.LINEAR:
                    r = tm.linear(at.name, a[0], *a[1:], scalar=at.scalar)
                else:
                    r = tm.fn(at.name, *a, real=at.real, pos=at.pos,
                              scalar=at.scalar, integer=at.integer)
        if r is None:
            r = tm.of_atom(at)
        memo[at.id] = r
        return r

    def sub(x):
        if isinstance(x, tm.Expr):
            return go(x)
        if isinstance(x, tuple):
            return tuple(sub(y) for y in x)
        return x

    def go(e):
        return tm.map_atoms(e, f)
    return go(e)


def abstract(a, b):
    """a and b with the largest library-call atoms they share replaced by
    symbols."""
    da, db = atoms_deep(a), atoms_deep(b)
    both = {i for i in da & db if tm.T.atoms[i].kind == "fn" and
            tm.T.atoms[i].name not in ("ite", "lt", "le", "eq", "not", "and")
            and atoms_deep(tm.of_atom(tm.T.atoms[i])) - {i}}

    def rule(at, go):
        if at.id in both:
            return tm.sym("abs%d" % at.id, real=at.real, pos=at.pos,
                          scalar=at.scalar, integer=at.integer)
        return None
    return deep(a, rule), deep(b, rule)


def mergeints(*xs):
    """Integer scalars with the same value on all samples (sizes and indices
    written in different ways) replaced by one representative."""
    rep = {}

    def canon(e):
        if e.const() is not None or not tm.is_scalar(e) or \
                not atoms_deep(e):
            return None
        fp = arreval.fingerprint(e)
        return None if fp is None else rep.setdefault(fp, e)

    memo = {}

    def sub(x):
        if isinstance(x, tm.Expr):
            if x not in memo:
                r = canon(x)
                memo[x] = go(x) if r is None else r
            return memo[x]
        if isinstance(x, tuple):
            return tuple(sub(y) for y in x)
        return x
    done = {}

    def f(at):
        if at.id in done:
            return done[at.id]
        if at.kind == "sym" or at.kind == "fn" and at.name == "i" and False:
            r = tm.of_atom(at)
        elif at.kind == "poly":
            r = go(at.args[0])
        elif at.kind == "exp":
            r = tm.exp_(go(at.args[0]))
        elif at.kind == "root":
            r = tm.powq(go(at.args[0]), Fraction(1, at.args[1]))
        elif at.name == "conj":
            r = tm.conj(go(at.args[0]))
        else:
            a = tuple(sub(b) for b in at.args)
            if a == at.args:
                r = tm.of_atom(at)
            elif at.name in tm.LINEAR:
                r = tm.linear(at.name, a[0], *a[1:], scalar=at.scalar)
            else:
                r = tm.fn(at.name, *a, real=at.real, pos=at.pos,
                          scalar=at.scalar, integer=at.integer)
        done[at.id] = r
        return r

    def go(e):
        return tm.map_atoms(e, f)
    return [go(x) for x in xs]


def raise_pcs():
    S = arreval.SESSION
    return S.I.raises if S is not None else []


def eq_terms(a, b, depth=SPLIT):
    """(True|False|None, detail)"""
    if a is None or b is None:
        return None, "value not known"
    if a == b:
        return True, ""
    try:
        if tm.equal(a, b):
            return True, ""
        if depth == SPLIT:
            t, d = arreval.compare(a, b, raise_pcs())
            if t is not None:
                return t, d
            x, y = mergeints(a, b)
            if (x, y) != (a, b):
                a, b = x, y
                if a == b or tm.equal(a, b):
                    return True, ""
        c = first_ite(a)
        if c is None:
            c = first_ite(b)
        if c is not None:
            if depth == 0:
                return None, "too many cases"
            if not tm.is_scalar(c) and not (pointwise(a, c) and
                                            pointwise(b, c)):
                return None, "a condition varies within an array"
            und = None
            for val in (True, False):
                t, d = eq_terms(assume(a, c, val), assume(b, c, val),
                                depth - 1)
                if t is False:
                    return t, d
                if t is None:
                    und = d
            return (True, "") if und is None else (None, und)
        if "nan" in tm.symbols(a) or "nan" in tm.symbols(b):
            return True, ""      # a case in which there is no result
        r = tm.equal(a, b)
        if r:
            return True, ""
        nr = numeq.compare(a, b)
        if nr:
            return True, ""
        wa, wb = weak(a), weak(b)
        if nr is False:
            wa, wb = nobox(wa), nobox(wb)
        if wa != wb:
            return None, "differs in unmodelled terms %s" % sorted(
                {tm.T.atoms[i].name for i in wa ^ wb})[:5]
        if not r and any(tm.T.atoms[i].name in STRUCT for i in wa):
            return None, "array operators differ"
        if r is None and nr is False and linears(a) == linears(b):
            r = False
        if r is None:
            x, y = abstract(a, b)
            if (x, y) == (a, b):
                return None, "terms too large to compare"
            r = tm.equal(x, y)
            if r is None:
                return None, "terms too large to compare"
            if r:
                return True, ""
        return False, "%s  !=  %s" % (tm.fmt(a, 5)[:300], tm.fmt(b, 5)[:300])
    except (tm.TooBig, RecursionError, ZeroDivisionError, OverflowError) as x:
        return None, "terms too large to compare (%s)" % type(x).__name__


def eq_values(S, a, b, seen=None):
    """Equality of abstract values, containers compared element-wise."""
    seen = set() if seen is None else seen
    if isinstance(a, AV) and isinstance(b, AV):
        if a.cst is not NOC and b.cst is not NOC:
            if a.cst is None or b.cst is None or isinstance(a.cst, str):
                if a.cst == b.cst:
                    return True, ""
                return False, "%r != %r" % (a.cst, b.cst)
        if (a.cst is None) != (b.cst is None) and not (a.mnone or b.mnone):
            if a.cst is None and b.gv is not None or \
                    b.cst is None and a.gv is not None:
                return False, "None against a value"
        return eq_terms(S.I.gv_of(a), S.I.gv_of(b))
    if isinstance(a, TupV) and isinstance(b, TupV):
        if len(a.items) != len(b.items):
            return False, "different number of values"
        return all_eq([eq_values(S, x, y, seen)
                       for x, y in zip(a.items, b.items)])
    if isinstance(a, RefV) and isinstance(b, RefV):
        if a.id == b.id:
            return True, ""
        if (a.id, b.id) in seen:
            return True, ""
        seen.add((a.id, b.id))
        x, y = S.I.rec(a), S.I.rec(b)
        if isinstance(x, DictRec) and isinstance(y, DictRec):
            if set(x.items) != set(y.items):
                if x.open or y.open:
                    return None, "dictionary not fully known"
                return False, "different keys"
            return all_eq([eq_values(S, x.items[k], y.items[k], seen)
                           for k in x.items])
        if isinstance(x, ListRec) and isinstance(y, ListRec):
            if x.items is not None and y.items is not None:
                if len(x.items) != len(y.items):
                    return False, "different lengths"
                return all_eq([eq_values(S, p, q, seen)
                               for p, q in zip(x.items, y.items)])
            return eq_terms(S.I.gv_of(a), S.I.gv_of(b))
    if isinstance(a, (FnV, ClsV, LibV)) and type(a) is type(b):
        return True, ""
    return None, "values of unknown kind"


def all_eq(rs):
    und = None
    for t, d in rs:
        if t is False:
            return t, d
        if t is None:
            und = d
    return (True, "") if und is None else (None, und)
