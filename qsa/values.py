"""Abstract values of the interpreter (product domain)."""
from fractions import Fraction
from . import terms as tm

NOC = type("NOC", (), {"__repr__": lambda s: "NOC"})()
ANY = "any"          # dimension of 0 / inf / nan: fits every unit
E0 = frozenset()


# ------------------------------------------------------------------ dimensions
def D(**kw):
    return tuple(sorted((k, Fraction(v)) for k, v in kw.items() if v))


DLESS = ()


def dmul(a, b, s=1):
    if a is None or b is None:
        return None
    if a == ANY or b == ANY:
        if a == ANY and b == ANY:
            return ANY
        return ANY
    d = dict(a)
    for k, v in b:
        w = d.get(k, 0) + s * v
        if w:
            d[k] = w
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


def dpow(a, q):
    if a is None or a == ANY:
        return a
    return tuple((k, v * Fraction(q)) for k, v in a if v * Fraction(q))


def djoin(a, b):
    if a == b:
        return a
    if a == ANY:
        return b
    if b == ANY:
        return a
    return None


def dfmt(d):
    if d is None:
        return "?"
    if d == ANY:
        return "any"
    if not d:
        return "1"
    return "*".join(k if v == 1 else "%s^%s" % (k, v) for k, v in d)


# ---------------------------------------------------------------------- values
_ref = [0]


def newref():
    _ref[0] += 1
    return _ref[0]


def lead1(sh):
    """The shape of a term: without leading axes of length one."""
    i = 0
    while i < len(sh) - 1 and sh[i] == tm.ONE:
        i += 1
    return sh[i:]


def setshp(at, sh):
    """The shape of a term, also that of the arrays it was written into."""
    at.shp = sh
    while at.kind == "fn" and at.name in ("st", "stsl", "stn"):
        at = at.args[0].single_atom() if isinstance(at.args[0], tm.Expr) \
            else None
        if at is None or at.shp is not None or at.scalar or \
                at.kind != "fn" or at.name not in ("st", "stsl", "stn"):
            return
        at.shp = sh


class AV(object):
    """Number, boolean, string, None or array."""
    __slots__ = ("dim", "gv", "deps", "roots", "cst", "sh", "ref", "isp",
                 "isbool", "elems", "mnone", "lo", "hi", "sp", "lst", "dt")

    def __init__(self, dim=None, gv=None, deps=E0, roots=E0, cst=NOC, sh=None,
                 isp=None, isbool=False, elems=None, ref=None, mnone=False,
                 lo=None, hi=None, sp=None, lst=None, dt=None):
        self.dim = dim
        self.gv = gv
        self.deps = deps
        self.roots = roots
        self.cst = cst
        self.sh = sh
        self.isp = isp
        self.isbool = isbool
        self.elems = elems
        self.mnone = mnone
        self.lo = lo
        self.hi = hi
        self.sp = sp          # special payload (e.g. shape tuple source)
        self.lst = lst
        self.dt = dt          # "i", "f" or "c": element type of an array
        self.ref = newref() if ref is None else ref
        if sh and gv is not None and len(gv.t) == 1:
            at = gv.single_atom()
            if at is not None and at.shp is None and not at.scalar and \
                    None not in sh:
                setshp(at, lead1(sh))

    def copy(self, **kw):
        d = {s: getattr(self, s) for s in AV.__slots__}
        if "ref" not in kw:
            d["ref"] = None
        if "gv" in kw and "dt" not in kw:
            d["dt"] = None
        d.update(kw)
        return AV(**d)

    def same(self, **kw):
        """Copy keeping the identity."""
        return self.copy(ref=kw.pop("ref", self.ref), **kw)

    @property
    def scalar(self):
        return self.sh == ()

    @property
    def array(self):
        return self.sh is not None and self.sh != ()

    def __repr__(self):
        r = []
        if self.cst is not NOC:
            r.append("=%r" % (self.cst,))
        r.append("dim=" + dfmt(self.dim))
        r.append("gv=" + tm.fmt(self.gv))
        if self.sh is not None:
            r.append("sh=(%s)" % ",".join(tm.fmt(s) if s is not None else "?"
                                          for s in self.sh))
        if self.roots:
            r.append("roots=%s" % sorted(self.roots))
        if self.mnone:
            r.append("maybe-None")
        return "AV<%s>" % " ".join(r)


class TupV(object):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class RefV(object):
    """Reference to a heap record (list, dict, set or instance)."""
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return "Ref%d" % self.id


class FnV(object):
    __slots__ = ("node", "mod", "fid", "selfv", "cls", "qual", "kind",
                 "defaults", "kwdefaults", "partial")

    def __init__(self, node, mod, fid, qual, selfv=None, cls=None, kind="def",
                 defaults=None, kwdefaults=None, partial=None):
        self.node = node
        self.mod = mod
        self.fid = fid
        self.qual = qual
        self.selfv = selfv
        self.cls = cls
        self.kind = kind
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.partial = partial

    def bind(self, v):
        return FnV(self.node, self.mod, self.fid, self.qual, v, self.cls,
                   self.kind, self.defaults, self.kwdefaults, self.partial)

    def __repr__(self):
        return "Fn<%s>" % self.qual


class ClsV(object):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info

    def __repr__(self):
        return "Cls<%s>" % self.info.name


class LibV(object):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Lib<%s>" % self.name


class ModV(object):
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod


class BoundV(object):
    """Method of an AV / container / opaque value."""
    __slots__ = ("base", "name", "node")

    def __init__(self, base, name, node=None):
        self.base = base
        self.name = name
        self.node = node


class RangeV(object):
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class SliceV(object):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class IterV(object):
    """Iterable producing a generic element (zip/enumerate/product...)."""
    __slots__ = ("kind", "parts", "extra")

    def __init__(self, kind, parts, extra=None):
        self.kind, self.parts, self.extra = kind, parts, extra


class ChoiceV(object):
    __slots__ = ("cond", "a", "b", "deps")

    def __init__(self, cond, a, b, deps=E0):
        self.cond, self.a, self.b, self.deps = cond, a, b, deps


class TopV(object):
    """Unknown value."""
    __slots__ = ("deps", "roots", "gv")

    def __init__(self, deps=E0, roots=E0, gv=None):
        self.deps = deps
        self.roots = roots
        self.gv = gv

    def __repr__(self):
        return "Top<%s>" % tm.fmt(self.gv)


class EllV(object):
    pass


ELL = EllV()


class SuperV(object):
    __slots__ = ("cls", "selfv")

    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv


class ExcV(object):
    __slots__ = ("name", "args")

    def __init__(self, name, args=()):
        self.name, self.args = name, args


# heap records -------------------------------------------------------------
class ListRec(object):
    __slots__ = ("items", "elem", "roots", "gv", "deps")

    def __init__(self, items=None, elem=None, roots=E0, gv=None, deps=E0):
        self.items = items      # list of values or None (unknown length)
        self.elem = elem        # summary element when items is None
        self.roots = roots
        self.gv = gv
        self.deps = deps

    def copy(self):
        return ListRec(list(self.items) if self.items is not None else None,
                       self.elem, self.roots, self.gv, self.deps)


class DictRec(object):
    __slots__ = ("items", "rest", "roots", "gv", "deps", "isset", "open",
                 "used")

    def __init__(self, items=None, rest=None, roots=E0, gv=None, deps=E0,
                 isset=False, open=False):
        self.items = items if items is not None else {}
        self.rest = rest        # summary of values under unknown keys
        self.roots = roots
        self.gv = gv
        self.deps = deps
        self.isset = isset
        self.open = open        # may contain other keys (caller's dict)

    def copy(self):
        return DictRec(dict(self.items), self.rest, self.roots, self.gv,
                       self.deps, self.isset, self.open)


class ObjRec(object):
    __slots__ = ("cls", "attrs", "roots", "label")

    def __init__(self, cls, attrs=None, roots=E0, label=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.roots = roots
        self.label = label

    def copy(self):
        return ObjRec(self.cls, dict(self.attrs), self.roots, self.label)


class EnvRec(object):
    __slots__ = ("vars", "parent", "globs", "nonloc")

    def __init__(self, vars=None, parent=None):
        self.vars = vars if vars is not None else {}
        self.parent = parent
        self.globs = set()
        self.nonloc = set()

    def copy(self):
        e = EnvRec(dict(self.vars), self.parent)
        e.globs = self.globs
        e.nonloc = self.nonloc
        return e


class State(object):
    __slots__ = ("heap", "dead")

    def __init__(self, heap=None, dead=False):
        self.heap = heap if heap is not None else {}
        self.dead = dead

    def copy(self):
        return State({k: v.copy() for k, v in self.heap.items()}, self.dead)


def const(v, **kw):
    """AV of a python constant."""
    if isinstance(v, bool):
        return AV(DLESS, tm.num(int(v)), cst=v, sh=(), isbool=True, **kw)
    if isinstance(v, (int, float, complex)):
        dim = DLESS
        if v == 0 or v != v or v in (float("inf"), float("-inf")):
            dim = ANY
        if isinstance(v, float) and (v != v or v in (float("inf"),
                                                     float("-inf"))):
            gv = tm.number(v)
        else:
            gv = tm.number(v)
        return AV(dim, gv, cst=v, sh=(), **kw)
    if v is None:
        return AV(ANY, tm.sym("None"), cst=None, **kw)
    if isinstance(v, str):
        return AV(None, tm.sym("'%s'" % v), cst=v, **kw)
    if v is Ellipsis:
        return ELL
    return AV(None, tm.sym("const:%r" % (v,)), cst=v, **kw)
