"""Entry states: symbolic inputs, running an entry point abstractly."""
import sys
from . import terms as tm
from .values import *      # noqa
from .loader import Program
from .interp import Interp, Bottom, Event
from .npfuncs import Lib

sys.setrecursionlimit(20000)

REPO = "/repo"


class Raised(Exception):
    """The entry point definitely raises."""
    def __init__(self, events):
        Exception.__init__(self, "; ".join(
            "%s (%s)" % (e.msg, e.where()) for e in events))
        self.events = events

from . import arreval

_prog = {}


# measured data: may be given as whole numbers (raw readings)
DATA = {"traces", "trace", "rawtraces", "signal", "signal2", "pulse",
        "pulset", "arr", "x", "y", "data", "vals", "baseline"}


def set_root(root):
    global REPO
    REPO = root


def program(root=None):
    root = root or REPO
    if root not in _prog:
        _prog[root] = Program(root)
    return _prog[root]


class Session(object):
    """One abstract execution context with its own heap."""

    def __init__(self, root=None, debug=False):
        tm.reset()
        self.prog = program(root)
        self.lib = Lib()
        self.I = Interp(self.prog, self.lib)
        self.I.debug = debug
        arreval.SESSION = self
        self.lib.finite = set()

    # ------------------------------------------------------------ inputs
    def intsym(self, name, pos=True):
        g = tm.sym(name, real=True, pos=pos, integer=True)
        self.lib.finite.add(name)
        return g

    def sc(self, name, dim=DLESS, pos=False, integer=False, real=True,
           root=False, **kw):
        g = tm.sym(name, real=real, pos=pos, integer=integer)
        self.lib.finite.add(name)
        d = frozenset([name])
        return AV(dim, g, d, d if root else E0, sh=(), lo=0 if pos else None,
                  **kw)

    def intv(self, g, name=None):
        """integer value with term g"""
        return AV(DLESS, g, frozenset([name] if name else []), sh=())

    def arr(self, name, dim, shape, pos=False, real=True, integer=False,
            gv="auto", deps=None, roots=None, isbool=False, finite=True):
        """Array input; shape is a tuple of Exprs."""
        sh = tuple(tm.num(s) if isinstance(s, int) else s for s in shape)
        auto = isinstance(gv, str)
        if auto:
            gv = tm.sym(name, real=real, pos=pos, scalar=False,
                        integer=integer)
            at = gv.single_atom()
            at.shape = len(sh)
            at.shp = lead1(sh)
        if finite:
            self.lib.finite.add(name)
        d = frozenset([name])
        return AV(dim, gv, d if deps is None else deps,
                  d if roots is None else roots, sh=sh, isbool=isbool,
                  dt="a:" + name if name in DATA and real and auto and
                  not isbool else None)

    def opaque(self, name):
        d = frozenset([name])
        return TopV(d, d, tm.sym(name))

    def strv(self, name):
        """An unknown string."""
        d = frozenset([name])
        return AV(DLESS, tm.sym(name), d, sh=None)

    def const(self, v):
        return const(v)

    def lst(self, items=None, elem=None, root=None):
        r = frozenset([root]) if root else E0
        return self.I.newlist(list(items) if items is not None else None,
                              elem, roots=r, deps=r)

    def dct(self, items, root=None, **kw):
        r = frozenset([root]) if root else E0
        return self.I.newdict(dict(items), roots=r, **kw)

    # ----------------------------------------------------------- running
    def get(self, mod, name):
        for m in (mod, "qetpy", "qetpy.core", "qetpy.core.didv", "qetpy.utils",
                  "qetpy.cut", "qetpy.sim", "qetpy.plotting"):
            try:
                v = self.I.module_value(m, name)
            except KeyError:
                v = None
            if v is not None:
                return v
        raise KeyError("anchor %s.%s not found" % (mod, name))

    def wrap(self, v):
        return wrap(self, v)

    def call(self, f_, *args, **kwargs):
        args = [self.wrap(a) for a in args]
        kwargs = {k: self.wrap(v) for k, v in kwargs.items()}
        m = self.I.mark()
        try:
            return self.I.call(f_, args, kwargs)
        except Bottom:
            self.I.st.dead = False
            raise Raised([e for e in self.I.events[m:] if e.kind == "raise"])

    def meth(self, obj, name, *args, **kwargs):
        f = self.I.get_attr(obj, name)
        return self.call(f, *args, **kwargs)

    def attr(self, obj, name):
        r = self.I.rec(obj)
        return r.attrs.get(name)

    def attrs(self, obj):
        return self.I.rec(obj).attrs


def wrap(S, v):
    if v is None or isinstance(v, (bool, int, float, complex, str)):
        return const(v)
    if isinstance(v, tm.Expr):
        return AV(DLESS, v, E0, sh=())
    if isinstance(v, list):
        return S.I.newlist([wrap(S, x) for x in v])
    if isinstance(v, tuple):
        return TupV([wrap(S, x) for x in v])
    if isinstance(v, dict):
        return S.I.newdict({k: wrap(S, x) for k, x in v.items()})
    return v
