"""Abstract interpreter over the Python AST (interprocedural by inlining)."""
import ast
import itertools
from . import terms as tm
from .values import *      # noqa
from .loader import Program, FnInfo, ClsInfo

MAXDEPTH = 40
UNROLL = 24


class Event(object):
    __slots__ = ("kind", "node", "qual", "file", "msg", "data")

    def __init__(self, kind, node, qual, file, msg, data=None):
        self.kind, self.node, self.qual = kind, node, qual
        self.file, self.msg, self.data = file, msg, data

    def where(self):
        return "%s:%s in %s" % (self.file, getattr(self.node, "lineno", "?"),
                                self.qual)

    def text(self):
        try:
            s = ast.unparse(self.node)
        except Exception:
            s = "?"
        s = " ".join(s.split())
        return s if len(s) < 110 else s[:107] + "..."


class Frame(object):
    def __init__(self, fid, qual, mod, fn=None):
        self.fid = fid
        self.qual = qual
        self.mod = mod
        self.fn = fn
        self.returns = []
        self.pcbase = 0
        self.loops = []
        self.yields = None


class Bottom(Exception):
    """Evaluation of an expression cannot complete (callee always raises)."""


class Interp(object):
    def __init__(self, prog, lib):
        self.prog = prog
        self.lib = lib
        self.events = []
        self._evk = set()
        self.st = State()
        self.ids = itertools.count(1)
        self.frames = []
        self.pc = []
        self.node = None
        self.modcache = {}
        self.modrecs = {}
        self.fnstack = []
        self.loopdepth = 0
        self.named_loops = False   # name what loops leave (see loop_result)
        self.left = {}
        self.calls = set()        # qualnames of analysed functions
        self.nstmts = 0
        self.raises = []
        self.stubs = {}           # qualified name -> model(I, arguments)
        self.watch = {}           # qualified name -> [(path, value, terms)]
        self.muted = 0
        self.trystack = 0
        self.decorators = {}
        self.budget = 400000
        self.debug = False

    # ---------------------------------------------------------------- events
    def ev(self, kind, msg, data=None, node=None):
        if self.muted:
            return
        node = node or self.node
        fr = self.frames[-1] if self.frames else None
        k = (kind, id(node), msg,
             data.get("roots") if isinstance(data, dict) else None)
        if k in self._evk:
            return
        self._evk.add(k)
        rel = fr.mod.path if fr else "?"
        i = rel.find("/qetpy/")
        rel = rel[i + 1:] if i >= 0 else rel
        self.events.append(Event(kind, node, fr.qual if fr else "?", rel,
                                 msg, data))

    def mark(self):
        return len(self.events)

    # ----------------------------------------------------------------- terms
    def safe(self, f, *a, **k):
        try:
            return f(*a, **k)
        except (tm.TooBig, ZeroDivisionError, OverflowError, RecursionError):
            return None

    # ------------------------------------------------------------- structure
    def alloc(self, rec):
        i = next(self.ids)
        self.st.heap[i] = rec
        return RefV(i)

    def rec(self, ref):
        return self.st.heap.get(ref.id)

    def newlist(self, items=None, elem=None, **kw):
        return self.alloc(ListRec(items, elem, **kw))

    def newdict(self, items=None, **kw):
        return self.alloc(DictRec(items, **kw))

    def env(self):
        return self.st.heap[self.frames[-1].fid]

    # ----------------------------------------------------------- name lookup
    def module_value(self, modname, name):
        r = self.prog.lookup(modname, name)
        if r is None:
            return None
        return self.from_lookup(r, name)

    def from_lookup(self, r, name):
        k = r[0]
        if k == "def":
            fi = r[1]
            return self.mkfn(fi.node, fi.mod, None, fi.qual)
        if k == "cls":
            return ClsV(r[1])
        if k == "mod":
            return ModV(r[1])
        if k == "lib":
            return self.lib.value(self, r[1])
        if k == "assign":
            mod, exprs = r[1], r[2]
            key = (mod.name, name)
            if key in self.modcache:
                v = self.modcache[key]
                if isinstance(v, RefV) and v.id not in self.st.heap:
                    for i, r in self.modrecs[key].items():
                        self.st.heap.setdefault(i, r.copy())
                return v
            self.modcache[key] = TopV()
            old = set(self.st.heap)
            v = TopV()
            if len(exprs) == 1 and exprs[0] is not None:
                fr = self.module_frame(mod)
                self.frames.append(fr)
                pc, self.pc = self.pc, []
                try:
                    v = self.eval(exprs[0])
                except Bottom:
                    v = TopV()
                finally:
                    self.frames.pop()
                    self.pc = pc
            if isinstance(v, AV) and v.cst is NOC and v.sh != ():
                v = v.same(roots=frozenset(["global:%s.%s" % key]))
            elif isinstance(v, RefV):
                new = {i: r for i, r in self.st.heap.items() if i not in old
                       and isinstance(r, (ListRec, DictRec, ObjRec))}
                new[v.id] = self.rec(v)
                for r in new.values():
                    r.roots = frozenset(["global:%s.%s" % key])
                self.modrecs[key] = {i: r.copy() for i, r in new.items()}
            elif isinstance(v, TopV):
                v = TopV(roots=frozenset(["global:%s.%s" % key]))
            self.modcache[key] = v
            return v
        return None

    def module_frame(self, mod):
        fid = next(self.ids)
        self.st.heap[fid] = EnvRec()
        return Frame(fid, "<module %s>" % mod.name, mod)

    def mkfn(self, node, mod, fid, qual, cls=None):
        kind = "def"
        for d in getattr(node, "decorator_list", []):
            n = d.func if isinstance(d, ast.Call) else d
            nm = n.attr if isinstance(n, ast.Attribute) else getattr(
                n, "id", None)
            if nm == "staticmethod":
                kind = "static"
            elif nm == "classmethod":
                kind = "class"
            elif nm in ("property", "cached_property"):
                kind = "property"
            elif nm is not None:
                self.decorators[qual] = nm
        return FnV(node, mod, fid, qual, None, cls, kind)

    def lookup_name(self, name):
        e = self.env()
        if name in e.globs:
            v = self.module_value(self.frames[-1].mod.name, name)
            return v if v is not None else TopV()
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = self.st.heap.get(e.parent) if e.parent is not None else None
        v = self.module_value(self.frames[-1].mod.name, name)
        if v is not None:
            return v
        v = self.lib.builtin(self, name)
        if v is not None:
            return v
        self.ev("unbound", "name %r is not defined" % name)
        return TopV()

    # -------------------------------------------------------------- joining
    def gate(self, cond):
        """cond: (gv, deps)"""
        return cond

    def ite(self, cg, a, b):
        if a is None or b is None:
            return None
        if a == b:
            return a
        if cg is None:
            return None
        at = cg.single_atom()
        if at is not None and at.name == "not" and at.kind == "fn":
            return self.ite(at.args[0], b, a)
        def base():
            # a value identical modulo algebra
            if self.safe(tm.equal, a, b) is True:
                return a
            return tm.fn("ite", cg, a, b,
                         real=tm.is_real(a) and tm.is_real(b),
                         scalar=tm.is_scalar(a) and tm.is_scalar(b),
                         pos=tm.is_pos(a) and tm.is_pos(b),
                         integer=tm.is_int(a) and tm.is_int(b))
        return self.safe(base)

    def join(self, a, b, cond):
        """Value after a branch: a when cond holds, else b."""
        if a is b:
            return a
        cg, cd = cond
        if a is None:
            return self.taint(b, cd)
        if b is None:
            return self.taint(a, cd)
        if isinstance(a, AV) and isinstance(b, AV):
            return self.join_av(a, b, cg, cd)
        if isinstance(a, TupV) and isinstance(b, TupV) and \
                len(a.items) == len(b.items):
            return TupV([self.join(x, y, cond)
                         for x, y in zip(a.items, b.items)])
        if isinstance(a, RefV) and isinstance(b, RefV):
            if a.id == b.id:
                return a
            ra, rb = self.rec(a), self.rec(b)
            if type(ra) is type(rb):
                if isinstance(ra, DictRec) and set(ra.items) == set(rb.items) \
                        and not ra.open and not rb.open:
                    return self.alloc(self.join_rec(ra, rb, cond))
                if isinstance(ra, ListRec) and ra.items is not None and \
                        rb.items is not None and \
                        len(ra.items) == len(rb.items):
                    return self.alloc(self.join_rec(ra, rb, cond))
        if isinstance(a, FnV) and isinstance(b, FnV) and a.node is b.node:
            return a
        if isinstance(a, LibV) and isinstance(b, LibV) and a.name == b.name:
            return a
        if isinstance(a, ClsV) and isinstance(b, ClsV) and a.info is b.info:
            return a
        if isinstance(a, TopV) or isinstance(b, TopV):
            return TopV(self.deps_of(a) | self.deps_of(b) | cd,
                        self.roots_of(a) | self.roots_of(b),
                        self.ite(cg, self.gv_of(a), self.gv_of(b)))
        return ChoiceV(cg, a, b, cd)

    def join_av(self, a, b, cg, cd):
        if a.ref == b.ref and a.gv is not None and a.gv == b.gv and \
                a.dim == b.dim:
            return a
        gv = self.ite(cg, a.gv, b.gv)
        same = gv is not None and a.gv is not None and gv == a.gv
        deps = a.deps | b.deps
        if not (a.gv is not None and b.gv is not None and a.gv == b.gv):
            deps = deps | cd
        cst = a.cst if (a.cst is not NOC and b.cst is not NOC and
                        type(a.cst) is type(b.cst) and a.cst == b.cst) else NOC
        an, bn = a.cst is None, b.cst is None
        mn = (an != bn) or a.mnone or b.mnone
        if an and not bn:
            src, dim, sh = b, b.dim, b.sh
        elif bn and not an:
            src, dim, sh = a, a.dim, a.sh
        else:
            src = None
            dim = djoin(a.dim, b.dim)
            sh = self.join_sh(a.sh, b.sh, cg)
            if sh is None and a.sh is not None and b.sh is not None:
                # "no result" marks: the shape is that of a result
                if self.isnan(a):
                    sh = b.sh
                elif self.isnan(b):
                    sh = a.sh
        if an and bn:
            mn = False
        elems = None
        if a.elems is not None and b.elems is not None and \
                set(a.elems) == set(b.elems):
            elems = {k: self.join_av(a.elems[k], b.elems[k], cg, cd)
                     for k in a.elems}
        isp = a.isp if (a.isp is not None and b.isp is not None and
                        a.isp == b.isp) else None
        if src is not None:
            isp = src.isp
        lo = min(a.lo, b.lo) if a.lo is not None and b.lo is not None else None
        hi = max(a.hi, b.hi) if a.hi is not None and b.hi is not None else None
        return AV(dim, gv, deps, a.roots | b.roots, cst, sh, isp,
                  a.isbool and b.isbool, elems,
                  a.ref if a.ref == b.ref else None, mn, lo, hi,
                  dt=a.dt if a.dt == b.dt else None,
                  sp=a.sp if isinstance(a.sp, tuple) and a.sp == b.sp
                  else None)

    def isnan(self, a):
        at = a.gv.single_atom() if isinstance(a.gv, tm.Expr) else None
        return at is not None and at.kind == "sym" and at.name == "nan"

    def join_sh(self, a, b, cg=None):
        if a is None or b is None or len(a) != len(b):
            return None
        return tuple(x if (x is not None and y is not None and x == y)
                     else (self.ite(cg, x, y) if cg is not None else None)
                     for x, y in zip(a, b))

    def join_rec(self, a, b, cond):
        if isinstance(a, ObjRec):
            r = ObjRec(a.cls, {}, a.roots | b.roots, a.label)
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                r.attrs[k] = self.join(a.attrs.get(k), b.attrs.get(k), cond)
            return r
        if isinstance(a, EnvRec):
            r = EnvRec({}, a.parent)
            r.globs, r.nonloc = a.globs, a.nonloc
            for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                r.vars[k] = self.join(a.vars.get(k), b.vars.get(k), cond)
            return r
        if isinstance(a, DictRec):
            r = DictRec({}, None, a.roots | b.roots, None, a.deps | b.deps,
                        a.isset, a.open or b.open)
            for k in list(a.items) + [k for k in b.items if k not in a.items]:
                x, y = a.items.get(k), b.items.get(k)
                r.items[k] = self.join(x, y, cond)
                if x is None or y is None:
                    r.open = True
            if a.rest is not None or b.rest is not None:
                r.rest = self.join(a.rest, b.rest, cond)
            r.gv = self.ite(cond[0], a.gv, b.gv)
            return r
        if isinstance(a, ListRec):
            r = ListRec(None, None, a.roots | b.roots, None,
                        a.deps | b.deps)
            if a.items is not None and b.items is not None and \
                    len(a.items) == len(b.items):
                r.items = [self.join(x, y, cond)
                           for x, y in zip(a.items, b.items)]
            else:
                e = None
                for src in (a, b):
                    vs = src.items if src.items is not None else [src.elem]
                    for v in vs:
                        if v is not None:
                            e = v if e is None else self.join(e, v, cond)
                r.elem = e
                r.deps = r.deps | cond[1]
                r.gv = self.ite(cond[0], self.list_gv(a), self.list_gv(b))
            return r
        return a

    def list_gv(self, rec):
        if rec.items is None:
            return rec.gv
        g = [self.gv_of(v) for v in rec.items]
        if any(x is None for x in g):
            return None
        return self.safe(tm.fn, "list", *g, scalar=False,
                         real=all(tm.is_real(x) for x in g))

    def join_state(self, sa, sb, cond):
        if sa.dead:
            return sb
        if sb.dead:
            return sa
        heap = {}
        st = State(heap)
        keep, self.st = self.st, st
        # records referenced while joining must be visible
        for k, v in itertools.chain(sa.heap.items(), sb.heap.items()):
            heap.setdefault(k, v)
        for k in list(set(sa.heap) & set(sb.heap)):
            ra, rb = sa.heap[k], sb.heap[k]
            if ra is rb:
                continue
            if self.rec_same(ra, rb):
                continue
            heap[k] = self.join_rec(ra, rb, cond)
        self.st = keep
        return st

    @staticmethod
    def rec_same(a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, EnvRec):
            x, y = a.vars, b.vars
        elif isinstance(a, ObjRec):
            x, y = a.attrs, b.attrs
        elif isinstance(a, DictRec):
            x, y = a.items, b.items
            if a.rest is not b.rest:
                return False
        else:
            if a.items is None or b.items is None or \
                    len(a.items) != len(b.items):
                return a.items is b.items and a.elem is b.elem
            return all(p is q for p, q in zip(a.items, b.items))
        return len(x) == len(y) and all(k in y and y[k] is v
                                        for k, v in x.items())

    # --------------------------------------------------------- facet helpers
    def deps_of(self, v, depth=0):
        if isinstance(v, AV):
            d = v.deps
            return d
        if isinstance(v, TupV):
            return frozenset().union(*[self.deps_of(x, depth + 1)
                                       for x in v.items]) if v.items else E0
        if isinstance(v, TopV):
            return v.deps
        if isinstance(v, ChoiceV):
            return v.deps | self.deps_of(v.a, depth + 1) | self.deps_of(
                v.b, depth + 1)
        if isinstance(v, RefV) and depth < 4:
            r = self.rec(v)
            d = set()
            if isinstance(r, ListRec):
                d |= r.deps
                for x in (r.items if r.items is not None else [r.elem]):
                    d |= self.deps_of(x, depth + 1)
            elif isinstance(r, DictRec):
                d |= r.deps
                for x in r.items.values():
                    d |= self.deps_of(x, depth + 1)
                d |= self.deps_of(r.rest, depth + 1)
            elif isinstance(r, ObjRec):
                for x in r.attrs.values():
                    d |= self.deps_of(x, depth + 1)
            return frozenset(d)
        if isinstance(v, RangeV):
            return self.deps_of(v.start) | self.deps_of(v.stop) | \
                self.deps_of(v.step)
        if isinstance(v, IterV):
            d = E0
            for p in v.parts:
                d = d | self.deps_of(p, depth + 1)
            return d
        if isinstance(v, SliceV):
            return self.deps_of(v.lo) | self.deps_of(v.hi) | \
                self.deps_of(v.step)
        if isinstance(v, BoundV):
            return self.deps_of(v.base, depth + 1)
        if isinstance(v, FnV) and v.selfv is not None:
            return self.deps_of(v.selfv, depth + 1)
        return E0

    def roots_of(self, v, depth=0):
        if isinstance(v, (AV, TopV)):
            return v.roots
        if isinstance(v, TupV):
            return frozenset().union(*[self.roots_of(x, depth + 1)
                                       for x in v.items]) if v.items else E0
        if isinstance(v, ChoiceV):
            return self.roots_of(v.a, depth + 1) | self.roots_of(
                v.b, depth + 1)
        if isinstance(v, RefV):
            r = self.rec(v)
            return r.roots if r is not None and hasattr(r, "roots") else E0
        if isinstance(v, IterV):
            d = E0
            for p in v.parts:
                d = d | self.roots_of(p, depth + 1)
            return d
        return E0

    def gv_of(self, v, depth=0):
        """Term of any value (structures are encoded)."""
        if isinstance(v, AV):
            if v.gv is None and v.elems is not None:
                parts = []
                for k in sorted(v.elems):
                    g = self.gv_of(v.elems[k])
                    if g is None:
                        return None
                    parts.append(tuple(k) if isinstance(k, tuple) else k)
                    parts.append(g)
                if len(parts) == 2 and tm.is_scalar(parts[1]):
                    return parts[1]      # one element: broadcasts like it
                return self.safe(tm.fn, "arr", *parts)
            return v.gv
        if isinstance(v, TupV):
            g = [self.gv_of(x, depth + 1) for x in v.items]
            if any(x is None for x in g):
                return None
            return self.safe(tm.fn, "tuple", *g, real=all(
                tm.is_real(x) for x in g))
        if isinstance(v, TopV):
            return v.gv
        if isinstance(v, RangeV):
            g = [self.gv_of(x) for x in (v.start, v.stop, v.step)]
            if any(x is None for x in g):
                return None
            return self.safe(tm.fn, "range", *g)
        if isinstance(v, SliceV):
            g = [self.gv_of(x) for x in (v.lo, v.hi, v.step)]
            if any(x is None for x in g):
                return None
            return self.safe(tm.fn, "slice", *g)
        if isinstance(v, RefV) and depth < 6:
            r = self.rec(v)
            if isinstance(r, ListRec):
                return self.list_gv(r)
            if isinstance(r, DictRec):
                if r.gv is not None and not r.items:
                    return r.gv
                if r.open or r.rest is not None:
                    return None
                parts = []
                for k in sorted(r.items, key=repr):
                    g = self.gv_of(r.items[k], depth + 1)
                    if g is None:
                        return None
                    parts += [repr(k), g]
                return self.safe(tm.fn, "dict", *parts)
            if isinstance(r, ObjRec):
                return tm.sym("obj:%s" % r.label) if r.label else None
        if isinstance(v, ChoiceV):
            return self.ite(v.cond, self.gv_of(v.a, depth + 1),
                            self.gv_of(v.b, depth + 1))
        if isinstance(v, FnV):
            if v.selfv is not None or v.fid is not None:
                return tm.sym("fn:%s@%s" % (v.qual, getattr(
                    v.node, "lineno", 0)))
            return tm.sym("fn:" + v.qual)
        if isinstance(v, LibV):
            return tm.sym("lib:" + v.name)
        if isinstance(v, ClsV):
            return tm.sym("cls:" + v.info.name)
        if v is ELL:
            return tm.sym("...")
        if isinstance(v, IterV):
            g = [self.gv_of(p, depth + 1) for p in v.parts]
            if any(x is None for x in g):
                return None
            return self.safe(tm.fn, "iter_" + v.kind, *g)
        return None

    def dim_of(self, v):
        if isinstance(v, AV):
            return v.dim
        if isinstance(v, TupV):
            d = ANY
            for x in v.items:
                d = djoin(d, self.dim_of(x)) if d is not None else None
            return d
        if isinstance(v, RefV):
            r = self.rec(v)
            if isinstance(r, ListRec):
                if r.items is None:
                    return self.dim_of(r.elem)
                d = ANY
                for x in r.items:
                    d = djoin(d, self.dim_of(x)) if d is not None else None
                return d
        if isinstance(v, RangeV):
            return DLESS
        return None

    def taint(self, v, deps):
        if not deps or v is None:
            return v
        if isinstance(v, AV):
            if deps <= v.deps:
                return v
            return v.same(deps=v.deps | deps)
        if isinstance(v, TupV):
            return TupV([self.taint(x, deps) for x in v.items])
        if isinstance(v, TopV):
            return TopV(v.deps | deps, v.roots, v.gv)
        if isinstance(v, ChoiceV):
            return ChoiceV(v.cond, v.a, v.b, v.deps | deps)
        return v

    def opaque(self, name, parts, **kw):
        """Fresh AV for an unmodelled operation over the given values."""
        deps = E0
        g = []
        for p in parts:
            deps = deps | self.deps_of(p)
            g.append(self.gv_of(p))
        gv = None
        if all(x is not None for x in g):
            gv = self.safe(tm.fn, name, *g, real=kw.pop("real", False),
                           scalar=kw.pop("scalar", False),
                           pos=kw.pop("pos", False))
        else:
            for k in ("real", "scalar", "pos"):
                kw.pop(k, None)
        return AV(kw.pop("dim", None), gv, deps | kw.pop("deps", E0), **kw)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st.dead:
                return
            self.exec(s)

    def exec(self, s):
        self.nstmts += 1
        if self.nstmts > self.budget:
            raise RuntimeError("analysis budget exhausted")
        old = self.node
        self.node = s
        try:
            m = getattr(self, "x_" + type(s).__name__, None)
            if m is not None:
                m(s)
        except Bottom:
            self.st.dead = True
        finally:
            self.node = old

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def x_Pass(self, s):
        pass

    def x_Import(self, s):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            r = self.prog.mod_or_lib(a.name if a.asname else nm)
            self.env().vars[nm] = self.from_lookup(r, nm)

    def x_ImportFrom(self, s):
        mod = self.frames[-1].mod
        base = s.module or ""
        if s.level:
            pk = mod.package().split(".")
            pk = pk[:len(pk) - (s.level - 1)]
            base = ".".join(pk + ([base] if base else []))
        for a in s.names:
            if a.name == "*":
                continue
            if base in self.prog.mods:
                v = self.module_value(base, a.name)
            else:
                v = self.lib.value(self, base + "." + a.name)
            self.env().vars[a.asname or a.name] = v if v is not None else TopV()

    def x_Global(self, s):
        self.env().globs |= set(s.names)

    def x_Nonlocal(self, s):
        self.env().nonloc |= set(s.names)

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        self.augassign(s)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.env().vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                k = self.eval(t.slice)
                if isinstance(b, RefV):
                    self.container_mut(b, "del")
                    r = self.rec(b)
                    if isinstance(r, DictRec) and isinstance(k, AV) and \
                            k.cst is not NOC:
                        r.items.pop(k.cst, None)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value)
                if isinstance(b, RefV) and isinstance(self.rec(b), ObjRec):
                    self.rec(b).attrs.pop(t.attr, None)

    def x_FunctionDef(self, s):
        fr = self.frames[-1]
        fv = self.mkfn(s, fr.mod, fr.fid, fr.qual + "." + s.name)
        fv.defaults = [self.eval(d) for d in s.args.defaults]
        fv.kwdefaults = [self.eval(d) if d is not None else None
                         for d in s.args.kw_defaults]
        self.env().vars[s.name] = fv

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s):
        self.env().vars[s.name] = ClsV(ClsInfo(s, self.frames[-1].mod))

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else const(None)
        fr = self.frames[-1]
        fr.returns.append((list(self.pc[fr.pcbase:]), v, self.st, s))
        self.st = State(dict(), True)

    def x_Raise(self, s):
        name, args = "?", ()
        if s.exc is not None:
            v = self.eval(s.exc)
            if isinstance(v, ExcV):
                name = v.name
                args = v.args
            elif isinstance(v, LibV):
                name = v.name
            elif isinstance(v, ClsV):
                name = v.info.name
        fr = self.frames[-1]
        deps = E0
        for g, pol, d in self.pc:
            deps = deps | d
        if not self.muted and self.pc:
            self.raises.append(list(self.pc))
        self.ev("raise", "raise %s" % name,
                {"exc": name, "pc": list(self.pc), "deps": deps,
                 "stack": [f.qual for f in self.frames]})
        self.st.dead = True

    def x_Assert(self, s):
        c = self.eval(s.test)
        t = self.truth(c)
        if t is False:
            self.ev("raise", "assert False", {"exc": "AssertionError",
                                              "pc": list(self.pc),
                                              "deps": E0, "stack": []})
            self.st.dead = True

    def cond_of(self, v):
        """(gv, deps) of a condition value."""
        g = self.bool_gv(v)
        return (g, self.deps_of(v))

    def bool_gv(self, v):
        if isinstance(v, AV):
            if v.isbool:
                return v.gv
            return self.safe(tm.fn, "truth", v.gv, scalar=True) \
                if v.gv is not None else None
        g = self.gv_of(v)
        return self.safe(tm.fn, "truth", g, scalar=True) \
            if g is not None else None

    def truth(self, v):
        """True / False / None (unknown)."""
        if isinstance(v, AV):
            if v.cst is not NOC:
                return bool(v.cst)
            if v.mnone:
                return None
            if v.lo is not None and v.lo > 0:
                return True
            if v.hi is not None and v.hi < 0:
                return True
            if v.gv is not None:
                c = v.gv.const()
                if c is not None and v.sh == ():
                    return c != 0
            return None
        if isinstance(v, TupV):
            return len(v.items) > 0
        if isinstance(v, RefV):
            r = self.rec(v)
            if isinstance(r, ListRec) and r.items is not None:
                return len(r.items) > 0
            if isinstance(r, DictRec) and not r.open:
                if r.rest is None:
                    return len(r.items) > 0
            if isinstance(r, ObjRec):
                return True
            return None
        if isinstance(v, (FnV, ClsV, LibV, ModV)):
            return True
        return None

    def branch(self, cond, fa, fb):
        """Run fa under cond and fb under not cond, joining the states."""
        cg, cd = cond
        st0 = self.st
        sa = st0.copy()
        sb = st0.copy()
        self.st = sa
        self.pc.append((cg, True, cd))
        ra = rb = None
        try:
            ra = fa()
        except Bottom:
            self.st.dead = True
        finally:
            self.pc.pop()
        sa = self.st
        self.st = sb
        self.pc.append((cg, False, cd))
        try:
            rb = fb()
        except Bottom:
            self.st.dead = True
        finally:
            self.pc.pop()
        sb = self.st
        da, db = sa.dead, sb.dead
        self.st = self.join_state(sa, sb, cond)
        if da and db:
            self.st = State({}, True)
            return None, True
        if da:
            return rb, False
        if db:
            return ra, False
        if ra is None and rb is None:
            return None, False
        return self.join(ra, rb, cond), False

    def x_If(self, s):
        c = self.eval(s.test)
        t = self.truth(c)
        if t is True:
            self.exec_block(s.body)
            return
        if t is False:
            self.exec_block(s.orelse)
            return

        def fa():
            self.refine(s.test, True)
            self.exec_block(s.body)

        def fb():
            self.refine(s.test, False)
            self.exec_block(s.orelse)
        self.branch(self.cond_of(c), fa, fb)

    def refine(self, test, pol):
        """Narrow maybe-None variables by an `x is None` test."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not pol)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and pol:
                for v in test.values:
                    self.refine(v, True)
            if isinstance(test.op, ast.Or) and not pol:
                for v in test.values:
                    self.refine(v, False)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.comparators[0], ast.Constant) and \
                test.comparators[0].value is None and \
                isinstance(test.ops[0], (ast.Is, ast.IsNot)):
            isnone = isinstance(test.ops[0], ast.Is) == pol
            slot = self.slot(test.left)
            if slot is None:
                return
            get, put = slot
            v = get()
            if isinstance(v, AV) and v.mnone:
                if isnone:
                    put(const(None))
                else:
                    g = v.gv
                    at = g.single_atom() if g is not None else None
                    none = tm.sym("None")
                    if at is not None and at.name == "ite":
                        if at.args[1] == none:
                            g = at.args[2]
                        elif at.args[2] == none:
                            g = at.args[1]
                    put(v.copy(gv=g, mnone=False))

    def slot(self, node):
        if isinstance(node, ast.Name):
            e = self.env()
            if node.id in e.vars:
                return (lambda: e.vars[node.id],
                        lambda v: e.vars.__setitem__(node.id, v))
        elif isinstance(node, ast.Attribute) and isinstance(node.value,
                                                            ast.Name):
            b = self.env().vars.get(node.value.id)
            if isinstance(b, RefV):
                r = self.rec(b)
                if isinstance(r, ObjRec) and node.attr in r.attrs:
                    return (lambda: r.attrs[node.attr],
                            lambda v: r.attrs.__setitem__(node.attr, v))
        return None

    # ----------------------------------------------------------------- loops
    def static_iter(self, it):
        """List of element values if statically known and small."""
        if isinstance(it, TupV):
            return list(it.items)
        if isinstance(it, RefV):
            r = self.rec(it)
            if isinstance(r, ListRec) and r.items is not None:
                return list(r.items)
            if isinstance(r, DictRec) and not r.open and r.rest is None:
                return [const(k) if not isinstance(k, tuple) else
                        TupV([const(x) for x in k]) for k in r.items]
        if isinstance(it, RangeV):
            a, b, c = it.start, it.stop, it.step
            if all(isinstance(x, AV) and isinstance(x.cst, int)
                   for x in (a, b, c)) and c.cst != 0:
                r = range(a.cst, b.cst, c.cst)
                if len(r) <= UNROLL:
                    return [const(i) for i in r]
            return None
        if isinstance(it, AV):
            if it.elems is not None and it.sh is not None and \
                    len(it.sh) == 1:
                ks = sorted(it.elems)
                return [it.elems[k] for k in ks]
            if isinstance(it.cst, str):
                return [const(c) for c in it.cst]
            return None
        if isinstance(it, IterV):
            ps = [self.static_iter(p) for p in it.parts]
            if it.kind == "zip":
                if any(p is not None for p in ps):
                    n = min(len(p) for p in ps if p is not None)
                    cols = []
                    for p, src in zip(ps, it.parts):
                        if p is None:
                            cols.append([self.lib.index(self, src, [const(i)])
                                         for i in range(n)]
                                        if isinstance(src, AV) else None)
                        else:
                            cols.append(p)
                    if any(c is None for c in cols):
                        return None
                    return [TupV([c[i] for c in cols]) for i in range(n)]
                return None
            if any(p is None for p in ps):
                return None
            if it.kind == "enumerate":
                st = it.extra if isinstance(it.extra, int) else 0
                return [TupV([const(i + st), v]) for i, v in enumerate(ps[0])]
            if it.kind == "product":
                n = 1
                for p in ps:
                    n *= len(p)
                if n > 4 * UNROLL:
                    return None
                return [TupV(x) for x in itertools.product(*ps)]
            if it.kind == "reversed":
                return list(reversed(ps[0]))
            if it.kind in ("iter", "list"):
                return ps[0]
        return None

    def generic_elem(self, it):
        """Abstract element of an iterable of unknown length."""
        d = self.loopdepth
        if isinstance(it, RangeV):
            g = [self.gv_of(x) for x in (it.start, it.stop, it.step)]
            gv = None
            if all(x is not None for x in g):
                gv = self.safe(tm.fn, "i", g[0], g[1], g[2], d, scalar=True,
                               integer=True)
            return AV(DLESS, gv, self.deps_of(it), sh=(), lo=0
                      if isinstance(it.start, AV) and it.start.cst == 0
                      else None)
        if isinstance(it, AV):
            n = it.sh[0] if it.sh else None
            key = None
            if n is not None:
                key = self.safe(tm.fn, "i", tm.ZERO, n, tm.ONE, d, scalar=True,
                                integer=True)
            i = AV(DLESS, key, it.deps, sh=())
            return self.lib.index(self, it, [i])
        if isinstance(it, IterV):
            if it.kind == "zip" or it.kind == "product":
                out = []
                for k, p in enumerate(it.parts):
                    if it.kind == "product":
                        keep = self.loopdepth
                        self.loopdepth = keep + Fraction(k, 16)
                        x = self.generic_elem(p)
                        self.loopdepth = keep
                        if k and isinstance(p, RefV):
                            x = self.rename_index(x, Fraction(k, 16))
                        out.append(x)
                    else:
                        out.append(self.generic_elem(p))
                return TupV(out)
            if it.kind == "enumerate":
                p = it.parts[0]
                n = self.lib.length(self, p)
                gv = None
                if n is not None:
                    gv = self.safe(tm.fn, "i", tm.ZERO, n, tm.ONE, d,
                                   scalar=True, integer=True)
                return TupV([AV(DLESS, gv, self.deps_of(p), sh=(),
                                lo=0), self.generic_elem(p)])
            if it.kind in ("iter", "list", "reversed"):
                return self.generic_elem(it.parts[0])
            return TopV(self.deps_of(it), self.roots_of(it))
        if isinstance(it, RefV):
            r = self.rec(it)
            if isinstance(r, ListRec):
                if r.items is None:
                    if r.elem is None:
                        return TopV(r.deps, r.roots)
                    return self.taint(r.elem, r.deps)
                e = None
                for v in r.items:
                    e = v if e is None else self.join(e, v, (None, E0))
                return e if e is not None else TopV()
            if isinstance(r, DictRec):
                return AV(None, None, r.deps)
        if isinstance(it, TupV):
            e = None
            for v in it.items:
                e = v if e is None else self.join(e, v, (None, E0))
            return e if e is not None else TopV()
        if isinstance(it, ChoiceV):
            return self.join(self.generic_elem(it.a), self.generic_elem(it.b),
                             (it.cond, it.deps))
        return TopV(self.deps_of(it), self.roots_of(it))

    def rename_index(self, v, off):
        """Give a second cartesian-product factor its own index symbol."""
        if not isinstance(v, AV) or v.gv is None:
            return v

        def f(at):
            if at.kind == "fn" and at.name == "i":
                a = at.args
                return tm.fn("i", a[0], a[1], a[2], a[3] + off, scalar=True,
                             integer=True)
            return tm.of_atom(at)
        return v.copy(gv=self.safe(tm.map_atoms, v.gv, f))

    def x_For(self, s):
        it = self.eval(s.iter)
        items = self.static_iter(it)
        fr = self.frames[-1]
        if items is not None and len(items) <= UNROLL * 2:
            self.unrolled(items, s)
            return
        self.generic_loop(s, it)

    def unrolled(self, items, s):
        fr = self.frames[-1]
        ctl = {"break": [], "cont": []}
        fr.loops.append(ctl)
        base = len(self.pc)
        for v in items:
            if self.st.dead:
                break
            self.assign(s.target, v)
            self.exec_block(s.body)
            cs, ctl["cont"] = ctl["cont"], []
            self.st = self.merge_exits(cs, self.st, base)
        fr.loops.pop()
        if not self.st.dead and s.orelse:
            self.exec_block(s.orelse)
        self.st = self.merge_exits(ctl["break"], self.st, base)

    def merge_exits(self, exits, st, base):
        """Fold (pc, state) exits over the fall-through state."""
        for pc, es in reversed(exits):
            gs = pc[base:]
            cg, cd = self.conj_gate(gs)
            if st.dead:
                st = es
            else:
                st = self.join_state(es, st, (cg, cd))
        return st

    def conj_gate(self, gs):
        deps = E0
        parts = []
        ok = True
        for g, pol, d in gs:
            deps = deps | d
            if g is None:
                ok = False
            else:
                parts.append(g if pol else self.lib.not_gv(g))
        if not ok:
            return None, deps
        if not parts:
            return tm.ONE, deps
        if len(parts) == 1:
            return parts[0], deps
        return self.safe(tm.fn, "and", *sorted(set(parts), key=tm.fmt),
                         scalar=True), deps

    def x_Break(self, s):
        fr = self.frames[-1]
        if fr.loops:
            fr.loops[-1]["break"].append((list(self.pc), self.st))
        self.st = State({}, True)

    def x_Continue(self, s):
        fr = self.frames[-1]
        if fr.loops:
            fr.loops[-1]["cont"].append((list(self.pc), self.st))
        self.st = State({}, True)

    def slots(self, st):
        for i, r in st.heap.items():
            if isinstance(r, EnvRec):
                for k, v in r.vars.items():
                    yield (i, "v", k), v
            elif isinstance(r, ObjRec):
                for k, v in r.attrs.items():
                    yield (i, "a", k), v
            elif isinstance(r, DictRec):
                for k, v in r.items.items():
                    yield (i, "d", k), v
                if r.rest is not None:
                    yield (i, "r", None), r.rest
            elif isinstance(r, ListRec):
                if r.items is not None:
                    for k, v in enumerate(r.items):
                        yield (i, "l", k), v
                elif r.elem is not None:
                    yield (i, "e", None), r.elem

    def put(self, st, key, v):
        i, k, n = key
        r = st.heap[i]
        if k == "v":
            r.vars[n] = v
        elif k == "a":
            r.attrs[n] = v
        elif k == "d":
            r.items[n] = v
        elif k == "r":
            r.rest = v
        elif k == "l":
            if r.items is not None and n < len(r.items):
                r.items[n] = v
        elif k == "e":
            r.elem = v

    def run_body(self, s, bind, test):
        """One abstract iteration; returns the state at the loop head again
        and the list of break states."""
        fr = self.frames[-1]
        ctl = {"break": [], "cont": []}
        fr.loops.append(ctl)
        base = len(self.pc)
        self.pc.append((None, True, self.deps_of(test) if test is not None
                        else E0))
        self.loopdepth += 1
        try:
            if bind is not None:
                try:
                    bind()
                except Bottom:
                    self.st.dead = True
            self.exec_block(s.body)
        finally:
            self.pc.pop()
            self.loopdepth -= 1
            fr.loops.pop()
        st = self.merge_exits(ctl["cont"], self.st, base)
        return st, ctl["break"]

    def generic_loop(self, s, it):
        isfor = it is not None
        fr = self.frames[-1]
        st0 = self.st

        def bind():
            if isfor:
                self.loopdepth -= 1
                e = self.generic_elem(it)
                self.loopdepth += 1
                self.assign(s.target, e)

        def head():
            """Evaluate the while-test; returns its value."""
            if isfor:
                return None
            return self.eval(s.test)

        itgv = self.gv_of(it) if isfor else None
        nret = len(fr.returns)
        key = "L%s:%s" % (getattr(s, "lineno", 0), fr.qual)
        hs = {}
        entry = dict(self.slots(st0))
        # pass 0: find the slots that change
        self.muted += 1
        self.st = st0.copy()
        t = None
        out = None
        try:
            t = head()
            tv = self.truth(t) if t is not None else None
            out, brk = self.run_body(s, bind, t)
        finally:
            self.muted -= 1
        del fr.returns[nret:]
        cur = st0.copy()
        changed = set()
        for rnd in range(4):
            # slots whose value differs after the body from the head value
            headvals = dict(self.slots(cur))
            new = set()
            outs = [out] if not out.dead else []
            outs += [b[1] for b in brk]
            for o in outs:
                ov = dict(self.slots(o))
                for k, v in headvals.items():
                    w = ov.get(k)
                    if w is None or w is v:
                        continue
                    if isinstance(v, AV) and isinstance(w, AV):
                        if v.gv is not None and w.gv is not None and \
                                v.gv == w.gv and v.dim == w.dim and \
                                v.roots == w.roots and v.deps >= w.deps:
                            continue
                    new.add(k)
            grew = False
            nst = cur.copy()
            for k in headvals:
                if k not in new:
                    continue
                v0 = headvals[k]
                vals = []
                for o in outs:
                    w = dict(self.slots(o)).get(k)
                    if w is not None:
                        vals.append(w)
                nv = self.widen(k, v0, vals, entry.get(k), hs, key, itgv,
                                rnd, changed)
                if nv is not v0:
                    grew = True
                    self.put(nst, k, nv)
            changed |= new
            if not grew:
                break
            cur = nst
            self.muted += 1
            self.st = cur.copy()
            try:
                t = head()
                out, brk = self.run_body(s, bind, t)
            finally:
                self.muted -= 1
            del fr.returns[nret:]
        # final pass, recording events
        self.st = cur.copy()
        t = head()
        exit_st = None
        if not isfor:
            exit_st = self.st.copy()
        tt = self.truth(t) if t is not None else None
        out, brk = self.run_body(s, bind, t)
        # result state: loop-carried slots become mu terms
        base = cur if exit_st is None else exit_st
        res = self.loop_result(st0, base, out, brk, changed, hs, key, itgv, t,
                               isfor)
        self.st = res
        if s.orelse and not self.st.dead:
            self.exec_block(s.orelse)

    def widen(self, k, v0, vals, v_entry, hs, key, itgv, rnd, changed):
        """Head value for a loop-carried slot."""
        j = v0
        for w in vals:
            j = self.join(j, w, (None, E0))
        if isinstance(j, AV):
            h = hs.get(k)
            if h is None:
                nm = "%s#%s%s" % (key, k[1], k[2])
                h = tm.sym("h:" + nm, real=True, scalar=(j.sh == ()))
                hs[k] = h
            if tm.is_real(h) and not all(
                    isinstance(w, AV) and (w.gv is None or tm.is_real(w.gv))
                    for w in [v0] + list(vals)):
                h = tm.sym(h.single_atom().name + "~", real=False,
                           scalar=(j.sh == ()))
                hs[k] = h
            if isinstance(v_entry, AV) and v_entry.gv is not None and all(
                    isinstance(w, AV) and w.gv is not None and
                    w.gv == v_entry.gv for w in vals):
                gv = v_entry.gv
            else:
                gv = h
            deps = j.deps
            nv = j.copy(gv=gv, cst=NOC if gv is h else j.cst, lo=None,
                        hi=None, dt=j.dt)
            if isinstance(v0, AV) and v0.gv == nv.gv and v0.dim == nv.dim \
                    and v0.deps == nv.deps and v0.roots == nv.roots and \
                    v0.sh == nv.sh and v0.cst is nv.cst and \
                    v0.mnone == nv.mnone and v0.isp == nv.isp and \
                    v0.dt == nv.dt:
                return v0
            return nv
        if isinstance(v0, TopV) and isinstance(j, TopV):
            if v0.deps == j.deps and v0.roots == j.roots:
                return v0
            return TopV(j.deps, j.roots)
        if rnd >= 1 and not isinstance(j, (RefV, FnV, LibV, ClsV)):
            d, r = self.deps_of(j), self.roots_of(j)
            if isinstance(v0, TopV) and v0.deps == d and v0.roots == r:
                return v0
            return TopV(d, r)
        return j

    def loop_result(self, st0, head, out, brk, changed, hs, key, itgv, t,
                    isfor):
        res = head.copy()
        bdeps, bparts = E0, []
        for b in brk:
            for c in b[0]:
                bdeps = bdeps | c[2]
            for c in b[0][len(self.pc) + 1:]:
                if c[0] is None:
                    bparts = None
                elif bparts is not None:
                    bparts.append(c[0] if c[1] else self.lib.not_gv(c[0]))
        self.brkparts = bparts
        self.brktag = "break%d%s" % (len(brk), "" if out.dead else "L")
        outs = ([out] if not out.dead else []) + [b[1] for b in brk]
        if not outs and isfor:
            # body never completes: zero iterations only
            return st0.copy()
        headv = dict(self.slots(head))
        first = dict(self.slots(st0))
        outv = [dict(self.slots(o)) for o in outs]
        # new records/slots created by the body
        for o in outs:
            for i, r in o.heap.items():
                if i not in res.heap:
                    res.heap[i] = r.copy()
        tg = self.gv_of(t) if t is not None else None
        seen = {}
        allk = set()
        for ov in outv:
            allk |= set(ov)
        hsyms = {h.single_atom().name: k for k, h in hs.items()}

        def outexpr(k):
            gs = []
            for ov in outv:
                w = ov.get(k)
                if w is None:
                    continue
                gs.append(self.gv_of(w))
            return gs

        def tested(acc):
            """With the variables the loop test reads."""
            if tg is None or None in acc:
                return acc
            more = set(acc)
            for n in tm.symbols(tg):
                kk = hsyms.get(n)
                if kk is not None and kk not in more:
                    more.add(kk)
                    closure(kk, more)
            for kk in more - acc:
                f = first.get(kk)
                if kk is None or f is None or self.gv_of(f) is None:
                    return acc
            return more

        def closure(k, acc):
            for g in outexpr(k):
                if g is None:
                    acc.add(None)
                    continue
                for n in tm.symbols(g):
                    kk = hsyms.get(n)
                    if kk is not None and kk not in acc:
                        acc.add(kk)
                        closure(kk, acc)
            return acc

        for k in sorted(allk, key=repr):
            ws = [ov[k] for ov in outv if k in ov]
            h = headv.get(k)
            if h is not None and k not in changed:
                continue
            if h is None:
                # defined in the body only
                v = ws[0]
                for w in ws[1:]:
                    v = self.join(v, w, (None, E0))
                if isinstance(v, AV) and v.gv is not None:
                    acc = closure(k, set())
                    if acc:
                        v = v.copy(gv=self.mu(key, k, itgv, tg,
                                              tested(acc | {k}),
                                              first, outexpr), cst=NOC)
                    if self.kk_ok(res, k):
                        self.put(res, k, v)
                elif self.kk_ok(res, k):
                    self.put(res, k, v)
                continue
            if isinstance(h, AV) and all(isinstance(w, AV) for w in ws):
                hg = hs.get(k)
                g = None
                gs = outexpr(k)
                if any(x is None for x in gs):
                    g = None
                else:
                    acc = closure(k, set())
                    mapped = self.map_store(k, h, gs, hg, first.get(k), acc,
                                            isfor)
                    if mapped is not None:
                        g = mapped
                    else:
                        acc = acc | {k}
                        g = self.mu(key, k, itgv, tg, tested(acc),
                                    first, outexpr)
                j = h
                for w in ws:
                    j = self.join_av(j, w, None, E0)
                v0 = first.get(k)
                if isinstance(v0, AV):
                    dim = djoin(v0.dim, j.dim) if not isfor else j.dim
                extra = (self.deps_of(t) if t is not None else E0) | bdeps
                if g is None and self.named_loops and j.sh:
                    # what the loop left, under a name
                    g = tm.sym("left:%s#%s%s" % (key, k[1], k[2]),
                               real=j.dt in ("f", "i", "b"), scalar=False)
                    if g.single_atom().shp is None:
                        g.single_atom().shp = j.sh
                    self.left[g.single_atom().name] = j.copy(gv=g, cst=NOC)
                nv = j.copy(gv=g, deps=j.deps | extra, cst=NOC,
                            dt=j.dt)
                if isinstance(v0, AV):
                    # the identity of an array survives in-place updates
                    if all(isinstance(w, AV) and w.ref == v0.ref
                           for w in ws):
                        nv.ref = v0.ref
                        nv.roots = v0.roots
                        if nv.sh is None:
                            nv.sh = v0.sh
                self.put(res, k, nv)
        # containers
        for o in outs:
            for i, r in o.heap.items():
                b = res.heap.get(i)
                if isinstance(r, ListRec) and isinstance(b, ListRec) and \
                        i in st0.heap:
                    r0 = st0.heap[i]
                    if r.items is not None and r0.items is not None and \
                            len(r.items) != len(r0.items):
                        e = None
                        for v in r.items:
                            e = v if e is None else self.join(e, v,
                                                              (None, E0))
                        deps = r.deps | (self.deps_of(t) if t is not None
                                         else E0)
                        n0 = len(r0.items)
                        gv = None
                        gl = [self.gv_of(v) for v in r.items[n0:]]
                        if all(x is not None for x in gl) and itgv is not None:
                            gv = self.safe(tm.fn, "appended",
                                           self.list_gv(r0) or tm.ZERO, itgv,
                                           self.loopdepth, *gl, scalar=False,
                                           real=all(tm.is_real(x)
                                                    for x in gl))
                        res.heap[i] = ListRec(None, e, r.roots, gv, deps)
                elif isinstance(r, DictRec) and isinstance(b, DictRec):
                    for kk, v in r.items.items():
                        if kk not in b.items:
                            b.items[kk] = v
                            b.open = True
                    if r.rest is not None and b.rest is None:
                        b.rest = r.rest
                        b.open = True
        return res

    def kk_ok(self, st, k):
        return k[0] in st.heap

    def map_ite(self, g, hg, start):
        """An element that some iterations set and the others leave."""
        if g == hg:
            return start
        at = g.single_atom()
        if at is None or at.kind != "fn":
            return None
        if at.name == "mapst" and at.args[0] == hg:
            return at.args[1]
        if at.name == "ite":
            a = self.map_ite(at.args[1], hg, start)
            b = self.map_ite(at.args[2], hg, start)
            if a is not None and b is not None:
                return self.safe(self.lib.mk_ite, at.args[0], a, b)
        return None

    def map_store(self, k, h, gs, hg, v0, acc, isfor):
        """A[i] = e(i) for every i: the array becomes e pointwise."""
        if not isfor or hg is None or len(gs) != 1:
            return None
        g = gs[0]
        at = g.single_atom()
        hat = hg.single_atom()
        e = None
        if at is not None and at.name == "mapst" and at.args[0] == hg:
            e = at.args[1]
        elif at is not None and at.name == "ite" and isinstance(v0, AV) and \
                v0.gv is not None and tm.is_scalar(v0.gv):
            e = self.map_ite(g, hg, v0.gv)
        elif isinstance(v0, AV) and g is not None and \
                hat.name not in tm.symbols(g) and not (acc - {k}):
            # plain re-definition independent of the loop state
            return g
        if e is None:
            return None
        if tm.symbols(e) & {x.single_atom().name for x in [hg]}:
            return None
        if acc - {k}:
            return None
        return e

    def mu(self, key, k, itgv, tg, acc, first, outexpr):
        parts = []
        real = True
        if None in acc:
            return None
        for kk in sorted(acc, key=repr):
            f = first.get(kk)
            g0 = self.gv_of(f) if f is not None else tm.sym("undef")
            gs = outexpr(kk)
            if g0 is None or any(x is None for x in gs):
                return None
            parts.append("%s%s" % (kk[1], kk[2]))
            parts.append(g0)
            parts.extend(gs)
            if kk == k:
                real = all(tm.is_real(x) for x in [g0] + list(gs))
        if itgv is None and tg is None:
            return None
        if self.brkparts is None:
            return None
        if self.brkparts:
            parts.append(self.brktag)
            parts.extend(self.brkparts)
        return self.safe(tm.fn, "mu", key, "%s%s" % (k[1], k[2]),
                         itgv if itgv is not None else tm.ZERO,
                         tg if tg is not None else tm.ZERO, *parts,
                         real=real)

    def x_While(self, s):
        # small static unrolling when the test is constant-decidable
        for _ in range(UNROLL):
            save = self.st.copy()
            ne = len(self.events)
            t = self.eval(s.test)
            tv = self.truth(t)
            if tv is False:
                if s.orelse:
                    self.exec_block(s.orelse)
                return
            if tv is None or _ > 0 or True:
                self.st = save
                break
        self.generic_loop(s, None)

    # ------------------------------------------------------------ try / with
    def x_Try(self, s):
        pre = self.st.copy()
        self.trystack += 1
        self.exec_block(s.body)
        self.trystack -= 1
        body = self.st
        g = tm.sym("exc@%s:%s" % (self.frames[-1].qual, s.lineno))
        res = body
        if not body.dead and s.orelse:
            self.exec_block(s.orelse)
            res = self.st
        for h in s.handlers:
            hst = pre.copy()
            if not body.dead:
                hst = self.join_state(pre.copy(), body.copy(), (g, E0))
            self.st = hst
            if h.name:
                self.env().vars[h.name] = TopV()
            self.pc.append((g, True, E0))
            self.exec_block(h.body)
            self.pc.pop()
            res = self.join_state(self.st, res, (g, E0))
        self.st = res
        if s.finalbody:
            if self.st.dead:
                # run for effects only
                keep = self.st
                self.st = pre.copy()
                self.exec_block(s.finalbody)
                self.st = keep
            else:
                self.exec_block(s.finalbody)

    x_TryStar = x_Try

    def x_With(self, s):
        for i in s.items:
            v = self.eval(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        self.exec_block(s.body)

    def x_Match(self, s):
        v = self.eval(s.subject)
        g = self.gv_of(v)
        pre = self.st
        res = State({}, True)
        anyexh = False
        for n, c in enumerate(s.cases):
            self.st = pre.copy()
            pat = c.pattern
            if isinstance(pat, ast.MatchAs) and pat.pattern is None:
                if pat.name:
                    self.env().vars[pat.name] = v
                anyexh = c.guard is None
                cg = None
                dec = None
            elif isinstance(pat, ast.MatchValue):
                cv = self.eval(pat.value)
                r = self.compare(ast.Eq(), v, cv)
                dec = self.truth(r)
                cg = self.bool_gv(r)
            else:
                dec, cg = None, None
            if dec is False:
                continue
            self.pc.append((cg, True, self.deps_of(v)))
            self.exec_block(c.body)
            self.pc.pop()
            res = self.join_state(self.st, res, (cg, self.deps_of(v)))
            if dec is True or anyexh:
                self.st = res
                return
        self.st = self.join_state(res, pre, (None, self.deps_of(v)))

    # ------------------------------------------------------------ assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            e = self.env()
            if t.id in e.globs:
                self.ev("globalwrite", "writes module variable %r" % t.id,
                        {"name": t.id})
                return
            if t.id in e.nonloc:
                p = self.st.heap.get(e.parent)
                while p is not None and t.id not in p.vars:
                    p = self.st.heap.get(p.parent)
                if p is not None:
                    p.vars[t.id] = v
                return
            e.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value)
            self.set_attr(b, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.store_sub(t, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def set_attr(self, b, name, v, node):
        if isinstance(b, RefV):
            r = self.rec(b)
            if isinstance(r, ObjRec):
                old = r.attrs.get(name)
                self.ev("attrwrite", "writes attribute %s.%s" % (
                    r.cls.name if r.cls else "?", name),
                    {"cls": r.cls.name if r.cls else None, "attr": name,
                     "roots": r.roots, "obj": b.id})
                if r.roots:
                    self.ev("mutate", "assigns attribute %r of a caller's "
                            "object" % name, {"roots": r.roots,
                                              "how": "attribute " + name})
                r.attrs[name] = v
        elif isinstance(b, AV):
            if name in ("shape", "dtype", "real", "imag", "flat", "T"):
                self.mutate(b, self.opaque("setattr_" + name, [b, v]),
                            "assignment to .%s" % name)
        elif isinstance(b, ClsV):
            self.ev("globalwrite", "writes class attribute %s.%s" % (
                b.info.name, name), {"name": name})
        elif isinstance(b, ModV):
            self.ev("globalwrite", "writes module attribute %r" % name,
                    {"name": name})
        elif isinstance(b, LibV):
            self.ev("globalwrite", "writes attribute %r of library object %s"
                    % (name, b.name), {"name": name})
        elif isinstance(b, TopV):
            if b.roots:
                self.ev("mutate", "assigns attribute %r of a caller's object"
                        % name, {"roots": b.roots, "how": "attribute"})
        elif isinstance(b, FnV):
            self.ev("globalwrite", "writes function attribute %s.%s" % (
                b.qual, name), {"name": name})
        elif isinstance(b, ChoiceV):
            self.set_attr(b.a, name, v, node)
            self.set_attr(b.b, name, v, node)

    def unpack(self, elts, v):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.static_iter(v)
        if items is not None:
            if not star and len(items) == n:
                for e, x in zip(elts, items):
                    self.assign(e, x)
                return
            if star and len(items) >= n - 1:
                i = star[0]
                k = len(items) - (n - 1)
                for e, x in zip(elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(elts[i].value, self.newlist(items[i:i + k]))
                for e, x in zip(elts[i + 1:], items[i + k:]):
                    self.assign(e, x)
                return
            if not star:
                self.ev("arity", "cannot unpack %d values into %d targets" % (
                    len(items), n), {"have": len(items), "want": n})
                for e in elts:
                    self.assign(e, TopV(self.deps_of(v)))
                return
        if isinstance(v, ChoiceV):
            # unpack both alternatives
            a = self.unpack_values(n, v.a)
            b = self.unpack_values(n, v.b)
            if a is not None and b is not None and not star:
                for e, x, y in zip(elts, a, b):
                    self.assign(e, self.join(x, y, (v.cond, v.deps)))
                return
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, TopV(self.deps_of(v), self.roots_of(v)))
            elif isinstance(v, AV):
                self.assign(e, self.lib.index(self, v, [const(i)]))
            else:
                g = self.gv_of(v)
                self.assign(e, TopV(self.deps_of(v), self.roots_of(v),
                                    self.safe(tm.fn, "item", g, i)
                                    if g is not None else None))

    def unpack_values(self, n, v):
        items = self.static_iter(v)
        if items is not None and len(items) == n:
            return items
        if isinstance(v, AV):
            return [self.lib.index(self, v, [const(i)]) for i in range(n)]
        return None

    def key_list(self, sl):
        """Evaluate a subscript into a list of key components."""
        if isinstance(sl, ast.Tuple):
            out = []
            for e in sl.elts:
                if isinstance(e, ast.Starred):
                    v = self.eval(e.value)
                    its = self.static_iter(v)
                    if its is None:
                        out.append(TopV(self.deps_of(v)))
                    else:
                        out.extend(its)
                else:
                    out.append(self.eval(e))
            return out
        k = self.eval(sl)
        if isinstance(k, TupV):
            return list(k.items)
        return [k]

    def flatten_sub(self, t):
        """x[i][j] -> (x, [i, j]) when i is a plain integer index."""
        keys = self.key_list(t.slice)
        b = t.value
        if isinstance(b, ast.Subscript):
            root, inner = self.flatten_sub(b)
            rv = root
            if isinstance(rv, AV) and all(
                    isinstance(k, AV) and k.sh == () and not k.isbool
                    for k in inner):
                return rv, inner + keys
            return self.lib.index(self, rv, inner), keys
        return self.eval(b), keys

    def store_sub(self, t, v):
        base, keys = self.flatten_sub(t)
        self.store(base, keys, v)

    def store(self, base, keys, v):
        if isinstance(base, RefV):
            r = self.rec(base)
            if isinstance(r, DictRec):
                self.container_mut(base, "item assignment")
                k = keys[0] if len(keys) == 1 else None
                if len(keys) > 1 and all(isinstance(x, AV) and
                                         x.cst is not NOC for x in keys):
                    r.items[tuple(x.cst for x in keys)] = v
                    return
                if isinstance(k, AV) and k.cst is not NOC:
                    r.items[k.cst] = v
                else:
                    r.open = True
                    r.rest = v if r.rest is None else self.join(
                        r.rest, v, (None, E0))
                    r.deps = r.deps | self.deps_of(k)
                return
            if isinstance(r, ListRec):
                self.container_mut(base, "item assignment")
                k = keys[0]
                if r.items is not None and isinstance(k, AV) and \
                        isinstance(k.cst, int) and \
                        -len(r.items) <= k.cst < len(r.items):
                    r.items[k.cst] = v
                elif r.items is not None and isinstance(k, AV):
                    r.items = [self.join(x, v, (None, self.deps_of(k)))
                               for x in r.items]
                else:
                    r.items = None
                    r.elem = v if r.elem is None else self.join(
                        r.elem, v, (None, E0))
                    r.gv = None
                return
            if isinstance(r, ObjRec):
                m = self.find_method(r.cls, "__setitem__")
                return
        elif isinstance(base, AV):
            nv = self.lib.stored(self, base, keys, v)
            self.mutate(base, nv, "item assignment")
        elif isinstance(base, TopV):
            if base.roots:
                self.ev("mutate", "item assignment on a caller's object",
                        {"roots": base.roots, "how": "item assignment"})
        elif isinstance(base, ChoiceV):
            self.store(base.a, keys, v)
            self.store(base.b, keys, v)

    def container_mut(self, ref, how):
        r = self.rec(ref)
        if getattr(r, "roots", None):
            self.ev("mutate", "%s on a caller's container" % how,
                    {"roots": r.roots, "how": how})

    def mutate(self, old, new, how):
        """In-place update of the array `old`; its content becomes `new`."""
        if old.roots:
            self.ev("mutate", "%s modifies an array in place" % how,
                    {"roots": old.roots, "how": how})
        new = new.same(ref=old.ref, roots=old.roots)
        if new.sh is None:
            new.sh = old.sh
        roots = old.roots

        def upd(v):
            if isinstance(v, AV):
                if v.ref == old.ref:
                    return new
                if roots and (v.roots & roots):
                    if v.gv is None:
                        g = None
                    elif old.gv is not None and new.gv is not None:
                        g = self.safe(tm.fn, "via", v.gv, old.gv, new.gv,
                                      real=tm.is_real(v.gv) and
                                      tm.is_real(new.gv))
                    else:
                        g = None
                    return v.same(gv=g, deps=v.deps | new.deps,
                                  dim=djoin(v.dim, new.dim)
                                  if v.dim is not None else None,
                                  elems=None)
                return v
            if isinstance(v, TupV):
                its = [upd(x) for x in v.items]
                if any(x is not y for x, y in zip(its, v.items)):
                    return TupV(its)
                return v
            return v
        for key, v in list(self.slots(self.st)):
            w = upd(v)
            if w is not v:
                self.put(self.st, key, w)
        return new

    def augassign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup_name(t.id)
            rhs = self.eval(s.value)
            self.aug_value(cur, rhs, s, lambda v: self.assign(t, v))
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value)
            cur = self.get_attr(b, t.attr, t)
            rhs = self.eval(s.value)
            self.aug_value(cur, rhs, s,
                           lambda v: self.set_attr(b, t.attr, v, t))
        elif isinstance(t, ast.Subscript):
            base, keys = self.flatten_sub(t)
            cur = self.index(base, keys)
            rhs = self.eval(s.value)
            if isinstance(cur, RefV):
                self.aug_value(cur, rhs, s,
                               lambda v: self.store(base, keys, v))
                return
            nv = self.binop(s.op, cur, rhs)
            self.store(base, keys, nv)

    def aug_value(self, cur, rhs, s, put):
        if isinstance(cur, RefV):
            r = self.rec(cur)
            if isinstance(r, ListRec):
                self.container_mut(cur, "augmented assignment")
                its = self.static_iter(rhs)
                if r.items is not None and its is not None:
                    r.items = r.items + its
                else:
                    r.items = None
                    r.gv = None
                    r.deps = r.deps | self.deps_of(rhs)
                return
            if isinstance(r, DictRec):
                self.container_mut(cur, "augmented assignment")
                r.open = True
                return
        nv = self.binop(s.op, cur, rhs)
        if isinstance(cur, AV) and cur.sh != () and cur.cst is NOC and \
                not (cur.sh is None and not cur.roots):
            if isinstance(nv, AV):
                if cur.dt:
                    self.lib.lossy(self, cur.dt, nv)
                    nv = nv.same(dt=cur.dt)
                self.mutate(cur, nv, "augmented assignment")
                return
        elif isinstance(cur, TopV) and cur.roots:
            self.ev("mutate", "augmented assignment modifies a caller's "
                    "object", {"roots": cur.roots, "how": "augassign"})
        put(nv)

    # ----------------------------------------------------------- expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.eval(c)
            return TopV()
        return m(e)

    def e_Constant(self, e):
        v = const(e.value)
        if isinstance(v, AV) and type(v.cst) in (int, float) and \
                v.dim == DLESS and not 1e-3 < abs(v.cst) < 1e3:
            v.dim = None      # a hard-coded physical quantity: unit unknown
            v.sp = "lit"
        return v

    def e_Name(self, e):
        return self.lookup_name(e.id)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def seq(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                its = self.static_iter(v)
                if its is None:
                    return None, v
                out.extend(its)
            else:
                out.append(self.eval(x))
        return out, None

    def e_Tuple(self, e):
        out, bad = self.seq(e.elts)
        if out is None:
            return TopV(self.deps_of(bad), self.roots_of(bad))
        return TupV(out)

    def e_List(self, e):
        out, bad = self.seq(e.elts)
        if out is None:
            return self.newlist(None, self.generic_elem(bad),
                                deps=self.deps_of(bad))
        return self.newlist(out)

    def e_Set(self, e):
        out, bad = self.seq(e.elts)
        if out is None:
            return TopV(self.deps_of(bad))
        return self.newlist(out)

    def e_Dict(self, e):
        d = DictRec()
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v)
                self.dict_update(d, x)
                continue
            kv = self.eval(k)
            vv = self.eval(v)
            if isinstance(kv, AV) and kv.cst is not NOC:
                d.items[kv.cst] = vv
            else:
                d.open = True
                d.rest = vv if d.rest is None else self.join(d.rest, vv,
                                                             (None, E0))
        return self.alloc(d)

    def dict_update(self, d, x):
        if isinstance(x, RefV) and isinstance(self.rec(x), DictRec):
            r = self.rec(x)
            for k, v in r.items.items():
                d.items[k] = v
            if r.open:
                d.open = True
                if r.rest is not None:
                    d.rest = r.rest
            d.deps = d.deps | r.deps
        else:
            d.open = True
            d.deps = d.deps | self.deps_of(x)

    def e_Slice(self, e):
        f = lambda x: self.eval(x) if x is not None else const(None)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_JoinedStr(self, e):
        deps = E0
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.eval(v.value)
                deps = deps | self.deps_of(x)
                if isinstance(x, AV) and isinstance(x.cst, (str, int)) and \
                        v.format_spec is None and not isinstance(x.cst, bool):
                    parts.append(str(x.cst))
                else:
                    parts.append(None)
            elif isinstance(v, ast.Constant):
                parts.append(str(v.value))
        if all(p is not None for p in parts):
            return const("".join(parts)).copy(deps=deps)
        return AV(None, None, deps, sh=())

    def e_FormattedValue(self, e):
        return self.eval(e.value)

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Lambda(self, e):
        fr = self.frames[-1]
        fv = FnV(e, fr.mod, fr.fid, fr.qual + ".<lambda>")
        fv.defaults = [self.eval(d) for d in e.args.defaults]
        fv.kwdefaults = [self.eval(d) if d is not None else None
                         for d in e.args.kw_defaults]
        return fv

    def e_IfExp(self, e):
        c = self.eval(e.test)
        t = self.truth(c)
        if t is True:
            return self.eval(e.body)
        if t is False:
            return self.eval(e.orelse)

        def fa():
            self.refine(e.test, True)
            return self.eval(e.body)

        def fb():
            self.refine(e.test, False)
            return self.eval(e.orelse)
        v, dead = self.branch(self.cond_of(c), fa, fb)
        if dead:
            raise Bottom()
        return v

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        vals = []
        for x in e.values:
            v = self.eval(x)
            t = self.truth(v)
            if t is not None and t != isand:
                # short-circuit result
                if not vals:
                    return v
                vals.append(v)
                break
            vals.append(v)
            if t is None and isinstance(x, ast.Compare):
                pass
        # drop neutral constants
        rest = [v for v in vals if self.truth(v) != isand]
        if not rest:
            return vals[-1]
        if self.truth(rest[-1]) is (not isand) and all(
                self.is_boolish(v) for v in rest):
            c = const(not isand)
            return c.copy(deps=frozenset().union(
                *[self.deps_of(v) for v in rest]))
        if len(rest) == 1 and vals[-1] is rest[0]:
            return rest[0]
        if all(self.is_boolish(v) for v in rest):
            g = [self.bool_gv(v) for v in rest]
            gv = None
            if all(x is not None for x in g):
                gv = self.lib.boolop("and" if isand else "or", g)
            deps = frozenset().union(*[self.deps_of(v) for v in rest])
            return AV(DLESS, gv, deps, sh=(), isbool=True)
        # value semantics: a or b
        v = rest[-1]
        for x in reversed(rest[:-1]):
            c = self.cond_of(x)
            v = self.join(v, x, c) if isand else self.join(x, v, c)
        return v

    def is_boolish(self, v):
        return isinstance(v, AV) and (v.isbool or isinstance(v.cst, bool))

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        return self.unop(e.op, v)

    def unop(self, op, v):
        if isinstance(v, ChoiceV):
            return self.join(self.unop(op, v.a), self.unop(op, v.b),
                             (v.cond, v.deps))
        if isinstance(op, ast.Not):
            t = self.truth(v)
            if t is not None:
                return const(not t).copy(deps=self.deps_of(v))
            g = self.bool_gv(v)
            return AV(DLESS, self.lib.not_gv(g) if g is not None else None,
                      self.deps_of(v), sh=(), isbool=True)
        return self.lib.unop(self, op, v)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        old = self.node
        self.node = e
        try:
            return self.binop(e.op, a, b)
        finally:
            self.node = old

    def binop(self, op, a, b):
        if isinstance(a, ChoiceV):
            return self.join(self.binop(op, a.a, b), self.binop(op, a.b, b),
                             (a.cond, a.deps))
        if isinstance(b, ChoiceV):
            return self.join(self.binop(op, a, b.a), self.binop(op, a, b.b),
                             (b.cond, b.deps))
        return self.lib.binop(self, op, a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        old = self.node
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c)
            self.node = e
            r = self.compare(op, left, right)
            self.node = old
            if res is None:
                res = r
            else:
                t1, t2 = self.truth(res), self.truth(r)
                if t1 is False:
                    pass
                elif t1 is True:
                    res = r
                elif t2 is True:
                    pass
                elif t2 is False:
                    res = const(False)
                else:
                    g = [self.bool_gv(res), self.bool_gv(r)]
                    gv = self.lib.boolop("and", g) if None not in g else None
                    res = AV(DLESS, gv, self.deps_of(res) | self.deps_of(r),
                             sh=(), isbool=True)
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(a, ChoiceV):
            return self.join(self.compare(op, a.a, b),
                             self.compare(op, a.b, b), (a.cond, a.deps))
        if isinstance(b, ChoiceV):
            return self.join(self.compare(op, a, b.a),
                             self.compare(op, a, b.b), (b.cond, b.deps))
        return self.lib.compare(self, op, a, b)

    def e_Subscript(self, e):
        old = self.node
        if isinstance(e.value, ast.Subscript):
            base, keys = self.flatten_sub(e)
        else:
            base = self.eval(e.value)
            keys = self.key_list(e.slice)
        self.node = e
        try:
            return self.index(base, keys)
        finally:
            self.node = old

    def index(self, base, keys):
        if isinstance(base, ChoiceV):
            return self.join(self.index(base.a, keys),
                             self.index(base.b, keys), (base.cond, base.deps))
        for i, k in enumerate(keys):
            if isinstance(k, ChoiceV):
                ka = keys[:i] + [k.a] + keys[i + 1:]
                kb = keys[:i] + [k.b] + keys[i + 1:]
                return self.join(self.index(base, ka), self.index(base, kb),
                                 (k.cond, k.deps))
        return self.lib.index(self, base, keys)

    def e_Attribute(self, e):
        b = self.eval(e.value)
        old = self.node
        self.node = e
        try:
            return self.get_attr(b, e.attr, e)
        finally:
            self.node = old

    def find_method(self, cls, name, after=None):
        mro = self.prog.mro(cls)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                node = c.methods[name]
                return self.mkfn(node, c.mod, None, c.name + "." + name, c)
            if name in c.attrs:
                fr = self.module_frame(c.mod)
                self.frames.append(fr)
                try:
                    v = self.eval(c.attrs[name])
                finally:
                    self.frames.pop()
                if isinstance(v, RefV):
                    self.rec(v).roots = frozenset(
                        ["global:%s.%s" % (c.name, name)])
                elif isinstance(v, AV) and v.cst is NOC:
                    v = v.same(roots=frozenset(
                        ["global:%s.%s" % (c.name, name)]))
                return v
        return None

    def get_attr(self, b, name, node=None):
        if isinstance(b, RefV):
            r = self.rec(b)
            if isinstance(r, ObjRec):
                if name in r.attrs:
                    return r.attrs[name]
                if r.cls is not None:
                    m = self.find_method(r.cls, name)
                    if isinstance(m, FnV):
                        if m.kind == "static":
                            return m
                        if m.kind == "class":
                            return m.bind(ClsV(r.cls))
                        if m.kind == "property":
                            return self.call_fn(m.bind(b), [], {})
                        return m.bind(b)
                    if m is not None:
                        return m
                    if name == "__class__":
                        return ClsV(r.cls)
                    if name == "__dict__":
                        return TopV(E0, r.roots)
                    self.ev("noattr", "object of class %s has no attribute %r"
                            % (r.cls.name, name), {"attr": name})
                return TopV(roots=r.roots)
            return BoundV(b, name)
        if isinstance(b, ModV):
            v = self.module_value(b.mod.name, name)
            return v if v is not None else TopV()
        if isinstance(b, LibV):
            return self.lib.value(self, b.name + "." + name)
        if isinstance(b, ClsV):
            m = self.find_method(b.info, name)
            if isinstance(m, FnV):
                if m.kind == "class":
                    return m.bind(b)
                return m
            if m is not None:
                return m
            if name == "__name__":
                return const(b.info.name)
            return TopV()
        if isinstance(b, SuperV):
            r = self.rec(b.selfv)
            m = self.find_method(r.cls, name, after=b.cls)
            if isinstance(m, FnV):
                return m.bind(b.selfv) if m.kind == "def" else m
            return LibV("object." + name)
        if isinstance(b, ChoiceV):
            return self.join(self.get_attr(b.a, name, node),
                             self.get_attr(b.b, name, node),
                             (b.cond, b.deps))
        if isinstance(b, AV):
            v = self.lib.av_attr(self, b, name)
            if v is not None:
                return v
            return BoundV(b, name)
        return BoundV(b, name)

    # ------------------------------------------------------- comprehensions
    def comp(self, e, build):
        """Run the generators; `build` evaluates the element."""
        fr = self.frames[-1]
        env = self.env()
        results = []
        info = {"static": True, "deps": E0, "gv": []}

        def go(gens):
            if not gens:
                results.append(build())
                return
            g = gens[0]
            it = self.eval(g.iter)
            items = self.static_iter(it)
            if items is not None and len(items) > 2 * UNROLL:
                items = None
            if items is None:
                info["static"] = False
                info["deps"] = info["deps"] | self.deps_of(it)
                info["gv"].append(self.gv_of(it))
                info["it"] = it
                items = [self.generic_elem(it)]
                self.loopdepth += 1
                gen = True
            else:
                gen = False
            for v in items:
                self.assign(g.target, v)
                ok = True
                for c in g.ifs:
                    cv = self.eval(c)
                    t = self.truth(cv)
                    if t is False:
                        ok = False
                        break
                    if t is None:
                        info["static"] = False
                        info["filter"] = True
                        info["deps"] = info["deps"] | self.deps_of(cv)
                        info["gv"].append(self.gv_of(cv))
                if ok:
                    go(gens[1:])
            if gen:
                self.loopdepth -= 1
        # comprehension variables are local
        saved = dict(env.vars)
        go(e.generators)
        ev = self.env()
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        for n in names:
            if n in saved:
                ev.vars[n] = saved[n]
            else:
                ev.vars.pop(n, None)
        return results, info

    def e_ListComp(self, e):
        res, info = self.comp(e, lambda: self.eval(e.elt))
        if info["static"]:
            return self.newlist(res)
        el = None
        for v in res:
            el = v if el is None else self.join(el, v, (None, E0))
        gv = None
        eg = self.gv_of(el) if el is not None else None
        if eg is not None and None not in info["gv"]:
            gv = self.safe(tm.fn, "comp", eg, *info["gv"],
                           real=tm.is_real(eg))
        r = ListRec(None, el, E0, gv, info["deps"])
        ref = self.alloc(r)
        return ref

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e):
        res, info = self.comp(e, lambda: TupV([self.eval(e.key),
                                               self.eval(e.value)]))
        d = DictRec()
        for kv in res:
            k, v = kv.items
            if info["static"] and isinstance(k, AV) and k.cst is not NOC:
                d.items[k.cst] = v
            else:
                d.open = True
                d.rest = v if d.rest is None else self.join(d.rest, v,
                                                            (None, E0))
                d.deps = d.deps | info["deps"]
        return self.alloc(d)

    def e_Yield(self, e):
        if e.value is not None:
            v = self.eval(e.value)
            fr = self.frames[-1]
            if fr.yields is None:
                fr.yields = []
            fr.yields.append(v)
        return TopV()

    def e_YieldFrom(self, e):
        self.eval(e.value)
        return TopV()

    def e_Await(self, e):
        return self.eval(e.value)

    # ----------------------------------------------------------------- calls
    def e_Call(self, e):
        f = self.eval(e.func)
        args = []
        topstar = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                its = self.static_iter(v)
                if its is None:
                    topstar = v
                    args.append(("*", v))
                else:
                    args.extend(its)
            else:
                args.append(self.eval(a))
        kwargs = {}
        topkw = None
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value)
                if isinstance(v, RefV) and isinstance(self.rec(v), DictRec):
                    r = self.rec(v)
                    for kk, vv in r.items.items():
                        kwargs[kk] = vv
                    if r.open:
                        topkw = v
                elif isinstance(v, ChoiceV):
                    return self.call_choice_kw(f, args, kwargs, v, e)
                else:
                    topkw = v
            else:
                kwargs[k.arg] = self.eval(k.value)
        old = self.node
        self.node = e
        try:
            return self.call(f, args, kwargs, topkw)
        finally:
            self.node = old

    def call_choice_kw(self, f, args, kwargs, ch, e):
        def one(v):
            kw = dict(kwargs)
            if isinstance(v, RefV) and isinstance(self.rec(v), DictRec):
                kw.update(self.rec(v).items)
            return self.call(f, args, kw, None)
        a = one(ch.a)
        b = one(ch.b)
        return self.join(a, b, (ch.cond, ch.deps))

    def call(self, f, args, kwargs, topkw=None):
        if isinstance(f, FnV):
            return self.call_fn(f, args, kwargs, topkw)
        if isinstance(f, ClsV):
            return self.instantiate(f, args, kwargs, topkw)
        if isinstance(f, ChoiceV):
            def fa():
                return self.call(f.a, args, kwargs, topkw)

            def fb():
                return self.call(f.b, args, kwargs, topkw)
            v, dead = self.branch((f.cond, f.deps), fa, fb)
            if dead:
                raise Bottom()
            return v
        # star of unknown length
        flat = []
        star = False
        for a in args:
            if isinstance(a, tuple) and a and a[0] == "*":
                flat.append(self.star_elem(a[1]))
                star = True
            else:
                flat.append(a)
        if isinstance(f, LibV):
            return self.lib.call(self, f.name, flat, kwargs, star)
        if isinstance(f, BoundV):
            return self.lib.method(self, f, flat, kwargs)
        # unknown callee
        deps = self.deps_of(f)
        for a in list(flat) + list(kwargs.values()):
            deps = deps | self.deps_of(a)
        g = [self.gv_of(f)] + [self.gv_of(a) for a in flat] + [
            self.gv_of(kwargs[k]) for k in sorted(kwargs)]
        gv = None
        if all(x is not None for x in g):
            gv = self.safe(tm.fn, "call", *g)
        return TopV(deps, E0, gv)

    def star_elem(self, v):
        return self.generic_elem(v)

    def instantiate(self, c, args, kwargs, topkw=None):
        info = c.info
        # exception classes
        for b in info.node.bases:
            n = b.id if isinstance(b, ast.Name) else getattr(b, "attr", "")
            if n.endswith("Error") or n.endswith("Exception") or \
                    n.endswith("Warning"):
                return ExcV(n, args)
        ref = self.alloc(ObjRec(info))
        m = self.find_method(info, "__init__")
        if isinstance(m, FnV):
            self.call_fn(m.bind(ref), args, kwargs, topkw)
            if self.st.dead:
                raise Bottom()
        return ref

    def bind_args(self, f, args, kwargs, topkw):
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        if f.selfv is not None:
            args = [f.selfv] + args
        out = {}
        extra = []
        startop = None
        flat = []
        for x in args:
            if isinstance(x, tuple) and x and x[0] == "*":
                startop = x[1]
                break
            flat.append(x)
        for i, v in enumerate(flat):
            if i < len(pos):
                out[pos[i]] = v
            else:
                extra.append(v)
        if startop is not None:
            el = self.generic_elem(startop)
            for p in pos[len(flat):]:
                if p not in kwargs:
                    out[p] = el
        if extra and a.vararg is None and startop is None:
            self.ev("arity", "%s() called with too many arguments" % f.qual,
                    {"fn": f.qual})
        kwx = {}
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                out[k] = v
            else:
                kwx[k] = v
        if kwx and a.kwarg is None:
            self.ev("arity", "%s() got an unexpected keyword argument %s" % (
                f.qual, sorted(kwx)), {"fn": f.qual})
        # defaults
        if f.defaults is not None:
            dv = f.defaults
            kdv = f.kwdefaults or []
        else:
            fr = self.module_frame(f.mod)
            self.frames.append(fr)
            keep = self.node
            try:
                dv = [self.default(d, f) for d in a.defaults]
                kdv = [self.default(d, f) if d is not None else None
                       for d in a.kw_defaults]
            finally:
                self.frames.pop()
                self.node = keep
        for p, v in zip(pos[len(pos) - len(dv):], dv):
            if p not in out:
                out[p] = v
        for p, v in zip(kwonly, kdv):
            if p not in out and v is not None:
                out[p] = v
        for p in pos + kwonly:
            if p not in out:
                if topkw is not None:
                    out[p] = TopV(self.deps_of(topkw))
                elif startop is None:
                    self.ev("arity", "%s() missing argument %r" % (f.qual, p),
                            {"fn": f.qual})
                    out[p] = TopV()
                else:
                    out[p] = TopV()
        if a.vararg is not None:
            if startop is not None:
                out[a.vararg.arg] = TopV(self.deps_of(startop),
                                         self.roots_of(startop))
            else:
                out[a.vararg.arg] = TupV(extra)
        if a.kwarg is not None:
            d = DictRec(dict(kwx), open=topkw is not None)
            if topkw is not None:
                d.deps = self.deps_of(topkw)
            out[a.kwarg.arg] = self.alloc(d)
        return out

    def default(self, d, f):
        v = self.eval(d)
        if isinstance(v, AV) and v.sp == "lit":
            v.sp = None
        if isinstance(v, RefV):
            r = self.rec(v)
            r.roots = frozenset(["default:%s" % f.qual])
        elif isinstance(v, AV) and v.cst is NOC and v.sh != ():
            v = v.same(roots=frozenset(["default:%s" % f.qual]))
        return v

    def call_fn(self, f, args, kwargs, topkw=None):
        if f.partial:
            args = list(f.partial[0]) + list(args)
            kw = dict(f.partial[1])
            kw.update(kwargs)
            kwargs = kw
        self.calls.add("%s:%s" % (f.mod.name, f.qual))
        if len(self.frames) > MAXDEPTH or self.fnstack.count(id(f.node)) > 2:
            deps = E0
            for a in list(args) + list(kwargs.values()):
                if not isinstance(a, tuple):
                    deps = deps | self.deps_of(a)
            return TopV(deps)
        vals = self.bind_args(f, args, kwargs, topkw)
        if f.qual in self.stubs:
            return self.stubs[f.qual](self, vals)
        fid = next(self.ids)
        env = EnvRec(vals, f.fid)
        self.st.heap[fid] = env
        fr = Frame(fid, f.qual, f.mod, f)
        fr.pcbase = len(self.pc)
        self.frames.append(fr)
        self.fnstack.append(id(f.node))
        keepnode = self.node
        ld = self.loopdepth
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body)
                return v
            self.exec_block(f.node.body)
            return self.finish(fr)
        finally:
            self.loopdepth = ld
            self.node = keepnode
            self.frames.pop()
            self.fnstack.pop()
            if not any(isinstance(n, (ast.FunctionDef, ast.Lambda))
                       for n in ast.walk(f.node) if n is not f.node):
                self.st.heap.pop(fid, None)

    def finish(self, fr):
        if fr.yields is not None:
            el = None
            for v in fr.yields:
                el = v if el is None else self.join(el, v, (None, E0))
            if not self.st.dead:
                return self.newlist(None, el)
        rets = list(fr.returns)
        if not self.st.dead:
            rets.append((list(self.pc[fr.pcbase:]), const(None), self.st,
                         None))
        if not rets:
            raise Bottom()
        if fr.qual in self.watch:
            self.watch[fr.qual] = [
                (pc, v, [self.gv_of(x) for x in (
                    v.items if isinstance(v, TupV) else [v])])
                for pc, v, _, _ in rets]
        pc, v, st, _ = rets[-1]
        self.st = st
        for pc, rv, rst, _ in reversed(rets[:-1]):
            gate = self.conj_gate(pc)
            # join values in the merged state
            merged = self.join_state(rst, st, gate)
            self.st = merged
            v = self.join(rv, v, gate)
            st = self.st
        return v
