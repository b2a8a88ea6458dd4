"""Package-wide rules on names, attributes, call signatures and raises: these
look at every function of the package, entered by an analysis entry or not."""
import ast
import builtins
import os
import symtable
import warnings
from .entry import program
from .loader import ClsInfo

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__",
                                 "__path__", "__package__", "__spec__",
                                 "__class__"}


def where(m, node):
    return "%s:%d" % (os.path.relpath(m.path, program().root), node.lineno)


def defined(P, m, name):
    return P.lookup(m.name, name) is not None or name in BUILTINS


def module_bindings(m):
    """Names bound at module level in any way (for, with, global, ...)."""
    out = set()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        st = symtable.symtable(m.src, m.path, "exec")
    for s in st.get_symbols():
        if s.is_assigned() or s.is_imported() or s.is_namespace():
            out.add(s.get_name())

    def globs(t):
        for s in t.get_symbols():
            if s.is_declared_global() and s.is_assigned():
                out.add(s.get_name())
        for ch in t.get_children():
            globs(ch)
    globs(st)
    return st, out


def open_star(P, m, seen=()):
    """Does a star import from outside the package reach this module?"""
    for s in m.stars:
        if s not in P.mods:
            return True
        if s not in seen and open_star(P, P.mods[s], seen + (s,)):
            return True
    return False


def names(rep, modname):
    P = program()
    m = P.mods[modname]
    rel = os.path.relpath(m.path, P.root)
    st, bound = module_bindings(m)
    n = 0
    lines = {}
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Name):
            lines.setdefault(x.id, x)
    star = open_star(P, m)

    def scope(t, qual):
        nonlocal n
        for s in t.get_symbols():
            nm = s.get_name()
            if not s.is_referenced() or not s.is_global() and \
                    t.get_type() != "module":
                continue
            if t.get_type() == "module" and (s.is_assigned() or
                                             s.is_imported() or
                                             s.is_namespace()):
                continue
            n += 1
            if nm in bound or star or defined(P, m, nm):
                continue
            x = lines.get(nm)
            rep.bad("defined-name", "%s:%s %s" % (rel, qual, nm),
                    "the name %s is bound nowhere" % nm,
                    where(m, x) if x is not None else rel)
        for ch in t.get_children():
            scope(ch, (qual + "." if qual else "") + ch.get_name())
    scope(st, "")
    rep.ok("defined-name", rel, "%d references" % n)
    rep.count("name_references", n)
    # imports of package members, attributes of package modules
    for x in ast.walk(m.tree):
        if isinstance(x, ast.ImportFrom):
            base = x.module or ""
            if x.level:
                pk = m.package().split(".")
                pk = pk[:len(pk) - (x.level - 1)]
                base = ".".join(pk + ([base] if base else []))
            if base not in P.mods:
                if base.split(".")[0] == P.package:
                    rep.bad("import-resolves", "%s %s" % (rel, base),
                            "no module %s" % base, where(m, x))
                continue
            for a in x.names:
                rep.count("imports")
                if a.name != "*" and P.lookup(base, a.name) is None and \
                        not open_star(P, P.mods[base]) and a.name not in \
                        module_bindings(P.mods[base])[1]:
                    rep.bad("import-resolves", "%s %s.%s" % (
                        rel, base, a.name), "%s does not define %s" % (
                            base, a.name), where(m, x))
        elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
            r = P.lookup(m.name, x.value.id)
            if r and r[0] == "mod" and isinstance(x.ctx, ast.Load):
                rep.count("module_attributes")
                if P.lookup(r[1].name, x.attr) is None and x.attr not in \
                        module_bindings(r[1])[1] and \
                        not open_star(P, r[1]) and \
                        not x.attr.startswith("__"):
                    rep.bad("import-resolves", "%s %s.%s" % (
                        rel, x.value.id, x.attr), "module %s does not "
                        "define %s" % (r[1].name, x.attr), where(m, x))
    for nm in m.all or ():
        rep.count("exports")
        if P.lookup(m.name, nm) is None and not star and nm not in bound:
            rep.bad("export-defined", "%s %s" % (rel, nm),
                    "__all__ lists %s, which is not defined" % nm, rel)
    # exceptions that are built and dropped
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and \
                isinstance(x.value.func, ast.Name):
            f = x.value.func.id
            t = getattr(builtins, f, None)
            if isinstance(t, type) and issubclass(t, BaseException) and \
                    f not in bound:
                rep.bad("exception-raised", "%s %s" % (rel, f),
                        "an exception is created but not raised",
                        where(m, x))
        elif isinstance(x, ast.Raise) and x.exc is not None:
            rep.count("raises")
            e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
            if isinstance(e, (ast.Constant, ast.JoinedStr)):
                rep.bad("exception-raised", "%s raise" % rel,
                        "a string is raised", where(m, x))
            elif isinstance(e, ast.Name):
                t = getattr(builtins, e.id, None)
                if t is not None and e.id not in bound and not (
                        isinstance(t, type) and
                        issubclass(t, BaseException)):
                    rep.bad("exception-raised", "%s raise %s" % (rel, e.id),
                            "%s is not an exception" % e.id, where(m, x))


def sig_check(node, call, skip):
    """Why the call cannot bind to the signature, or None."""
    a = node.args
    if any(isinstance(x, ast.Starred) for x in call.args) or \
            any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    ponly = len(a.posonlyargs)
    kwo = [x.arg for x in a.kwonlyargs]
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if npos > len(pos) and a.vararg is None:
        return "%d positional arguments for %d parameters" % (npos, len(pos))
    kws = [k.arg for k in call.keywords if k.arg]
    for k in kws:
        if k not in pos + kwo and a.kwarg is None:
            return "no parameter %s" % k
        if not star and k in pos[:npos]:
            return "parameter %s is given twice" % k
    if star:
        return None
    nd = len(a.defaults)
    req = pos[:len(pos) - nd] if nd else pos
    miss = [p for p in req[npos:] if p not in kws]
    miss += [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults)
             if d is None and p.arg not in kws]
    if miss:
        return "required parameter %s is missing" % miss[0]
    return None


def deco(node):
    out = set()
    for d in node.decorator_list:
        d = d.func if isinstance(d, ast.Call) else d
        out.add(d.attr if isinstance(d, ast.Attribute) else
                getattr(d, "id", "?"))
    return out


def closed_class(P, ci):
    """All bases are package classes; -> mro or None."""
    for c in P.mro(ci):
        for b in c.node.bases:
            if isinstance(b, ast.Name) and b.id == "object":
                continue
            r = P.lookup(c.mod.name, b.id) if isinstance(b, ast.Name) else None
            if not r or r[0] != "cls":
                return None
        if c.node.keywords or c.node.decorator_list:
            return None
        if "__getattr__" in c.methods or "__getattribute__" in c.methods:
            return None
    return P.mro(ci)


def subclasses(P, ci):
    for m in P.mods.values():
        for d in m.defs.values():
            if isinstance(d, ClsInfo) and ci in P.mro(d):
                yield d


def attrs_stored(P, ci):
    """Attributes any method of the class, its bases or subclasses sets; None
    when they cannot be listed (setattr, self.__dict__, ...)."""
    out = set()
    todo = set()
    for s in subclasses(P, ci):
        todo |= set(P.mro(s))
    for c in todo:
        out |= set(c.methods) | set(c.attrs)
        for x in ast.walk(c.node):
            if isinstance(x, ast.Attribute) and isinstance(
                    x.ctx, (ast.Store, ast.Del)):
                out.add(x.attr)
            elif isinstance(x, ast.Name) and x.id in ("setattr", "vars"):
                return None
            elif isinstance(x, ast.Attribute) and x.attr == "__dict__":
                return None
            elif isinstance(x, (ast.Assign, ast.ClassDef)):
                pass
    return out


def calls(rep, modname):
    """Calls of package functions bind; self.<name> exists."""
    P = program()
    m = P.mods[modname]
    rel = os.path.relpath(m.path, P.root)

    def local_names(fn):
        out = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, ast.arg):
                out.add(x.arg)
            elif isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn:
                if isinstance(x, ast.FunctionDef):
                    out.add(x.name)
        return out

    def visit(body, qual, cls, locs):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fn(st, qual + st.name, cls, locs)
            elif isinstance(st, ast.ClassDef):
                visit(st.body, qual + st.name + ".", m.defs.get(st.name),
                      locs)
            elif hasattr(st, "body"):
                visit(st.body, qual, cls, locs)

    def fn(node, qual, cls, locs):
        locs = locs | local_names(node)
        selfn = None
        mro = None
        if isinstance(cls, ClsInfo) and "staticmethod" not in deco(node) and \
                node.args.args:
            selfn = node.args.args[0].arg
            mro = closed_class(P, cls)
        stored = attrs_stored(P, cls) if mro else None
        iscls = "classmethod" in deco(node)
        for x in ast.walk(node):
            if isinstance(x, ast.Call):
                one(x, qual, cls, locs, selfn, mro)
            if mro and stored is not None and not iscls and \
                    isinstance(x, ast.Attribute) and \
                    isinstance(x.ctx, ast.Load) and \
                    isinstance(x.value, ast.Name) and x.value.id == selfn:
                rep.count("self_attributes")
                if x.attr not in stored and not x.attr.startswith("__"):
                    rep.bad("existing-attribute", "%s:%s %s.%s" % (
                        rel, qual, selfn, x.attr), "no method of the class "
                        "defines or assigns %s" % x.attr, where(m, x))

    def one(x, qual, cls, locs, selfn, mro):
        f = x.func
        node = None
        skip = 0
        if isinstance(f, ast.Name) and f.id not in locs:
            r = P.lookup(m.name, f.id)
            if r and r[0] == "def":
                node = r[1].node
                if deco(node):
                    node = None
            elif r and r[0] == "cls" and closed_class(P, r[1]):
                for c in P.mro(r[1]):
                    if "__init__" in c.methods:
                        node, skip = c.methods["__init__"], 1
                        break
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            if f.value.id == selfn and mro and isinstance(cls, ClsInfo):
                for c in mro:
                    if f.attr in c.methods:
                        nd = c.methods[f.attr]
                        d = deco(nd)
                        if not d:
                            node, skip = nd, 1
                        elif d == {"staticmethod"}:
                            node, skip = nd, 0
                        elif d == {"classmethod"}:
                            node, skip = nd, 1
                        break
            elif f.value.id not in locs:
                r = P.lookup(m.name, f.value.id)
                if r and r[0] == "mod":
                    r = P.lookup(r[1].name, f.attr)
                    if r and r[0] == "def" and not deco(r[1].node):
                        node = r[1].node
                elif r and r[0] == "cls" and f.attr in r[1].methods and \
                        deco(r[1].methods[f.attr]) == {"staticmethod"}:
                    node = r[1].methods[f.attr]
        if node is None:
            return
        rep.count("package_calls")
        why = sig_check(node, x, skip)
        if why:
            rep.bad("call-binds", "%s:%s %s" % (rel, qual,
                                                ast.unparse(x)[:80]),
                    why, where(m, x))

    visit(m.tree.body, "", None, set())
    rep.ok("call-binds", rel)


def tasks(tier):
    P = program()
    out = []
    for nm in sorted(P.mods):
        out.append((names, (nm,), "names " + nm))
        out.append((calls, (nm,), "calls " + nm))
    return out


GLOBAL_CALLS = {
    "warnings": {"simplefilter", "filterwarnings", "resetwarnings"},
    "numpy": {"seterr", "seterrcall", "set_printoptions", "setbufsize"},
    "numpy.random": {"seed", "set_state"},
    "random": {"seed"}, "matplotlib": {"use", "rc", "rcdefaults"},
    "matplotlib.pyplot": {"switch_backend", "rc", "ion", "ioff"},
    "matplotlib.style": {"use"}, "matplotlib.pyplot.style": {"use"},
    "os": {"chdir", "putenv", "umask"}, "locale": {"setlocale"},
    "sys": {"setrecursionlimit"}, "logging": {"basicConfig", "disable"}}


def import_effects(rep, modname):
    """Importing a module changes no process-wide setting."""
    P = program()
    m = P.mods[modname]
    rel = os.path.relpath(m.path, P.root)

    def dotted(f):
        if isinstance(f, ast.Attribute):
            b = dotted(f.value)
            return b + "." + f.attr if b else None
        if isinstance(f, ast.Name):
            r = P.lookup(m.name, f.id)
            return r[1] if r and r[0] == "lib" else None
        return None

    def visit(body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(st, ast.ClassDef):
                visit(st.body)
                continue
            heads = [st]
            if hasattr(st, "body"):
                for f in ("body", "orelse", "finalbody"):
                    visit(getattr(st, f, []) or [])
                for h in getattr(st, "handlers", ()):
                    visit(h.body)
                heads = [getattr(st, "test", None), getattr(st, "iter", None)]
            for hd in heads:
                for x in ast.walk(hd) if hd is not None else ():
                    if isinstance(x, ast.Call):
                        d = dotted(x.func) or ""
                        a, _, b = d.rpartition(".")
                        rep.count("module_level_calls")
                        if b in GLOBAL_CALLS.get(a, ()):
                            rep.bad("import-keeps-settings", "%s %s" % (
                                rel, d), "importing the package calls %s, "
                                "which changes the whole process" % d,
                                where(m, x))
                    elif isinstance(x, (ast.Subscript, ast.Attribute)) and \
                            isinstance(x.ctx, ast.Store):
                        d = dotted(x.value if isinstance(x, ast.Subscript)
                                   else x)
                        if d:
                            rep.bad("import-keeps-settings", "%s %s" % (
                                rel, d), "importing the package assigns into "
                                "%s" % d, where(m, x))
    visit(m.tree.body)
    rep.ok("import-keeps-settings", rel)


def import_tasks(tier):
    return [(import_effects, (nm,), "import " + nm)
            for nm in sorted(program().mods)]
