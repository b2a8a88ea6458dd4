"""Parses the library and resolves names across its modules."""
import ast
import os


class FnInfo(object):
    def __init__(self, node, mod, qual, cls=None):
        self.node = node
        self.mod = mod
        self.qual = qual
        self.cls = cls


class ClsInfo(object):
    def __init__(self, node, mod):
        self.node = node
        self.mod = mod
        self.name = node.name
        self.methods = {}
        self.attrs = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and \
                    isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st.value


class _LoopReturns(ast.NodeTransformer):
    """An endless loop that is left by returns only is read as a loop that is
    left by a break in front of the last of these returns."""

    def visit_While(self, s):
        self.generic_visit(s)
        if not (isinstance(s.test, ast.Constant) and s.test.value) or \
                s.orelse:
            return s
        if any(isinstance(x, ast.Break) for x in self.walk(s.body)):
            return s
        place = None

        def find(body):
            nonlocal place
            for i, x in enumerate(body):
                if isinstance(x, ast.Return):
                    place = (body, i)
                elif isinstance(x, ast.If):
                    find(x.body)
                    find(x.orelse)
        find(s.body)
        if place is None:
            return s
        body, i = place
        ret = body[i]
        body[i] = ast.copy_location(ast.Break(), ret)
        return [s, ret]

    def walk(self, body):
        for x in body:
            yield x
            if isinstance(x, (ast.For, ast.While)):
                for y in self.walk(x.orelse):
                    yield y
                continue
            for f in ("body", "orelse", "finalbody"):
                for y in self.walk(getattr(x, f, ()) or ()):
                    yield y
            for h in getattr(x, "handlers", ()):
                for y in self.walk(h.body):
                    yield y


class ModInfo(object):
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.lines = src.split("\n")
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = _LoopReturns().visit(ast.parse(src))
        self.ispkg = os.path.basename(path) == "__init__.py"
        self.defs = {}       # name -> FnInfo/ClsInfo
        self.assigns = {}    # name -> list of value exprs (module level)
        self.imports = {}    # name -> ('mod', dotted) | ('from', mod, name)
        self.stars = []
        self.all = None
        self._scan(self.tree.body)

    def package(self):
        return self.name if self.ispkg else self.name.rpartition(".")[0]

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[st.name] = FnInfo(st, self, st.name)
            elif isinstance(st, ast.ClassDef):
                self.defs[st.name] = ClsInfo(st, self)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = ("mod", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = (
                            "mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    pk = self.package().split(".")
                    pk = pk[:len(pk) - (st.level - 1)]
                    base = ".".join(pk + ([base] if base else []))
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = (
                            "from", base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(st.value)
                        if t.id == "__all__":
                            try:
                                self.all = ast.literal_eval(st.value)
                            except Exception:
                                pass
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                if isinstance(st.value, (ast.Tuple, ast.List)) \
                                        and len(st.value.elts) == len(t.elts):
                                    self.assigns.setdefault(
                                        e.id, []).append(st.value.elts[i])
                                else:
                                    self.assigns.setdefault(
                                        e.id, []).append(None)
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.assigns.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    self._scan(h.body)
                self._scan(st.orelse)
                self._scan(st.finalbody)
            elif isinstance(st, ast.With):
                self._scan(st.body)


class Program(object):
    def __init__(self, root, package="qetpy"):
        self.root = root
        self.package = package
        self.mods = {}
        base = os.path.join(root, package)
        for dp, dn, fns in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fns):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                with open(p) as fh:
                    src = fh.read()
                self.mods[rel] = ModInfo(rel, p, src)

    def public_names(self, m):
        if m.all is not None:
            return list(m.all)
        return [n for n in list(m.defs) + list(m.assigns) + list(m.imports)
                if not n.startswith("_")]

    def lookup(self, modname, name, seen=None):
        """-> ('def', FnInfo) | ('cls', ClsInfo) | ('assign', mod, exprs) |
        ('mod', ModInfo) | ('lib', dotted) | None"""
        seen = set() if seen is None else seen
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.mods.get(modname)
        if m is None:
            return ("lib", modname + "." + name)
        if name in m.defs:
            d = m.defs[name]
            return ("cls", d) if isinstance(d, ClsInfo) else ("def", d)
        if name in m.assigns:
            return ("assign", m, m.assigns[name])
        if name in m.imports:
            im = m.imports[name]
            if im[0] == "mod":
                return self.mod_or_lib(im[1])
            sub = im[1] + "." + im[2]
            if im[1] in self.mods:
                r = self.lookup(im[1], im[2], seen)
                if r is not None:
                    return r
                if sub in self.mods:
                    return ("mod", self.mods[sub])
                return None
            if sub in self.mods:
                return ("mod", self.mods[sub])
            return ("lib", sub)
        for s in m.stars:
            if s in self.mods:
                sm = self.mods[s]
                if sm.all is not None and name not in sm.all:
                    continue
                if sm.all is None and name.startswith("_"):
                    continue
                r = self.lookup(s, name, seen)
                if r is not None:
                    return r
        sub = modname + "." + name
        if sub in self.mods:
            return ("mod", self.mods[sub])
        return None

    def mod_or_lib(self, dotted):
        if dotted in self.mods:
            return ("mod", self.mods[dotted])
        return ("lib", dotted)

    def mro(self, cls):
        """Linearised list of ClsInfo (simple left-to-right depth first)."""
        out = []

        def go(c):
            if c in out:
                return
            out.append(c)
            for b in c.node.bases:
                r = None
                if isinstance(b, ast.Name):
                    r = self.lookup(c.mod.name, b.id)
                if r and r[0] == "cls":
                    go(r[1])
        go(cls)
        return out

    def functions(self):
        """All function definitions: (mod, qualname, node, clsinfo)."""
        for m in self.mods.values():
            def walk(body, prefix, cls):
                for st in body:
                    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield (m, prefix + st.name, st, cls)
                        for x in walk(st.body, prefix + st.name + ".", None):
                            yield x
                    elif isinstance(st, ast.ClassDef):
                        ci = m.defs.get(st.name)
                        for x in walk(st.body, prefix + st.name + ".", ci):
                            yield x
                    else:
                        for f in ("body", "orelse", "finalbody"):
                            b = getattr(st, f, None)
                            if isinstance(b, list):
                                for x in walk(b, prefix, cls):
                                    yield x
            for x in walk(m.tree.body, "", None):
                yield x
