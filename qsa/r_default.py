"""Q33: an argument left out means what its documentation says it means."""
import ast
import math
import os
import re
from . import terms as tm
from . import opts
from .entry import Session, program, Raised
from .interp import Bottom
from .loader import ClsInfo, FnInfo
from .checks import params_of
from .rules import eq_values
from .values import *      # noqa
from .specs import *       # noqa

NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
VAL = (r"[`]*(True|False|None|(?:np\.|numpy\.|math\.)?(?:inf|pi|nan)\b|"
       r"'[^']*'|\"[^\"]*\"|" + NUM + r")[`]*(?:\s*([kMGmun]?)"
       r"(Hz|s|Ohms?|A|V|W|K)\b)?")
PATS = [
    r"[Dd]efaults?(?:\s+value)?\s+(?:is|to|are|of)\s+(?:set\s+to\s+)?" + VAL,
    r"[Dd]efaults?\s*[:=]\s*" + VAL,
    r"\(\s*default(?:\s+value)?\s*(?:is|:|=)?\s*" + VAL + r"\s*\)",
    r"[Ss]et\s+to\s+" + VAL + r"\s+by\s+default",
    r"[Ii]f\s+(?:set\s+to\s+)?" + VAL + r"\s*\((?:the\s+)?default(?:\s+\w+)?"
    r"\)",
    r"[Ii]f\s+(?:set\s+to\s+)?" + VAL + r"[^.]*?\bthe\s+default\s+"
    r"(?:behaviou?r|value|setting)",
]
SCALE = {"": 1, "k": 1e3, "M": 1e6, "G": 1e9, "m": 1e-3, "u": 1e-6,
         "n": 1e-9}
NONE = object()


def lit(text):
    """The value of a literal, or NONE."""
    t = re.sub(r"^(np|numpy|math)\.", "", text)
    if t in ("inf", "pi", "nan"):
        return {"inf": math.inf, "pi": math.pi, "nan": math.nan}[t]
    try:
        return ast.literal_eval(t)
    except (ValueError, SyntaxError):
        return NONE


def doc_params(doc):
    """name -> text of the Parameters section of a numpy docstring."""
    out = {}
    lines = doc.expandtabs().split("\n")
    for i, l in enumerate(lines[:-1]):
        if l.strip() in ("Parameters", "Other Parameters", "Arguments",
                         "Keyword Arguments") and \
                re.fullmatch(r"\s*-{3,}\s*", lines[i + 1]):
            break
    else:
        return out
    base = len(l) - len(l.lstrip())
    cur = None
    for j in range(i + 2, len(lines)):
        l = lines[j]
        if not l.strip():
            continue
        if j + 1 < len(lines) and re.fullmatch(r"\s*-{3,}\s*", lines[j + 1]):
            break
        ind = len(l) - len(l.lstrip())
        m = re.match(r"\s*([\w\s,*]+?)\s*:\s*(.*)", l)
        if ind <= base and m:
            cur = [x.strip().lstrip("*") for x in m.group(1).split(",")]
            for c in cur:
                out[c] = m.group(2) + "."
        elif cur and ind > base:
            for c in cur:
                out[c] += " " + l.strip()
    return out


def documented(text):
    """The default a description states, or NONE if it states none, or more
    than one."""
    found = []
    text = re.sub(r"\s+", " ", text)
    for p in PATS:
        for m in re.finditer(p, text):
            v = lit(m.group(1))
            if v is NONE:
                continue
            if m.group(2) and isinstance(v, (int, float)) and \
                    not isinstance(v, bool):
                v = v * SCALE[m.group(2)]
            if not any(alike(v, f) for f in found):
                found.append(v)
    return found[0] if len(found) == 1 else NONE


def alike(a, b):
    num = (int, float)
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, num) and isinstance(b, num):
        return a == b or a != a and b != b or \
            math.isclose(a, b, rel_tol=1e-12)
    return type(a) is type(b) and a == b


def signature(node):
    """parameter -> default expression or None."""
    a = node.args
    pos = a.posonlyargs + a.args
    out = {x.arg: None for x in pos}
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        out[x.arg] = d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        out[x.arg] = d
    return out


def fold(e):
    """The value of a default expression, or NONE."""
    try:
        return ast.literal_eval(e)
    except (ValueError, SyntaxError, TypeError):
        pass
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        return lit("%s.%s" % (e.value.id, e.attr))
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = fold(e.operand)
        return -v if isinstance(v, (int, float)) else NONE
    if isinstance(e, ast.BinOp):
        x, y = fold(e.left), fold(e.right)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            try:
                return {ast.Add: lambda: x + y, ast.Sub: lambda: x - y,
                        ast.Mult: lambda: x*y, ast.Div: lambda: x/y,
                        ast.Pow: lambda: x**y}[type(e.op)]()
            except (KeyError, ArithmeticError):
                return NONE
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            len(e.args) == 1 and e.func.id in ("float", "int", "str", "bool"):
        v = fold(e.args[0])
        return NONE if v is NONE else {"float": float, "int": int, "str": str,
                                       "bool": bool}[e.func.id](v)
    return NONE


def value_of(v):
    if isinstance(v, float) and v == int(v) if isinstance(
            v, float) and math.isfinite(v) else False:
        return int(v)
    return v


def behaviours(qual, p, v):
    """Is the call without p the call with v?  (True | False | None, text)"""
    res = None
    for o in opts.OPTS:
        if re.sub(r"\(.*", "", o.name) != qual:
            continue
        got = []
        for given in (False, True):
            S = Session()
            f = o.get(S)
            kw = {k: S.wrap(x) for k, x in o.args(S).items()}
            kw.pop(p, None)
            names = params_of(S, f)
            if p not in names:
                return None, "no parameter %s" % p
            for q in names:
                if q not in kw and q != p and q not in o.skip:
                    kw[q] = S.wrap(o.over[q](S) if q in o.over else
                                   S.sc(q, None))
            if given:
                kw[p] = S.const(value_of(v))
            try:
                r = S.I.call(f, [], kw)
                if o.post:
                    r = o.post(S, r)
            except (Raised, Bottom) as x:
                got = None
                break
            got.append(r)
        if not got:
            continue
        try:
            t, d = eq_values(S, got[0], got[1])
        except tm.TooBig:
            t, d = None, "too large"
        if t is False:
            return False, d
        if t is None:
            res = (None, d)
        elif res is None:
            res = (True, "")
    return res or (None, "no analysed call")


def check(rep, modname):
    P = program()
    m = P.mods[modname]
    rel = os.path.relpath(m.path, P.root)
    n = 0

    def fn(node, doc, qual):
        nonlocal n
        sig = signature(node)
        rep.count("functions")
        rep.stats.setdefault("#fn", set()).add("%s.%s" % (modname, qual))
        for p, text in doc_params(doc).items():
            if sig.get(p) is None:
                continue
            v = documented(text)
            if v is NONE:
                continue
            n += 1
            name = "%s:%s(%s)" % (rel, qual, p)
            w = "%s:%d in %s" % (rel, node.lineno, qual)
            d = fold(sig[p])
            what = "left out, it is documented to be %r" % (v,)
            if d is not NONE and alike(v, d):
                rep.ok("documented-default", name, what)
                continue
            q = re.sub(r"\.__init__$", "", qual)
            t, txt = behaviours(q, p, v)
            if t is None and d is not NONE and not (d is None) and not (
                    v is None) and not isinstance(v, str):
                t, txt = False, "the parameter defaults to %r" % (d,)
            if t is None and v is not None and isinstance(v, (
                    bool, int, float)) and d is None and not tests_none(
                        node, p):
                t, txt = False, "the parameter defaults to None"
            rep.put(t, "documented-default", name, "%s; %s" % (
                what, txt or "it defaults to %s" % ast.unparse(sig[p])), w)

    def walk(body, pre):
        for x in body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fn(x, ast.get_docstring(x) or "", pre + x.name)
            elif isinstance(x, ast.ClassDef):
                cd = ast.get_docstring(x) or ""
                for y in x.body:
                    if isinstance(y, ast.FunctionDef) and \
                            y.name == "__init__" and not (
                                ast.get_docstring(y) or ""):
                        fn(y, cd, pre + x.name + ".__init__")
                walk(x.body, pre + x.name + ".")
    walk(m.tree.body, "")
    rep.count("documented_defaults", n)


def tests_none(node, p):
    """Is p compared or tested anywhere in the function?"""
    for x in ast.walk(node):
        if isinstance(x, (ast.Compare, ast.If, ast.IfExp, ast.BoolOp)):
            for y in ast.walk(x.test if isinstance(
                    x, (ast.If, ast.IfExp)) else x):
                if isinstance(y, ast.Name) and y.id == p:
                    return True
    return False


def equivalents():
    """(label, call without the argument, call with what None stands for)"""
    out = []

    def of(m, *args):
        def run(S, given):
            kw = {a: S.sc(a, AT if a in ("a1", "amp") else S_) for a in args}
            if given:
                kw["nconstrain"] = AV(DLESS, N(S), E0, sh=())
            kw["windowcenter"] = const(0)
            kw["lgcoutsidewindow"] = const(False)
            return S.meth(OF(S), m, **kw)
        out.append(("OptimumFilter.%s(nconstrain)" % m, run,
                    "unconstrained, which is a window of all bins"))
    of("ofamp_withdelay")
    of("ofamp_pileup_iterative", "a1", "t1")
    of("ofamp_pileup_stationary")
    of("ofamp_baseline")

    def fn(nm, p, *args):
        def run(S, given):
            sig, tmpl, psd, fs = of_in(S)
            kw = {a: S.sc(a, AT if a == "a1" else S_) for a in args}
            kw["lgcoutsidewindow"] = const(False)
            if given:
                kw[p] = AV(DLESS, N(S), E0, sh=())
            return S.call(S.get(FIT, nm), sig, tmpl, psd, fs, **kw)
        out.append(("%s(%s)" % (nm, p), run,
                    "unconstrained, which is a window of all bins"))
    fn("ofamp", "nconstrain")
    fn("ofamp_pileup", "nconstrain1")
    fn("ofamp_pileup", "nconstrain2", "a1", "t1")
    fn("ofamp_pileup_stationary", "nconstrain")
    for m in TESM:
        def run(S, given, m=m):
            t = TES(S)
            f = S.attr(t, "freqs")
            return S.meth(t, m, *([f] if given and f is not None else []))
        out.append(("TESnoise.%s(freqs)" % m, run,
                    "the frequencies of the object"))
    return out


def equivalent(rep, lab, run, what):
    S = Session()
    try:
        a = run(S, False)
        b = run(S, True)
        t, d = eq_values(S, a, b)
    except (Raised, Bottom) as x:
        t, d = None, "raises: %s" % x
    except tm.TooBig:
        t, d = None, "too large"
    rep.put(t, "left-out-means", lab, "None is documented to mean %s%s" % (
        what, "; " + d if d else ""))


def tasks(tier):
    return [(check, (m,), m) for m in sorted(program().mods)] + [
        (equivalent, e, e[0]) for e in equivalents()]
