"""The value of a loop-carried variable after k iterations, as a term."""
from . import terms as tm
from .compare import deep


def parts(at):
    """{name: (start, step, value on leaving)} of mu(label, name, range, test,
    name1, start1, step1.., ...) or None.  The step is None when no second
    iteration is possible."""
    a = at.args
    tag = [x for x in a[4:] if isinstance(x, str) and x.startswith("break")]
    nb = int(tag[0][5:].rstrip("L")) if tag else 0
    live = not tag or tag[0].endswith("L")
    r = {}
    k = 4
    while k < len(a):
        if not isinstance(a[k], str):
            return None
        if a[k] in tag:
            break
        n = k + 1
        while n < len(a) and isinstance(a[n], tm.Expr):
            n += 1
        if n - k < 3:
            return None
        steps = a[k + 2:n]
        if all(x == steps[0] for x in steps):
            r[a[k]] = (a[k + 1], steps[0] if live else None, steps[0])
        elif live and len(steps) == 1 + nb and a[3] == tm.ONE and all(
                x == steps[1] for x in steps[1:]):
            r[a[k]] = (a[k + 1], steps[0], steps[1])
        else:
            return None
        k = n
    return r if a[1] in r else None


def leaving(at):
    """(conditions on the way, condition) of the only break of a loop."""
    a = at.args
    tag = [i for i, x in enumerate(a) if isinstance(x, str) and i >= 4 and
           x.startswith("break")]
    if len(tag) != 1 or a[tag[0]] != "break1L" or a[3] != tm.ONE:
        return None
    c = a[tag[0] + 1:]
    return (c[:-1], c[-1]) if c else None


def head(name, key):
    return "h:%s#%s" % (key, name)


def after(at, k, leave=False):
    """The variable of the loop term after k iterations, the last of which
    leaves the loop."""
    p = parts(at)
    if p is None:
        return None
    val = {n: s for n, (s, _, _) in p.items()}
    for q in range(k):
        m = {}
        for n, v in val.items():
            m[head(n, at.args[0])] = m[head(n, at.args[0]) + "~"] = v
        last = leave and q == k - 1
        if last:
            val = {at.args[1]: tm.subst(p[at.args[1]][2], m)}
        elif any(s is None for _, s, _ in p.values()):
            return None
        else:
            val = {n: tm.subst(s, m) for n, (_, s, _) in p.items()}
    r = val[at.args[1]]
    return None if "undef" in tm.symbols(r) else r


def unroll(g, k):
    """g with every loop value replaced by the one after k iterations."""
    bad = []

    def rule(at, go):
        if at.kind != "fn" or at.name != "mu":
            return None
        v = after(at, k, True)
        if v is None:
            bad.append(at)
            return None
        return go(v)
    r = deep(g, rule)
    return None if bad else r


def loops(g, acc=None):
    """Labels of the loops in a term."""
    acc = set() if acc is None else acc

    def f(at, go):
        if at.kind == "fn" and at.name == "mu":
            acc.add(at.args[0])
        return None
    deep(g, f)
    return acc


def inside(g, mus, k):
    """A value computed within an iteration, in iteration k + 1: the head
    symbols take the values of mus (name -> loop atom) after k iterations."""
    m = {}
    for n in tm.symbols(g):
        if n.startswith("h:"):
            at = mus.get(n.rstrip("~"))
            v = after(at, k) if at is not None else None
            if v is None:
                return None
            m[n] = v
    return tm.subst(g, m)


def heads(g, acc):
    """Head symbol -> a loop term that knows its start and step."""
    def f(at, go):
        if at.kind == "fn" and at.name == "mu":
            for n in parts(at) or ():
                h = head(n, at.args[0])
                if h not in acc:
                    a = list(at.args)
                    a[1] = n
                    acc[h] = at if n == at.args[1] else \
                        tm.fn("mu", *a).single_atom()
        return None
    deep(g, f)
    return acc
