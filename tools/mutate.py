#!/usr/bin/env python3
"""mutate.py FILE QIDS [--func REGEX] [--max N]: plants every simple change
of an expression in FILE (relative to /repo), one at a time in scratch
copies, runs the given checks and lists the changes that stay unnoticed."""
import argparse
import ast
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}
DROP = {"conj", "abs", "sqrt", "real", "imag", "flip", "sort", "copy",
        "array", "asarray", "deepcopy"}


def mutants(src, func):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln) + 1)

    def pos(l, c):
        return off[l - 1] + len(lines[l - 1].encode()[:c].decode())

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = seg(n)
        return src[a:b]
    out = []
    doc = set()

    def add(n, new, why):
        a, b = seg(n)
        out.append((n.lineno, src[:a] + new + src[b:], "%s -> %s" % (
            " ".join(src[a:b].split())[:60], " ".join(new.split())[:60])))

    def visit(n, name):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            name = name + "." + n.name if name else n.name
        if isinstance(n, (ast.JoinedStr, ast.Raise)):
            return
        if func is None or re.search(func, name or ""):
            one(n)
        for c in ast.iter_child_nodes(n):
            visit(c, name)

    def one(n):
        if isinstance(n, ast.BinOp):
            if type(n.op) in BIN:
                add(n, "((%s) %s (%s))" % (text(n.left), BIN[type(n.op)],
                                           text(n.right)), "")
            elif isinstance(n.op, ast.Pow):
                add(n, "((%s)**((%s) + 1))" % (text(n.left), text(n.right)),
                    "")
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            add(n, "%s %s= %s" % (text(n.target), BIN[type(n.op)],
                                  text(n.value)), "")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, "(%s)" % text(n.operand), "")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                type(n.ops[0]) in CMP:
            add(n, "(%s %s %s)" % (text(n.left), CMP[type(n.ops[0])],
                                   text(n.comparators[0])), "")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), "")
        elif isinstance(n, ast.Constant) and isinstance(
                n.value, (int, float)):
            add(n, "(%r + 1)" % n.value, "")
        elif isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else (
                n.func.id if isinstance(n.func, ast.Name) else "")
            if nm in DROP and len(n.args) >= 1:
                add(n, "(%s)" % text(n.args[0]), "")
            pa = [x for x in n.args if not isinstance(x, ast.Starred)]
            if len(pa) >= 2 and text(pa[0]) != text(pa[1]):
                a0, b0 = seg(pa[0])
                a1, b1 = seg(pa[1])
                s0, s1 = src[a0:b0], src[a1:b1]
                new = src[:a0] + s1 + src[b0:a1] + s0 + src[b1:]
                out.append((n.lineno, new, "swap args %s <> %s" % (
                    s0[:30], s1[:30])))
            for k in n.keywords:
                if k.arg and nm not in ("print", "ValueError"):
                    a, b = seg(n)
                    ka, kb = seg(k)
                    t = src[kb:b]
                    cut = re.match(r"\s*,\s*", t)
                    if cut:
                        new = src[:ka] + src[kb + cut.end():]
                    else:
                        h = re.search(r",\s*$", src[:ka])
                        new = (src[:h.start()] if h else src[:ka]) + src[kb:]
                    out.append((n.lineno, new, "drop %s in %s" % (
                        " ".join(src[ka:kb].split())[:40], nm)))
        elif isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "(not (%s))" % text(n.test), "")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join("(%s)" % text(v) for v in n.values) + ")",
                "")
    visit(tree, "")
    ok = []
    for m in out:
        try:
            ast.parse(m[1])
        except SyntaxError:
            continue
        ok.append(m)
    return ok


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("qids")
    ap.add_argument("--func")
    ap.add_argument("--max", type=int, default=0)
    ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--width", type=int, default=150)
    a = ap.parse_args()
    src = open("/repo/" + a.file).read()
    ms = mutants(src, a.func)
    if a.max and len(ms) > a.max:
        random.seed(1)
        ms = sorted(random.sample(ms, a.max), key=lambda m: m[0])
    root = tempfile.mkdtemp(prefix="mut_", dir="/dev/shm")
    loc = threading.local()
    n = [0]

    def run(m):
        if not hasattr(loc, "d"):
            n[0] += 1
            loc.d = os.path.join(root, "w%d" % n[0])
            shutil.copytree("/repo", loc.d, ignore=shutil.ignore_patterns(
                ".git", "test*", "build", "*.egg-info", "demo*"))
        with open(os.path.join(loc.d, a.file), "w") as f:
            f.write(m[1])
        hit = []
        for q in a.qids.split(","):
            r = subprocess.run(
                ["python3", "-B", V + "/check.py", q, "--repo", loc.d,
                 "--jobs", "1"], cwd=V, capture_output=True, text=True,
                env=dict(os.environ, QSA_EVIDENCE=loc.d))
            if r.returncode == 1:
                hit.append(q)
                break
            if r.returncode:
                hit.append("%s!%d" % (q, r.returncode))
        return m, hit
    try:
        k = 0
        sl = src.split("\n")
        with ThreadPoolExecutor(a.workers) as ex:
            for m, hit in ex.map(run, ms):
                good = [h for h in hit if "!" not in h]
                k += bool(good)
                if not good:
                    print(("%d: %s %s   | %s" % (
                        m[0], m[2], hit or "", sl[m[0] - 1].strip()))
                        [:a.width], flush=True)
        print("%d mutants, %d noticed" % (len(ms), k))
    finally:
        shutil.rmtree(root)


if __name__ == "__main__":
    main()
