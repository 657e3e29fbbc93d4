#!/usr/bin/env python3
"""Automatic mutation of the analysed sources: which single-token changes does no check notice?

  automut.py list FILE...                 enumerate mutants
  automut.py run OUT [--sample N] [--seed S] [--workers W] [--only SUBSTR] FILE...

Works on copies under /tmp/automut; never touches /repo. Needs the evidence of a previous run of all checks (to know
which check analyses which function). Survivors are written to OUT for triage (many are equivalent changes)."""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SKIPF = re.compile(r"^(_example|plot_|main$|run_sweep|run_|_plot)")


def py_mutants(rel):
    src = open(os.path.join(REPO, rel)).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()
    out = []

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def add(n, s, e, new, what, fn):
        out.append({"file": rel, "line": n.lineno, "s": s, "e": e, "new": new, "what": what, "func": fn})

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(n, ast.FunctionDef) and SKIPF.match(n.name):
                return
            fn = fn + [(n.name, n.lineno)]
            for d in n.decorator_list:
                pass
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
                body = body[1:]
            if isinstance(n, ast.FunctionDef):
                for dflt in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                    visit(dflt, fn)
            for x in body:
                visit(x, fn)
            return
        if isinstance(n, ast.If) and "__main__" in ast.dump(n.test):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print":
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            return
        if isinstance(n, (ast.Assert, ast.Import, ast.ImportFrom, ast.AnnAssign)):
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.BinOp):
            l, r = pos(n.left)[1], pos(n.right)[0]
            mid = b[l:r].decode()
            sw = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*")}.get(type(n.op))
            if sw and mid.count(sw[0]) == 1:
                add(n, l, r, mid.replace(*sw), "op %s->%s" % sw, fn)
            if isinstance(n.op, (ast.Sub, ast.MatMult, ast.Div)):
                s, e = pos(n)
                add(n, s, e, "(" + seg(n.right) + ")" + mid + "(" + seg(n.left) + ")", "swap operands", fn)
            if isinstance(n.op, (ast.Add, ast.Sub)):
                s, e = pos(n)
                add(n, s, e, "(" + seg(n.left) + ")", "drop right term", fn)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = pos(n.left)[1], pos(n.comparators[0])[0]
            mid = b[l:r].decode()
            for o, w in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" < ", " > "), (" > ", " < ")):
                if mid == o:
                    add(n, l, r, w, "compare%s->%s" % (o, w), fn)
        if isinstance(n, ast.BoolOp):
            s, e = pos(n)
            w = "and" if isinstance(n.op, ast.And) else "or"
            t = seg(n)
            if t.count(" %s " % w) == 1:
                add(n, s, e, "(" + t.replace(" %s " % w, " or " if w == "and" else " and ") + ")", "bool " + w, fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            s, e = pos(n)
            add(n, s, e, "(" + seg(n.operand) + ")", "drop unary", fn)
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            s, e = pos(n)
            add(n, s, e, repr(n.value + 1) if isinstance(n.value, int) else repr(n.value * 1.25 + (0.5 if n.value == 0 else 0)), "const", fn)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            s, e = pos(n)
            add(n, s, e, repr(not n.value), "bool const", fn)
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            (s1, e1), (s2, e2) = pos(n.args[0]), pos(n.args[1])
            if seg(n.args[0]) != seg(n.args[1]):
                add(n, s1, e2, b[s2:e2].decode() + b[e1:s2].decode() + b[s1:e1].decode(), "swap args", fn)
        if isinstance(n, ast.Call) and n.keywords and (n.keywords[-1].arg or n.keywords[-1]):
            k = n.keywords[-1]
            prev = n.args + [x.value for x in n.keywords[:-1]]
            if prev:
                add(n, pos(prev[-1])[1], pos(k.value)[1], "", "drop keyword", fn)
        if isinstance(n, ast.Attribute) and n.attr in ("T", "real", "imag"):
            s, e = pos(n)
            add(n, s, e, "(" + seg(n.value) + ")", "drop ." + n.attr, fn)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            s, e = pos(n)
            if isinstance(n, ast.AugAssign):
                add(n, s, e, "pass", "delete statement", fn)
                add(n, s, e, seg(n.target) + " = " + seg(n.value), "augmented -> plain", fn)
            elif isinstance(n, ast.Expr) or isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                add(n, s, e, "pass", "delete statement", fn)
        for c in ast.iter_child_nodes(n):
            visit(c, fn)
    for x in tree.body:
        visit(x, [])
    return out


RS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\b1\.0?\b", "1.25"), (r"\b2\.0?\b", "2.5"), (r"\b0\.5\b", "0.75"),
      (r"\b3\.0?\b", "3.5"), (r"\b4\.0?\b", "4.5"), (r"\b6\.0?\b", "6.5"), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
      (r" < ", " > "), (r" > ", " < "),
      (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r" \+= ", " = "), (r" -= ", " = "), (r"\.transpose\(\)", ""), (r"-1\.0", "1.0"), (r" \+ 1\b", ""), (r" - 1\b", ""),
      (r"\.adjoint\(\)", ""), (r" && ", " || "), (r" == ", " != "), (r"\.abs\(\)", "")]


def rs_mutants(rel):
    src = open(os.path.join(REPO, rel)).read()
    out, off, fn, intest = [], 0, "?", False
    for i, l in enumerate(src.split("\n")):
        n = len(l.encode()) + 1
        if "#[cfg(test)]" in l:
            intest = True
        m = re.search(r"\bfn (\w+)", l)
        if m:
            fn = m.group(1)
        code = l.split("//")[0]
        if not intest and code.strip() and "println" not in l and "assert" not in l and "fn " not in l and "panic!" not in l:
            for p, r in RS:
                for m in re.finditer(p, code):
                    s = off + len(code[:m.start()].encode())
                    out.append({"file": rel, "line": i + 1, "s": s, "e": s + len(m.group(0).encode()), "new": r, "what": "%s->%s" % (m.group(0), r), "func": [(fn, 0)]})
        off += n
    return out


def mutants(files):
    out = []
    for f in files:
        out += py_mutants(f) if f.endswith(".py") else rs_mutants(f)
    return out


def coverage():
    cov, cost = {}, {}
    d = os.environ.get("EVID", os.path.join(V, "evidence"))
    for f in os.listdir(d):
        if f.endswith(".json"):
            e = json.load(open(os.path.join(d, f)))
            p = e["property"]
            cost[p] = e["wall_s"]
            for x in e["coverage"]["functions_analysed"]:
                m = re.match(r"(\S+) \((.*):(\d+)\)", x)
                if m:
                    cov.setdefault((m.group(2), m.group(1).split(".")[-1]), set()).add(p)
            for r in e["coverage"]["rule_results"]:
                pass
    return cov, cost


def apply(m, root):
    p = os.path.join(root, m["file"])
    b = open(os.path.join(REPO, m["file"]), "rb").read()
    t = b[:m["s"]] + m["new"].encode() + b[m["e"]:]
    if m["file"].endswith(".py"):
        try:
            ast.parse(t)
        except SyntaxError:
            return None
    with open(p, "wb") as fp:
        fp.write(t)
    a, z = b.decode().split("\n"), t.decode().split("\n")
    return "%s -> %s" % (a[m["line"] - 1].strip()[:110], z[m["line"] - 1].strip()[:110])


def work(a):
    k, m, props = a
    root = "/tmp/automut/w%d" % k
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for d in ("ormatex_py", "src", "examples"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(root, d), ignore=shutil.ignore_patterns("__pycache__", "*.so"))
    try:
        diff = apply(m, root)
        if diff is None:
            return None
        res = []
        for p in props:
            try:
                r = subprocess.run(["nice", "-n", "12", "python3-vt", "-m", "ormacheck.run", "--property", p, "--root", root, "--no-evidence", "--jobs", "2"],
                                   cwd=V, capture_output=True, text=True, timeout=900)
                rc = r.returncode
                last = [l for l in r.stdout.splitlines() if l.startswith(p + ":")]
                res.append((p, rc, last[-1].split(": ", 1)[1] if last else r.stdout[-100:]))
            except subprocess.TimeoutExpired:
                res.append((p, "timeout", ""))
                continue
            if rc == 1:
                return (m, diff, p, res)
        return (m, diff, None, res)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("rest", nargs="+")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--only", default="")
    ap.add_argument("--props", default="")
    a = ap.parse_args()
    if a.cmd == "list":
        ms = mutants(a.rest)
        for m in ms:
            print(m["file"], m["line"], ".".join(f for f, _ in m["func"]), m["what"])
        print(len(ms))
        return
    out, files = a.rest[0], a.rest[1:]
    ms = [m for m in mutants(files) if a.only in ".".join(f for f, _ in m["func"])]
    random.Random(a.seed).shuffle(ms)
    if a.sample:
        ms = ms[:a.sample]
    cov, cost = coverage()
    jobs = []
    with open(out, "w") as fp:
        for k, m in enumerate(ms):
            if a.props:
                ps = a.props.split(",")
            else:
                ps = set()
                for f, _ in m["func"]:
                    ps |= cov.get((m["file"], f), set()) if f == m["func"][-1][0] or not ps else set()
                ps = sorted(ps, key=lambda p: cost.get(p, 1e9))
            if not ps:
                fp.write("UNCOVERED %s:%d %s [%s]\n" % (m["file"], m["line"], ".".join(f for f, _ in m["func"]), m["what"]))
                continue
            jobs.append((k, m, ps))
        fp.flush()
        caught = n = 0
        with cf.ThreadPoolExecutor(a.workers) as ex:
            for r in ex.map(work, jobs):
                if r is None:
                    continue
                m, diff, p, res = r
                n += 1
                if p:
                    caught += 1
                    fp.write("caught %s %s:%d %s\n" % (p, m["file"], m["line"], m["what"]))
                else:
                    fp.write("SURVIVED %s:%d %s [%s] %s\n    %s\n" % (m["file"], m["line"], ".".join(f for f, _ in m["func"]), m["what"], diff,
                                                                      "; ".join("%s=%s %s" % x for x in res)))
                fp.flush()
        fp.write("TOTAL %d caught %d\n" % (n, caught))


if __name__ == "__main__":
    main()
