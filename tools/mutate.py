#!/usr/bin/env python3
"""Development aid: small syntactic changes of functions the checks encode, to find what no
check notices.  mutate.py OUT.jsonl [--files a.py,b.py] [--sample N] [--workers N] [--funcs RE]
Works on scratch copies of /repo only."""

import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/pystrata"


def coverage():
    cov = {}
    for f in sorted(os.listdir(os.path.join(HERE, "evidence"))):
        if re.fullmatch(r"C\d+\.json", f):
            e = json.load(open(os.path.join(HERE, "evidence", f)))
            for fn in e["coverage"]["functions_encoded"]:
                cov.setdefault(fn, set()).add(e["property"])
    return cov


def seg(src, n):
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset, b


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
SWAP = {"minimum": "maximum", "maximum": "minimum", "min": "max", "max": "min", "argmin": "argmax", "real": "imag", "cos": "sin", "append": "insert"}


def mutants(fname):
    src = open(os.path.join(SRC, fname)).read()
    tree = ast.parse(src)
    out = []

    def text(n):
        a, b, s = seg(src, n)
        return s[a:b].decode()

    def add(fn, n, new, op):
        a, b, s = seg(src, n)
        out.append(dict(file=fname, func=fn, line=n.lineno, op=op, old=s[a:b].decode(), new=new, span=(a, b)))

    def walk(n, fn, doc=None):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                f = (fn + "." if fn else "") + c.name
                body = c.body
                if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
                    body = body[1:]
                for d in [*getattr(getattr(c, "args", None), "defaults", [])]:
                    visit(d, f)
                for b in body:
                    visit(b, f)
                    walk(b, f) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else None
            elif not fn:
                continue

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if fn:
                m = ast.Module(body=[n], type_ignores=[])
                walk(m, fn)
            return
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, (ast.AugAssign,)):
            add(fn, n, "pass", "delete")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(fn, n, "pass", "delete")
        if isinstance(n, ast.If):
            add(fn, n.test, "not (" + text(n.test) + ")", "negate")
        if isinstance(n, ast.IfExp):
            add(fn, n, f"({text(n.orelse)})", "else")
            add(fn, n, f"({text(n.body)})", "then")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(fn, n, f"({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])})", "compare")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(fn, n, f"(({text(n.left)}) {BIN[type(n.op)]} ({text(n.right)}))", "binop")
        if isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            add(fn, n, "(" + j.join(f"({text(v)})" for v in n.values) + ")", "boolop")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(fn, n, f"({text(n.operand)})", "unary")
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            v = n.value
            add(fn, n, repr(v + 1) if isinstance(v, int) else repr(v * 1.02) if v else "0.01", "const")
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(fn, n, repr(not n.value), "bool")
        if isinstance(n, ast.Slice):
            if n.lower is not None or n.upper is not None:
                add(fn, n, ":", "slice")
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in SWAP and f.attr != "append":
                add(fn, f, text(f.value) + "." + SWAP[f.attr], "swap")
            if isinstance(f, ast.Attribute) and f.attr in ("abs", "conj", "sqrt", "copy", "deepcopy", "asarray") and len(n.args) == 1:
                add(fn, n, f"({text(n.args[0])})", "unwrap")
            for k in n.keywords:
                if k.arg:
                    a, b, s = seg(src, n)
                    t = s[a:b].decode()
                    kt = f"{k.arg}={text(k.value)}"
                    i = t.find(kt)
                    if i > 0:
                        t2 = (t[:i].rstrip() + t[i + len(kt):]) if not t[:i].rstrip().endswith(",") else t[:i].rstrip()[:-1] + t[i + len(kt):]
                        t2 = re.sub(r"\(\s*,", "(", t2)
                        add(fn, n, t2, f"drop {k.arg}")
        for c in ast.iter_child_nodes(n):
            visit(c, fn)

    walk(tree, "")
    good = []
    b = src.encode()
    for m in out:
        a, e = m["span"]
        new = (b[:a] + m["new"].encode() + b[e:]).decode()
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        m["text"] = new
        good.append(m)
    return good


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="propagation.py,site.py,motion.py,variation.py,output.py,tools.py,generic.py,logic_tree.py")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--workers", type=int, default=3)
    ap.add_argument("--funcs", default="")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--redo", help="rerun what survived in this file")
    a = ap.parse_args()
    cov = coverage()
    ms = []
    for f in a.files.split(","):
        for m in mutants(f):
            key = f"{f}:{m['func']}"
            m["props"] = sorted(cov.get(key, ()), key=lambda p: sum(p in s for s in cov.values()))
            if m["props"] and (not a.funcs or re.search(a.funcs, key)):
                ms.append(m)
    done = set()
    ident = lambda m: (m["file"], m["line"], m["op"], m["old"], m["new"])  # noqa: E731
    if a.redo:
        keep = {ident(r) for r in map(json.loads, open(a.redo)) if r["result"] != "caught"}
        ms = [m for m in ms if ident(m) in keep]
    if os.path.exists(a.out):
        done = {ident(r) for r in map(json.loads, open(a.out))}
    random.Random(a.seed).shuffle(ms)
    if a.sample:
        ms = ms[: a.sample]
    ms = [m for m in ms if ident(m) not in done]
    print(len(ms), "mutants")
    if a.list:
        return
    lock = threading.Lock()
    local = threading.local()
    dirs = []

    def tree():
        if not hasattr(local, "d"):
            local.d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
            subprocess.run(["cp", "-a", "/repo/.", local.d], check=True)
            dirs.append(local.d)
        return local.d

    def job(m):
        d = tree()
        p = os.path.join(d, "src/pystrata", m["file"])
        orig = open(os.path.join(SRC, m["file"])).read()
        open(p, "w").write(m["text"])
        r = dict(file=m["file"], func=m["func"], line=m["line"], op=m["op"], old=m["old"], new=m["new"], result="survived", notes=[])
        try:
            for prop in m["props"]:
                try:
                    o = subprocess.run(["./run.sh", prop], cwd=HERE, env={**os.environ, "VERIF_REPO": d, "VERIF_EVIDENCE": d + "/ev"}, capture_output=True, text=True, timeout=300)
                except subprocess.TimeoutExpired:
                    r["notes"].append(f"{prop}: timeout")
                    continue
                if o.returncode == 1 and "VIOLATION" in o.stdout:
                    r["result"], r["by"] = "caught", prop
                    break
                bad = [l for l in o.stdout.split("\n") if l.startswith(("INCONCL", "MISM", "encoding"))]
                if bad or o.returncode:
                    r["notes"].append(f"{prop}: rc={o.returncode} {bad[0] if bad else o.stderr[-200:]}")
            if r["result"] != "caught" and r["notes"]:
                r["result"] = "inconclusive"
        finally:
            open(p, "w").write(orig)
        with lock:
            open(a.out, "a").write(json.dumps(r) + "\n")

    with cf.ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(job, ms))
    for d in dirs:
        shutil.rmtree(d)


if __name__ == "__main__":
    main()
