"""Confirms a planted bug in scratch copies (not used by any check).

plant.py SPEC.py [ID...]: SPEC defines bugs = [dict(id, property, needs, breaks, edits=[(file,
old, new)], demo=python source)]; each is built and tested in a scratch copy of /repo, its
demonstration run on both trees, its property's check run against it, and, when everything is
confirmed, kept as /verif/seeded/<id>/."""

import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def plant(b, tests=True, kind="bug"):
    d = f"/tmp/plant/{b['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tree = d + "/repo"
    sh(f"cp -a /repo {tree}")
    out = []
    for f, old, new in b["edits"]:
        p = f"{tree}/src/pystrata/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            return b, f"edit of {f} matches {s.count(old)} times: {old[:50]!r}"
        open(p, "w").write(s.replace(old, new))
    patch = sh(f"git -C {tree} diff").stdout
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.py", "w").write(b.get("demo", ""))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexport MPLCONFIGDIR=$(mktemp -d) NUMBA_CACHE_DIR=$(mktemp -d)\ntrap \'rm -rf "$MPLCONFIGDIR" "$NUMBA_CACHE_DIR"\' EXIT\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    if kind == "bug":
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        if r.returncode != 0:
            return b, "demo fails on the clean tree:\n" + r.stdout[-1500:]
        r = sh(f"bash {d}/demo.sh", cwd=tree)
        if r.returncode == 0:
            return b, "demo passes with the change"
        out.append("demo: " + r.stdout.strip().splitlines()[-1][:150])
    if tests:
        t = open("/opt/vp/test.sh").read().replace("/repo", tree).replace("PYTHONPATH=/opt/vp/support", f"PYTHONPATH=/opt/vp/support:{tree}/src")
        open(d + "/test.sh", "w").write(t)
        sh(f"bash {d}/test.sh {d}/out.json")
        got = set(json.load(open(d + "/out.json"))["passed"])
        lost = set(BASE["stable"]) - got
        if lost:
            return b, f"{len(lost)} stable tests fail: {sorted(lost)[:3]}"
        out.append("tests pass")
    props = b["property"].split() + b.get("also", "").split()
    for p in props:
        r = sh(f"VERIF_REPO={tree} VERIF_EVIDENCE={d} {HERE}/run.sh {p}")
        line = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "INCONCL", "ENCOD"))]
        out.append(f"{p}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 else 'quiet'} {line[0][:110] if line and r.returncode != 1 else ''}")
    if kind == "bug":
        k = f"{HERE}/seeded/{b['id']}"
        os.makedirs(k, exist_ok=True)
        for f in ("patch.diff", "demo.sh", "demo.py"):
            shutil.copy(f"{d}/{f}", k)
        json.dump({"property": b["property"].split()[0], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(k + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
    return b, "; ".join(out)


if __name__ == "__main__":
    spec = runpy.run_path(sys.argv[1])
    kind = spec.get("kind", "bug")
    tests = "--no-tests" not in sys.argv
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    bugs = [b for b in spec["bugs"] if not ids or b["id"] in ids]
    with cf.ThreadPoolExecutor(3) as ex:
        for b, r in ex.map(lambda b: plant(b, tests, kind), bugs):
            print(f"{b['id']} [{b['property']}] {r}", flush=True)
