"""Runs every change of seeded/ against its property's check, in scratch copies of /repo, and
writes tools/caught.json (the table in DESIGN.md; not used by any check).

caught.py [--tests] [ID...]"""

import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = HERE + "/tools/caught.json"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(b, tests):
    d = f"/tmp/caught/{b}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tree = d + "/repo"
    k = f"{HERE}/seeded/{b}"
    meta = json.load(open(k + "/meta.json"))
    res = {}
    try:
        sh(f"cp -a /repo {tree}")
        if sh(f"git -C {tree} apply {k}/patch.diff").returncode:
            return b, dict(error="patch does not apply")
        res["demo_clean"] = sh(f"bash {k}/demo.sh", cwd="/repo").returncode
        res["demo_changed"] = sh(f"bash {k}/demo.sh", cwd=tree).returncode
        if tests:
            t = open("/opt/vp/test.sh").read().replace("/repo", tree).replace("PYTHONPATH=/opt/vp/support", f"PYTHONPATH=/opt/vp/support:{tree}/src")
            open(d + "/test.sh", "w").write(t)
            sh(f"bash {d}/test.sh {d}/out.json")
            lost = set(BASE["stable"]) - set(json.load(open(d + "/out.json"))["passed"])
            res["tests_lost"] = sorted(lost)
        p = meta["property"]
        r = sh(f"VERIF_SEED=1 VERIF_REPO={tree} VERIF_EVIDENCE={d} timeout 900 {HERE}/run.sh {p}")
        line = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        res["exit"] = r.returncode
        ev = f"{d}/replay-{p}.json"
        v = json.load(open(ev)).get("violations") if os.path.exists(ev) else None
        if line:
            first = (v or [{}])[0] if isinstance(v, list) else {}
            res["caught_by"] = (first.get("unit") or "") + (": " + first["check"] if first.get("check") else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return b, res


if __name__ == "__main__":
    tests = "--tests" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(HERE + "/seeded"))
    out = json.load(open(OUT)) if os.path.exists(OUT) else {}
    with cf.ThreadPoolExecutor(3) as ex:
        for b, r in ex.map(lambda b: one(b, tests), ids):
            print(b, r, flush=True)
            keep = {k: v for k, v in out.get(b, {}).items() if k == "tests_lost"}
            out[b] = keep | r
            json.dump(out, open(OUT, "w"), indent=1, sort_keys=True)
