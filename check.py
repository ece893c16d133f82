#!/opt/venv/bin/python
"""Decide one property:  check.py <id> [--tier quick|thorough] [--replay FILE]"""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import sys
import tempfile
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
_SCRATCH = tempfile.mkdtemp(prefix="symex-")
os.environ.setdefault("NUMBA_CACHE_DIR", os.path.join(_SCRATCH, "numba"))
os.environ.setdefault("MPLCONFIGDIR", os.path.join(_SCRATCH, "mpl"))
os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ.setdefault(v, "1")
warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)


def load_harnesses():
    for f in sorted(os.listdir(os.path.join(HERE, "harness"))):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("harness." + f[:-3])


def worker(conn, spec, pkgs, real, seed):
    from symex import engine, loader, solve
    import z3

    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except (ValueError, OSError):
        pass
    z3.set_param("memory_max_size", 4000)
    h, params, tier = spec
    o = dict(h["opts"])
    o.pop("weight", None)
    o.pop("warm", None)
    alt = (pkgs.get("missing"), loader.load_real_plain()) if o.pop("alt", False) else None
    budget = o.pop("budget", 60 if tier == "quick" else 400)
    if tier == "thorough":
        budget = o.pop("thorough_budget", max(budget, 400))
    else:
        o.pop("thorough_budget", None)
    known = [k[2] for k in known_findings() if k[0] == h["prop"] and k[1] == h["name"]]
    t = time.time()
    try:
        u = engine.Unit(h["prop"], h["name"], h["fn"], params, pkgs[h["numba"]], real, budget=budget, seed=seed, known=known, alt=alt, **o)
    except BaseException as e:  # noqa: BLE001
        conn.send(_dead(spec, f"engine error {type(e).__name__}: {e}"))
        conn.close()
        return
    try:
        u.run()
    except BaseException as e:  # noqa: BLE001
        import traceback

        u.inconclusive.append(f"{u.label()}: engine error {type(e).__name__}: {e}")
        if os.environ.get("SYMEX_DEBUG"):
            traceback.print_exc()
    conn.send(
        dict(
            label=u.label(), name=h["name"], params=params, paths=u.paths, infeasible=u.infeasible, transitions=u.transitions,
            obligations=u.obligations, violations=u.violations, known_hits=list(u.known_hits.values()), inconclusive=u.inconclusive,
            validated=u.validated, mismatch=u.mismatch, samples=u.samples_out, assumed=list(u.assumed),
            stats=dict(solve.STATS), funcs=sorted(loader.FUNCS), wall=time.time() - t,
        )
    )
    conn.close()


def run_units(specs, pkgs, real, seed, jobs, total_budget):
    ctx = mp.get_context("fork")
    results, running = [], []
    queue = list(specs)
    t0 = time.time()
    while queue or running:
        while queue and len(running) < jobs:
            spec = queue.pop(0)
            if time.time() - t0 > total_budget:
                results.append(_dead(spec, "not started: time budget of the check used up"))
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, spec, pkgs, real, seed), daemon=True)
            p.start()
            b.close()
            o = spec[0]["opts"]
            lim = (o.get("budget", 60) if spec[2] == "quick" else max(o.get("thorough_budget", 400), o.get("budget", 60))) + 60
            running.append((p, a, spec, time.time() + lim))
        still = []
        for p, a, spec, dl in running:
            if a.poll(0):
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append(_dead(spec, "worker died (memory?)"))
                p.join(5)
                a.close()
            elif not p.is_alive():
                results.append(_dead(spec, "worker died (memory?)"))
                a.close()
            elif time.time() > dl:
                p.kill()
                p.join(5)
                results.append(_dead(spec, "worker over its time limit"))
                a.close()
            else:
                still.append((p, a, spec, dl))
        running = still
        if running:
            time.sleep(0.02)
    return results


def _dead(spec, why):
    h, params, _ = spec
    lab = h["name"] + "(" + ",".join(f"{k}={v}" for k, v in params.items()) + ")"
    return dict(label=lab, name=h["name"], params=params, paths=0, infeasible=0, transitions=0, obligations=[], violations=[], known_hits=[],
                inconclusive=[f"{lab}: {why}"], validated=0, mismatch=[], samples=[], assumed=[], stats={}, funcs=[], wall=0)


def known_findings():
    out = []
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"known: property=(\S+) harness=(\S+) check=(.+?) \| (.*)", line)
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        code = _main(a, seed, t0)
    finally:
        shutil.rmtree(_SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def _main(a, seed, t0):
    from symex import loader, registry, engine

    # compiled dependencies must be imported before numba is replaced in the alias
    real = loader.load_real()
    load_harnesses()
    hs = registry.HARNESSES.get(a.prop, [])
    if not hs:
        print(f"no harness for {a.prop}")
        return 2
    if a.replay:
        return replay(a, hs, real)
    pkgs = {}
    err = None
    modes = {h["numba"] for h in hs}
    if any(h["opts"].get("alt") for h in hs):
        modes.add("missing")
        try:
            loader.load_real_plain()
        except BaseException as e:  # noqa: BLE001
            import traceback

            path = os.path.join(os.environ.get("VERIF_EVIDENCE", HERE + "/evidence"), f"replay-{a.prop}.json")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                json.dump(dict(property=a.prop, violations=[dict(check="import without numba", detail=traceback.format_exc())]), f)
            print(f"  import without numba fails: {type(e).__name__}: {e}")
            print(f"VIOLATION property={a.prop} replay={path}")
            return 1
    for mode in sorted(modes):
        try:
            pkgs[mode] = loader.load_alias("psym_" + mode, mode)
        except BaseException as e:  # noqa: BLE001
            err = f"alias load ({mode}): {type(e).__name__}: {e}"
            pkgs[mode] = None
    specs = []
    for h in hs:
        for p in h[a.tier]:
            if a.only and not re.search(a.only, h["name"] + str(p)):
                continue
            specs.append((h, p, a.tier))
    if err:
        print("INCONCLUSIVE: " + err)
    if any(h["opts"].get("warm") for h in hs):
        loader.warm_kernels(real)
    # hand out expensive units first
    specs.sort(key=lambda s: -s[0]["opts"].get("weight", 1))
    res = run_units([s for s in specs if pkgs[s[0]["numba"]] is not None], pkgs, real, seed, a.jobs,
                    700 if a.tier == "quick" else 3 * 3600)
    new = [dict(v, unit=r["label"], harness=r["name"], params=r["params"]) for r in res for v in r["violations"]]
    hits = {(r["name"], v["check"]) for r in res for v in r["known_hits"]}
    for k in known_findings():
        if k[0] == a.prop and (k[1], k[2]) in hits:
            print(f"KNOWN-FINDING: property={a.prop} {k[3]}")
    obl = [o for r in res for o in r["obligations"]]
    disc = sum(1 for _, s in obl if s == "discharged")
    inc = [x for r in res for x in r["inconclusive"]] + ([err] if err else [])
    mis = [x for r in res for x in r["mismatch"]]
    st = {}
    for r in res:
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
    funcs = sorted({f for r in res for f in r["funcs"]})
    cov = dict(
        states=sum(r["paths"] for r in res),
        transitions=sum(r["transitions"] for r in res) + sum(r["paths"] for r in res),
        traces_validated_against_impl=sum(r["validated"] for r in res),
        samples=[s for r in res for s in r["samples"]][:6],
        obligations=len(obl),
        discharged=disc,
        units=[dict(unit=r["label"], paths=r["paths"], infeasible=r["infeasible"], obligations=len(r["obligations"]), wall_s=round(r["wall"], 2)) for r in res],
        solver=dict(queries=st.get("queries", 0), unsat=st.get("unsat", 0), sat=st.get("sat", 0), unknown=st.get("unknown", 0), time_s=round(st.get("time", 0.0), 2)),
        functions_encoded=funcs,
        inconclusive=inc,
        encoding_mismatches=mis,
        exhaustive=not inc and not mis,
        explanation="states: symbolic path ends (each stands for all inputs that drive the code down that path); transitions: branch edges taken by the path explorer plus one per path end.",
    )
    doc = [re.sub(r"\s+", " ", h["fn"].__doc__ or "").strip() for h in hs]
    ev = dict(
        property=a.prop, tier=a.tier, seed=seed, level="model_checking", coverage=cov,
        assumptions=["real arithmetic (floating-point rounding is outside the claim); inputs range over the boxes and structural sizes listed per unit"]
        + [f"{h['name']}: {d}" for h, d in zip(hs, doc) if d]
        + sorted({x for r in res for x in r["assumed"]}),
        wall_s=round(time.time() - t0, 2), violations=len(new),
    )
    os.makedirs(os.path.join(os.environ.get("VERIF_EVIDENCE", HERE + "/evidence")), exist_ok=True)
    with open(os.path.join(os.environ.get("VERIF_EVIDENCE", HERE + "/evidence"), a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if a.v:
        for r in res:
            bad = [o for o in r["obligations"] if o[1] != "discharged"]
            print(f"  {r['label']}: paths={r['paths']} infeas={r['infeasible']} obl={len(r['obligations'])} bad={len(bad)} val={r['validated']} {r['wall']:.1f}s q={r['stats'].get('queries')} zt={r['stats'].get('time', 0):.1f}")
    print(f"{a.prop} [{a.tier}] units={len(res)} paths={cov['states']} obligations={len(obl)} discharged={disc} "
          f"validated={cov['traces_validated_against_impl']} queries={cov['solver']['queries']} solver={cov['solver']['time_s']}s wall={ev['wall_s']}s")
    for x in inc[:20]:
        print("INCONCLUSIVE: " + x)
    for x in mis[:20]:
        print("ENCODING-MISMATCH: " + x)
    if new:
        v = new[0]
        path = os.path.join(os.environ.get("VERIF_EVIDENCE", HERE + "/evidence"), f"replay-{a.prop}.json")
        with open(path, "w") as f:
            json.dump(dict(property=a.prop, violations=new), f, indent=1, default=str)
        for w in new[:5]:
            print(f"  {w['unit']}: {w['check']}: {w['detail']} [{w['found_by']}] inputs={str(w['inputs'])[:600]} choices={w['choices']}")
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    return 0


def replay(a, hs, real):
    """Re-run recorded counterexamples on the real code."""
    from symex import engine

    data = json.load(open(a.replay))
    bad = 0
    for v in data["violations"]:
        h = [h for h in hs if h["name"] == v["harness"]][0]
        u = engine.Unit(a.prop, h["name"], h["fn"], v["params"], None, real)
        r = u.replay(v["inputs"], v["choices"])
        print(v["unit"], "failures:", r["failures"], "exception:", r["exception"])
        bad += bool(r["failures"] or r["exception"])
    return 1 if bad else 0


if __name__ == "__main__":
    main()
