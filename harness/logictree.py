"""Logic trees (C28)."""

import itertools

from ._common import harness

# alternatives of the nodes: values, and conditions by name (see `condition`)
NODES = {
    "two": [("A", ["x", "y"]), ("B", [1, 2])],
    "three": [("A", ["x", "y"]), ("B", [0.1, 0.5]), ("C", [1, 2])],
    "repeat": [("A", ["x", "y"]), ("B", [0.1, 0.5]), ("C", [1, 1, 2])],
    "first": [("C", [1, 2, 1]), ("A", ["x", "y"]), ("B", [0.1, 0.5])],
    "wide": [("A", ["x", "y", "z"]), ("B", [0.1, 0.5]), ("C", [1, 2]), ("D", [True, False])],
}
CONDITIONS = {
    "none": lambda t: {},
    "text": lambda t: {"A": "x"},
    "list": lambda t: {"A": ["y", "z"]},
    "number": lambda t: {"B": t},
    "both": lambda t: {"A": "x", "B": t},
}


def matches(ctx, ref, value):
    if isinstance(ref, list):
        return any(r == value for r in ref)
    if isinstance(ref, str):
        return ref == value
    # numbers agree to 1e-5 of the value (the harness keeps away from the edge of it)
    return bool(ctx.np.abs(ref - value) <= 1.5e-5 * abs(value))


def number(ctx, name, values, where=None):
    """A number equal to one of `values` up to a small relative difference, or far from all."""
    where = ctx.choice(f"{name} where", list(range(len(values) + 1))) if where is None else where
    if where < len(values):
        return values[where] * (1 + 1e-6 * ctx.real(f"{name} off", -9.0, 9.0))
    t = ctx.real(name, 0.0, 1.0)
    for v in values:
        ctx.assume(ctx.np.abs(t - v) >= 2e-5)
    return t


@harness("C28", quick=[dict(shape="two"), dict(shape="three", exc=True), dict(shape="three", req=True), dict(shape="repeat", req=True), dict(shape="repeat", exc=True), dict(shape="first", req=True)],
         thorough=[dict(shape="two"), dict(shape="three", req=True, exc=True), dict(shape="repeat", req=True, exc=True), dict(shape="wide", req=True), dict(shape="wide", exc=True), dict(shape="first", req=True, exc=True)],
         budget=150, max_paths=6000, thorough_budget=900)
def branches(ctx, shape, req=False, exc=False):
    """arbitrary non-negative weights and numeric conditions (not within a factor two of the
    tolerance to which numbers are compared): iteration yields exactly the combinations in which
    every alternative has a positive weight, finds all it requires and not all it excludes, each
    combination of values once, in order; its weight is the product of the weights of the
    alternatives. With conditions, only the weights of the last node may vanish."""
    L = ctx.module("logic_tree")
    spec = []
    names = list(CONDITIONS)
    t = number(ctx, "t", [0.1, 0.5]) if req or exc else None
    nodes = []
    for k, (name, values) in enumerate(NODES[shape]):
        alts = []
        for i, v in enumerate(values):
            last = name == "C"
            w = ctx.real(f"w{k}{i}", 0.0 if not (req or exc) or last and i == 0 else 0.01, 1.0)
            r = CONDITIONS[ctx.choice(f"req{i}", names if i == 0 else names[:2] + names[3:4])](t) if req and last and i < 2 else {}
            e = CONDITIONS[ctx.choice(f"exc{i}", names)](t) if exc and last and i == len(values) - 2 else {}
            alts.append((v, w, r, e))
        spec.append((name, alts))
        nodes.append(L.Node(name, [L.Alternative(v, w, r, e, {"i": i}) for i, (v, w, r, e) in enumerate(alts)]))
    tree = L.LogicTree(nodes)
    want, seen = [], []
    for combo in itertools.product(*[range(len(a)) for _, a in spec]):
        alts = [spec[k][1][i] for k, i in enumerate(combo)]
        if not all(bool(a[1] > 0) for a in alts):
            continue
        vals = {spec[k][0]: a[0] for k, a in enumerate(alts)}
        ok = True
        for _, _, r, e in alts:
            if r and not all(matches(ctx, x, vals[n]) for n, x in r.items()):
                ok = False
            if e and all(matches(ctx, x, vals[n]) for n, x in e.items()):
                ok = False
        if ok and vals not in seen:
            seen.append(vals)
            want.append((vals, combo, alts))
    got = list(tree)
    ctx.check("count", len(got) == len(want))
    names = [n for n, _ in spec]
    ctx.check("values", [b.as_dict() for b in got] == [v for v, _, _ in want])
    ctx.check("order", all(list(b.as_dict()) == names for b in got))
    ctx.check("nodes", all(b.value(n) == v[n] and b[n].name == n and n in b and b[n].params == {"i": c[k]}
                           for b, (v, c, _) in zip(got, want) for k, n in enumerate(names)))
    for b, (vals, combo, alts) in zip(got, want):
        w = 1
        for k, a in enumerate(alts):
            w = w * a[1]
        ctx.check_eq("weight", b.weight, w)


@harness("C28", quick=[dict(sizes=(2, 2)), dict(sizes=(3, 2)), dict(sizes=(2, 3, 2)), dict(sizes=(2, 2, 2, 2))], thorough=[dict(sizes=(2, 2)), dict(sizes=(3, 2)), dict(sizes=(2, 3, 2)), dict(sizes=(3, 3, 3))], budget=100, max_paths=3000)
def total(ctx, sizes):
    """without conditions, weights of the branches add up to one when those of every node do"""
    L = ctx.module("logic_tree")
    nodes = []
    for k, n in enumerate(sizes):
        w = ctx.reals(f"w{k}", n - 1, 0.0, 1.0)
        last = 1 - sum(w)
        ctx.assume(last >= 0)
        nodes.append(L.Node(f"n{k}", [L.Alternative(i, x) for i, x in enumerate(w + [last])]))
    ctx.check_eq("sum", sum((b.weight for b in L.LogicTree(nodes)), 0), 1)


@harness("C28", quick=[dict()])
def lookup(ctx):
    """nodes are found by name, alternatives by value (numbers within the tolerance), trees built
    from dictionaries equal those built from objects, plain values weigh one"""
    L = ctx.module("logic_tree")
    w = ctx.reals("w", 2, 0.0, 1.0)
    v = number(ctx, "v", [0.2, 0.7])
    d = [dict(name="A", alts=[dict(value=0.2, weight=w[0]), dict(value=0.7, weight=w[1], requires={"B": "q"}, excludes={"B": ["r"]}, params={"p": 1})]),
         dict(name="B", alts=[dict(value="q"), dict(value="r")])]
    t = L.LogicTree.from_list(d)
    ctx.check("node", t["A"] is t.nodes[0] and t["B"] is t.nodes[1] and t["C"] is None)
    ctx.check("names", [n.name for n in t.nodes] == ["A", "B"] and t["A"].options == (0.2, 0.7) and len(t["A"]) == 2)
    a = t["A"][1]
    ctx.check("alternative", a.value == 0.7 and a.requires == {"B": "q"} and a.excludes == {"B": ["r"]} and a.params == {"p": 1})
    ctx.check_eq("weight", a.weight, w[1])
    ctx.check("default", t["B"][0].weight == 1 and t["B"].by_value("r") is t["B"][1] and t["B"].by_value("s") is None)
    r = L.Realization("n", v)
    ctx.check("realisation", r.weight == 1 and r.name == "n" and r.value is v and not r.params)
    n = L.Node("N", ["a", L.Alternative("b", 2.0)])
    ctx.check("plain", [(x.value, x.weight) for x in n.alts] == [("a", 1.0), ("b", 2.0)])
    f = t["A"].by_value(v)
    close = [bool(ctx.np.abs(x - v) <= 1.5e-5 * x) for x in (0.2, 0.7)]
    ctx.check("by number", f is (t["A"][0] if close[0] else t["A"][1] if close[1] else None))


@harness("C28", quick=[dict(req="text", exc="number"), dict(req="both", exc="list"), dict(req="number", exc="both")],
         thorough=[dict(req=r, exc=e) for r in CONDITIONS for e in CONDITIONS], budget=60, max_paths=3000)
def validity(ctx, req, exc):
    """one alternative with conditions, branches of arbitrary alternatives: the alternative, its
    realisation and the tree agree on whether a branch is valid"""
    L = ctx.module("logic_tree")
    t = number(ctx, "t", [0.1, 0.5])
    r, e = CONDITIONS[req](t), CONDITIONS[exc](t)
    nodes = [L.Node(n, [L.Alternative(v) for v in vs]) for n, vs in NODES["three"][:2]]
    nodes.append(L.Node("C", [L.Alternative(1, 0.5, r, e), L.Alternative(2, 0.5)]))
    tree = L.LogicTree(nodes)
    for reals in itertools.product(*nodes):
        b = L.Branch({x.name: x for x in reals})
        v = b.as_dict()
        own = not (r and not all(matches(ctx, x, v[n]) for n, x in r.items())) and not (e and all(matches(ctx, x, v[n]) for n, x in e.items()))
        ctx.check(f"alternative {v}", bool(nodes[2][0].is_valid(b)) == own and bool(nodes[2][1].is_valid(b)))
        ctx.check(f"tree {v}", bool(tree.is_valid(b)) == (own or v["C"] == 2))


@harness("C28", quick=[dict()])
def from_file(ctx):
    """trees read from JSON files, compressed or not, have every number of the file"""
    import gzip
    import json
    import os
    import tempfile

    from .files import parse_with_tokens

    L = ctx.module("logic_tree")
    (wt, w), (vt, v), (ct, c) = ctx.token("w", 0.01, 1.0), ctx.token("v", 0.01, 5.0), ctx.token("c", 0.01, 5.0)
    text = ('[{"name": "A", "alts": [{"value": %s, "weight": %s}, {"value": "x"}]}, {"name": "B", "alts": [{"value": 1, "requires": '
            '{"A": %s}, "params": {"p": [%s]}}, {"value": 2, "excludes": {"A": "x"}}]}]' % (vt, wt, ct, ct))
    if ctx.mode == "sym":
        ctx.patch(json, "load", lambda f, **k: parse_with_tokens(ctx, f.read(), k))
        ctx.patch(json, "loads", lambda s, **k: parse_with_tokens(ctx, s, k))
    zipped = ctx.flag("gzip")
    with tempfile.TemporaryDirectory(prefix="symex-") as d:
        p = os.path.join(d, "tree.json" + (".gz" if zipped else ""))
        with (gzip.open(p, "wt") if zipped else open(p, "w")) as f:
            f.write(text)
        t = L.LogicTree.from_json(p)
    ctx.check("names", [n.name for n in t.nodes] == ["A", "B"] and [len(n) for n in t.nodes] == [2, 2])
    a, b = t["A"], t["B"]
    ctx.check_eq("numbers", [a[0].value, a[0].weight, b[0].requires["A"], b[0].params["p"][0]], [v, w, c, c])
    ctx.check("fields", a[1].value == "x" and a[1].weight == 1 and b[1].excludes == {"A": "x"} and b[0].excludes == {} and list(b.options) == [1, 2])
    x = a.to_xarray("dim", "weights")
    ctx.check("array", x.dims == ("dim",) and x.name == "weights" and len(x) == 2)
    ctx.check_eq("array values", [x.values[0], x.values[1]], [w, 1])
