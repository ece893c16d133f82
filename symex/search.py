"""Search for input values on which a conjunction of encoded conditions holds.

Only used when the solver has given no model for a query: a candidate found here
is a hint, which counts once the real code confirms it.  An obligation is never
discharged by it."""

import time

import numpy as np

from . import term as T


def _order(roots):
    seen, out = set(), []
    stack = [(r, False) for r in roots if isinstance(r, T.Sym)]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        stack.extend((a, False) for a in n.args if isinstance(a, T.Sym))
    return out


_BIN = {"add": "+", "cadd": "+", "mul": "*", "cmul": "*", "div": "/", "cdiv": "/"}


def ites(roots):
    """conditions selected on below the roots"""
    return list({n.args[0].id: n.args[0] for n in _order(roots) if n.op in ("ite", "cite")}.values())


class Compiled:
    """Vectorised evaluation of the distances of conditions from being true."""

    def __init__(self, conds, names):
        roots = [c for c, _ in conds]
        nodes = _order(roots)
        need = {}
        for n in nodes:
            need[n.id] = n
        src = ["def f(X):"]
        k = {n: i for i, n in enumerate(names)}

        def ref(a):
            if isinstance(a, T.Sym):
                return f"t{a.id}"
            return repr(complex(a)) if isinstance(a, complex) else repr(float(a)) if not isinstance(a, bool) else repr(a)

        for n in nodes:
            a = [ref(x) for x in n.args] if n.op not in ("var", "const", "cconst", "bconst") else n.args
            op = n.op
            if op == "var":
                e = f"X[{k[a[0]]}]"
            elif op == "const":
                e = f"np.float64({float(a[0])!r})"
            elif op == "cconst":
                e = f"np.complex128(complex({float(a[0])!r},{float(a[1])!r}))"
            elif op == "bconst":
                e = f"np.bool_({bool(a[0])})"
            elif op in _BIN:
                e = f"{a[0]}{_BIN[op]}{a[1]}"
            elif op in ("ite", "cite"):
                e = f"np.where({a[0]},{a[1]},{a[2]})"
            elif op == "sqrt":
                e = f"np.sqrt(np.maximum({a[0]},0.0))"
            elif op == "csqrt":
                e = f"np.sqrt({a[0]}+0j)"
            elif op in ("exp", "cexp"):
                e = f"np.exp({a[0]})"
            elif op == "log":
                e = f"np.log({a[0]})"
            elif op == "mk":
                e = f"({a[0]}+1j*{a[1]})"
            elif op == "re":
                e = f"np.real({a[0]})"
            elif op == "im":
                e = f"np.imag({a[0]})"
            elif op == "conj":
                e = f"np.conj({a[0]})"
            elif op == "le":
                e = f"({a[0]}<={a[1]})"
            elif op in ("eq", "ceq"):
                e = f"({a[0]}=={a[1]})"
            elif op == "not":
                e = f"np.logical_not({a[0]})"
            elif op == "and":
                e = "np.logical_and.reduce(np.broadcast_arrays(" + ",".join(a) + "))" if len(a) > 1 else a[0]
            else:
                raise T.Unsupported(f"search {op}")
            src.append(f" t{n.id}={e}")
        dist = []
        for c, pol in conds:
            dist.append(self.dist(c, pol))
        src.append(" return (" + "+".join(dist) + ")+np.zeros(X.shape[1])")
        ns = {"np": np, "S": _s, "B": lambda x: np.where(x, 0.0, 1.0)}
        exec(compile("\n".join(src), "<search>", "exec"), ns)  # noqa: S102
        self.f = ns["f"]

    def dist(self, n, pos):
        if n.op == "bconst":
            return f"B({bool(n.args[0]) is pos})"
        if n.op == "not":
            return self.dist(n.args[0], not pos)
        if n.op == "and":
            parts = [self.dist(a, pos) for a in n.args]
            if pos:
                return "(" + "+".join(parts) + ")"
            r = parts[0]
            for p in parts[1:]:
                r = f"np.minimum({r},{p})"
            return r
        a, b = (f"t{x.id}" for x in n.args)
        if n.op == "le":
            d = f"S({a}-{b},t{n.id})" if pos else f"S({b}-{a},~t{n.id})"
            return d
        if n.op in ("eq", "ceq"):
            return f"S(np.abs({a}-{b}),t{n.id})" if pos else f"B(~t{n.id})"
        return f"B(t{n.id})" if pos else f"B(~t{n.id})"

    def __call__(self, X):
        with np.errstate(all="ignore"):
            d = np.asarray(self.f(X), dtype=float)
        return np.where(np.isfinite(d), d, np.inf)


def _s(d, ok):
    return np.where(ok, 0.0, np.arcsinh(np.abs(np.real(d)) * 1e6) + 1e-3)


class Box:
    def __init__(self, vs):
        self.names = list(vs)
        lo = np.array([float(a) for a, _ in vs.values()])
        hi = np.array([float(b) for _, b in vs.values()])
        self.lo, self.hi = lo, hi
        lo2, hi2 = np.maximum(lo, -1e9), np.minimum(hi, 1e9)
        self.log = (lo > 0) & (hi / np.where(lo > 0, lo, 1) > 20)
        self.a = np.where(self.log, np.log(np.where(self.log, lo, 1)), lo2)
        self.b = np.where(self.log, np.log(np.where(self.log, hi2, 1)), hi2)

    def x(self, u):
        """unit cube to values, (n_vars, n_points)"""
        v = self.a[:, None] + (self.b - self.a)[:, None] * u
        v = np.where(self.log[:, None], np.exp(np.minimum(v, 50)), v)
        return np.clip(v, self.lo[:, None], self.hi[:, None])

    def u(self, x):
        v = np.where(self.log, np.log(np.maximum(x, 1e-300)), x)
        w = self.b - self.a
        return np.clip((v - self.a) / np.where(w > 0, w, 1), 0, 1)


def find(conds, vs, starts=(), seed=0, budget=2.0, pop=160, stop=None):
    """Points with every condition (cond, polarity) true: list of dicts (maybe empty)."""
    if not vs:
        return []
    box = Box(vs)
    try:
        f = Compiled(conds, box.names)
    except (T.Unsupported, KeyError, MemoryError, RecursionError):
        return []
    rng = np.random.default_rng(seed)
    n = len(box.names)
    t0 = time.time()
    out = []
    while time.time() - t0 < budget and len(out) < 3:
        u = rng.random((n, pop))
        for i, e in enumerate(starts[: pop // 2]):
            u[:, i] = box.u(np.array([e.get(k, 0.5) for k in box.names], float))
        # points at the ends of the ranges matter
        ends = rng.random((n, pop)) < 0.06
        u[:, pop // 2 :] = np.where(ends, np.round(u), u)[:, pop // 2 :]
        d = f(box.x(u))
        stall, best = 0, np.inf
        while time.time() - t0 < budget:
            if d.min() == 0:
                i = int(d.argmin())
                out.append(dict(zip(box.names, box.x(u[:, i : i + 1])[:, 0].tolist())))
                d[i] = np.inf
                zeros = np.flatnonzero(d == 0)[:2]
                out += [dict(zip(box.names, box.x(u[:, j : j + 1])[:, 0].tolist())) for j in zeros]
                break
            # differential evolution, with a share of local steps around the best
            r = [rng.integers(0, pop, pop) for _ in range(3)]
            g = int(d.argmin())
            F = rng.uniform(0.3, 0.9, pop)
            v = u[:, r[0]] + F * (u[:, r[1]] - u[:, r[2]])
            loc = rng.random(pop) < 0.4
            step = 10.0 ** rng.uniform(-6, -0.5, pop)
            v = np.where(loc, u[:, [g]] + step * rng.standard_normal((n, pop)), v)
            keep = rng.random((n, pop)) < rng.choice([0.2, 0.6, 0.9], pop)
            v = np.where(keep, u, v)
            v = np.where((v < 0) | (v > 1), rng.random((n, pop)) * 0.02 + (v > 1) * 0.98, v)
            v = np.clip(v, 0, 1)
            dv = f(box.x(v))
            better = dv <= d
            u = np.where(better, v, u)
            d = np.where(better, dv, d)
            m = d.min()
            stall = stall + 1 if m >= best - 1e-9 else 0
            best = min(best, m)
            if stall > 80:
                break
    return out
