"""Path exploration, obligations, counterexample replay and reporting."""

import importlib
import json
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import loader, search, solve, symnp, term as T
from .term import Sym, SReal, SCplx, SBool, Unsupported


class Infeasible(BaseException):
    """The path's assumptions cannot hold."""


class AssumptionFailed(BaseException):
    """Concrete run outside the harness's assumptions."""


class Violated(BaseException):
    """A violation was reproduced."""


class Stop(BaseException):
    """Unit budget used up."""


def _flat(x):
    """Flatten a value into a list of scalars."""
    if isinstance(x, np.ndarray):
        return list(x.reshape(-1)) if x.dtype != object else list(np.asarray(x.view(np.ndarray)).reshape(-1))
    if isinstance(x, (list, tuple)):
        r = []
        for e in x:
            r.extend(_flat(e))
        return r
    return [x]


def _shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        return (len(x),) + (_shape(x[0]) if len(x) else ())
    return ()


class Base:
    """API shared by the symbolic and the concrete context."""

    tol = 1e-6

    def check_eq(self, name, a, b, rtol=None, atol=0.0, **k):
        if _shape(a) != _shape(b) and _shape(a) and _shape(b):
            self._fail_shape(name, _shape(a), _shape(b))
            return
        fa, fb = _flat(a), _flat(b)
        if len(fa) != len(fb):
            if len(fa) == 1:
                fa = fa * len(fb)
            elif len(fb) == 1:
                fb = fb * len(fa)
        for i, (x, y) in enumerate(zip(fa, fb)):
            n = name if len(fa) == 1 else f"{name}[{i}]"
            self._check("eq", n, x, y, self.tol if rtol is None else rtol, atol, k)

    def check_le(self, name, a, b, rtol=None, atol=0.0, **k):
        fa, fb = _flat(a), _flat(b)
        if len(fa) != len(fb):
            if len(fa) == 1:
                fa = fa * len(fb)
            elif len(fb) == 1:
                fb = fb * len(fa)
            else:
                self._fail_shape(name, len(fa), len(fb))
                return
        for i, (x, y) in enumerate(zip(fa, fb)):
            n = name if len(fa) == 1 else f"{name}[{i}]"
            self._check("le", n, x, y, self.tol if rtol is None else rtol, atol, k)

    def check_ge(self, name, a, b, **k):
        self.check_le(name, b, a, **k)

    def check(self, name, cond, **k):
        self._check("true", name, cond, None, 0, 0, k)

    def fail(self, name, detail=""):
        self._check("true", f"{name}: {detail}" if detail else name, False, None, 0, 0, {})

    def _fail_shape(self, name, a, b):
        self.fail(name, f"shape {a} != {b}")

    def reals(self, name, n, lo, hi):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

    def arr(self, xs):
        return self.np.array(list(xs))

    def call(self, f, *a, **k):
        """(result, exception) of a call into the code under test"""
        try:
            return f(*a, **k), None
        except Exception as e:  # noqa: BLE001
            return None, e

    def module(self, name):
        """a module of the package that the package does not import itself"""
        return importlib.import_module(f"{self.ps.__name__}.{name}")


class SymCtx(Base):
    mode = "sym"
    np = symnp.PROXY

    def __init__(self, unit, prefix):
        self.unit = unit
        self.ps = unit.pkg
        self.ps2 = unit.pkg2
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.vars = {}
        self.choices = {}
        self.checks = []
        self.stubs = {}
        self.obs = []
        self.alternatives = []
        self.assumed_nz = set()
        self._restore = []
        self._cuts = []
        self.nforced = 0
        self._keys = {}
        self.tokens = {}

    # inputs --------------------------------------------------------------
    def real(self, name, lo=-1e6, hi=1e6, nz=False):
        if self.vars.get(name, (float(lo), float(hi))) != (float(lo), float(hi)):
            raise ValueError(f"harness: variable {name} drawn twice with different bounds")
        v = T.var(name, float(lo), float(hi), nz)
        self.vars[name] = (float(lo), float(hi))
        return v

    def token(self, name, lo, hi, width=15):
        """(text of the given width that the code under test parses to x, x) for an arbitrary
        x; in concrete runs x is rounded to what the text can hold"""
        x = self.real(name, lo, hi)
        t = "0." + f"{len(self.tokens) + 1:0{width - 2}d}"
        self.tokens[t] = x
        return t, x

    def key(self, x):
        """A dictionary key for a value that does not depend on how it was computed: the values
        of the expression at a few fixed points (used by stubs that stand for a function)."""
        if not isinstance(x, Sym):
            return _fkey(x)
        if x.op == "const":
            return _fkey(float(x.args[0]))
        if x.id not in self._keys:
            vals = []
            for k in range(6):
                env = {n: _point(n, k, lo, hi) for n, (lo, hi) in self.vars.items()}
                v = T.evalf(x, env)
                if v != v:
                    vals = [("id", x.id)]
                    break
                vals.append(_fkey(v))
            self._keys[x.id] = tuple(vals)
        return self._keys[x.id]

    def cplx(self, name, lo=-1e6, hi=1e6):
        return T.mk(self.real(name + ".re", lo, hi), self.real(name + ".im", lo, hi))

    def frac(self, a, b=1):
        return T.const(Fraction(a, b))

    def choice(self, name, options):
        options = list(options)
        i = self._decide("c", list(range(len(options))))
        self.choices[name] = i
        return options[i]

    def flag(self, name):
        return self.choice(name, [False, True])

    def _decide(self, kind, feas):
        """take the recorded or the first alternative; queue the others"""
        pos = len(self.decisions)
        if pos < len(self.prefix):
            k, v = self.prefix[pos]
            if k != kind:
                raise RuntimeError("nondeterministic replay of a path prefix")
        else:
            v = feas[0]
            for o in feas[1:]:
                self.alternatives.append(self.decisions + [(kind, o)])
        self.decisions.append((kind, v))
        return v

    # path condition -------------------------------------------------------
    def assume(self, cond):
        cond = T.lift_b(cond)
        if cond.op == "bconst":
            if not cond.args[0]:
                raise Infeasible
            return
        self._learn(cond)
        self.pc.append(cond)

    def _learn(self, c):
        if c.op == "and":
            for x in c.args:
                self._learn(x)
            return
        pos = True
        if c.op == "not":
            c, pos = c.args[0], False
        if c.op == "eq" and not pos:
            for x, y in (c.args, c.args[::-1]):
                if y.op == "const" and y.args[0] == 0:
                    T.mark(x, nz=True)
        if c.op == "le":
            a, b = c.args
            if pos:  # a <= b
                if b.op == "const":
                    T.mark(a, hi=b.hi)
                elif a.op == "const":
                    T.mark(b, lo=a.lo)
            else:  # a > b
                if b.op == "const":
                    T.mark(a, lo=b.lo, nz=(b.args[0] == 0))
                elif a.op == "const":
                    T.mark(b, hi=a.hi, nz=(a.args[0] == 0))

    def branch(self, cond):
        self.unit.tick()
        pos = len(self.decisions)
        if pos < len(self.prefix):
            k, v = self.prefix[pos]
            if k not in ("b", "f"):
                raise RuntimeError("nondeterministic replay of a path prefix")
            self.decisions.append((k, v))
            c = cond if v else T.lnot(cond)
            if k == "b":
                self.pc.append(c)
            self._learn(c)
            return v
        nc = T.lnot(cond)
        rt = self._feas(cond)
        rf = self._feas(nc) if rt != "unsat" else "sat"
        if rt == "unsat" or rf == "unsat":
            v = rt != "unsat"
            self.decisions.append(("f", v))
            self.nforced += 1
            self._learn(cond if v else nc)
            return v
        self.unit.transitions += 2
        self.alternatives.append(self.decisions + [("b", False)])
        self.decisions.append(("b", True))
        self.pc.append(cond)
        self._learn(cond)
        return True

    def _feas(self, cond):
        # 1. is there a sampled point that satisfies pc and cond?
        for env in self.unit.sample_envs(self):
            memo = {}
            try:
                if all(T.evalb(c, env, 0.0, memo) for c in self.pc) and T.evalb(cond, env, 0.0, memo):
                    return "sat"
            except KeyError:
                continue
        # 2. solver
        key = (tuple(c.id for c in self.pc), cond.id)
        r = self.unit.feas_cache.get(key)
        if r is None:
            T.push_scope()
            T.set_ctx(None)
            try:
                r = solve.feasible(self.pc + [cond], self.unit.branch_timeout)
            finally:
                T.set_ctx(self)
                T.pop_scope()
            self.unit.feas_cache[key] = r
        return r

    def branch_zero(self, b):
        """Is the divisor b zero?  Complex divisors are assumed nonzero."""
        if b.sort == "C":
            if b.op == "mk" and b.args[1].op == "const" and b.args[1].args[0] == 0:
                z = self.branch(T.eq(b.args[0], 0))
                if not z:
                    T.mark(b, nz=True)
                return z
            if b.id not in self.assumed_nz:
                self.assumed_nz.add(b.id)
                self.pc.append(T.lnot(T.eq(b, 0)))
                T.mark(b, nz=True)
                self.unit.assumed["complex divisor assumed nonzero"] = 1
            return False
        e = T.eq(b, 0)
        if e.op == "bconst":
            return e.args[0]
        z = self.branch(e)
        if not z:
            T.mark(b, nz=True)
        return z

    def concretize_floor(self, x):
        if x.op == "const":
            return T.const(math.floor(x.args[0]))
        for _ in range(400):
            pos = len(self.decisions)
            if pos < len(self.prefix):
                k = self.prefix[pos][1]
            else:
                k = self._floor_candidate(x)
            self.decisions.append(("k", k))
            if self.branch(T.land(T.le(k, x), T.lt(x, k + 1))):
                return T.const(k)
        raise Unsupported("too many integer values")

    def _floor_candidate(self, x):
        for env in self.unit.sample_envs(self):
            memo = {}
            if all(T.evalb(c, env, 0.0, memo) for c in self.pc):
                return math.floor(T.evalf(x, env, memo))
        env = self.unit.model(self, self.pc)
        if env is None:
            raise Unsupported("no model for an integer conversion")
        return math.floor(T.evalf(x, env))

    def concretize_int(self, x):
        if x.op == "const":
            return int(x.args[0])
        if x.lo >= 0:
            return int(self.concretize_floor(x).args[0])
        if self.branch(T.le(0, x)):
            return int(self.concretize_floor(x).args[0])
        return -int(self.concretize_floor(T.neg(x)).args[0])

    # obligations ----------------------------------------------------------
    def _check(self, kind, name, a, b, rtol, atol, k):
        self.unit.tick()
        goal, margin = _goals(kind, a, b, rtol, atol)
        c = dict(name=name, kind=kind, a=a, b=b, tol=(rtol, atol), goal=goal, margin=margin, npc=len(self.pc),
                 ndec=len(self.decisions), cuts=tuple(x for x in (*self._cuts, *k.get("cuts", ())) if isinstance(x, Sym)), opts=k)
        self.checks.append(c)
        # decided at once: interval facts learned from later decisions must not help
        self.unit.decide(self, c, len(self.checks) - 1)

    def observe(self, name, v):
        self.obs.append((name, v))

    def cut(self, *vs):
        """Values that may be abstracted to arbitrary ones when proving."""
        for v in vs:
            for e in _flat(v):
                if isinstance(e, Sym) and e.op not in ("var", "const", "cconst"):
                    self._cuts.append(e)

    def stub(self, name, f):
        self.stubs[name] = f

    def patch(self, obj, attr, val):
        old = obj.__dict__.get(attr, _MISSING) if hasattr(obj, "__dict__") else getattr(obj, attr)
        self._restore.append((obj, attr, old))
        setattr(obj, attr, val)

    def cleanup(self):
        for obj, attr, old in reversed(self._restore):
            if old is _MISSING:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)
        self._restore = []

    def value(self, x):
        return x


_MISSING = object()


def _goals(kind, a, b, rtol, atol):
    """(exact goal, goal up to the tolerance)"""
    if kind == "true":
        g = T.lift_b(a) if isinstance(a, Sym) else T.bconst(bool(a))
        return g, g
    bad = [x for x in (a, b) if not isinstance(x, (Sym, int, float, complex, np.number, Fraction, np.bool_))]
    if bad:
        # not numbers: compare with ==
        return (T.bconst(a == b),) * 2
    na, nb = T.nonfinite(a), T.nonfinite(b)
    if na or nb:
        if kind == "eq":
            same = na and nb and (a == b or (a != a and b != b))
            return (T.bconst(same),) * 2
        g = T.le(a, b)
        return (T.lift_b(g) if isinstance(g, Sym) else T.bconst(g),) * 2
    a, b = T.lift(a), T.lift(b)
    if kind == "eq":
        g = T.eq(a, b)
        if g.op == "bconst" and g.args[0]:
            return g, g
        if a.sort == "C" or b.sort == "C":
            d = T.sub(a, b)
            m = T.land(
                *[
                    T.le(T.absolute(x), T.add(atol + 1e-300, T.mul(rtol, T.add(*[T.add(T.absolute(T.re_(y)), T.absolute(T.im_(y))) for y in (a, b)]))))
                    for x in (T.re_(d), T.im_(d))
                ]
            )
        else:
            m = T.le(T.absolute(T.sub(a, b)), T.add(atol + 1e-300, T.mul(rtol, T.add(T.absolute(a), T.absolute(b)))))
        return g, m
    g = T.le(a, b)
    if g.op == "bconst" and g.args[0]:
        return g, g
    m = T.le(a, T.add(b, T.add(atol + 1e-300, T.mul(rtol, T.add(T.absolute(a), T.absolute(b))))))
    return g, m


class ConcCtx(Base):
    """Runs a harness on the real package at concrete inputs."""

    mode = "conc"
    np = np

    def __init__(self, unit, env, choices):
        self.unit = unit
        self.ps = unit.real_pkg
        self.ps2 = unit.real_pkg2
        self.env = env
        self.chosen = choices
        self.failures = []
        self.values = []
        self.obs = []
        self._restore = []
        self.ncheck = 0
        self.rounded = {}

    def real(self, name, lo=-1e6, hi=1e6, nz=False):
        if name not in self.env:
            self.env[name] = _default(lo, hi)
        v = float(self.env[name])
        v = min(max(v, float(lo)), float(hi))
        return v

    def key(self, x):
        return _fkey(x)

    def token(self, name, lo, hi, width=15):
        t = f"{self.real(name, lo, hi):{width}.{width - 7}e}"
        self.rounded[name] = float(t)
        return t, float(t)

    def cplx(self, name, lo=-1e6, hi=1e6):
        return complex(self.real(name + ".re", lo, hi), self.real(name + ".im", lo, hi))

    def frac(self, a, b=1):
        return a / b

    def choice(self, name, options):
        options = list(options)
        return options[self.chosen.get(name, 0)]

    def flag(self, name):
        return self.choice(name, [False, True])

    def assume(self, cond):
        if not bool(cond):
            raise AssumptionFailed

    def _check(self, kind, name, a, b, rtol, atol, k):
        self.ncheck += 1
        rtol = k.get("conc_rtol", rtol)
        self.values.append((name, a, b))
        try:
            if kind == "true":
                ok = bool(a)
            elif kind == "eq":
                ok = _close(a, b, rtol, atol)
            else:
                ok = bool(a <= b + rtol * (abs(a) + abs(b)) + atol)
        except TypeError:
            ok = False
        if not ok:
            self.failures.append((name, kind, a, b))

    def observe(self, name, v):
        self.obs.append((name, v))

    def cut(self, *vs):
        pass

    def stub(self, name, f):
        """Replace a library function by dotted name."""
        parts = name.split(".")
        if parts[0] == "np":
            parts[0] = "numpy"
        import importlib

        obj = None
        for i in range(len(parts) - 1, 0, -1):
            try:
                obj = importlib.import_module(".".join(parts[:i]))
                break
            except ImportError:
                continue
        for p in parts[i:-1]:
            obj = getattr(obj, p)
        self.patch(obj, parts[-1], f)

    def patch(self, obj, attr, val):
        old = obj.__dict__.get(attr, _MISSING) if hasattr(obj, "__dict__") else getattr(obj, attr)
        self._restore.append((obj, attr, old))
        setattr(obj, attr, val)

    cleanup = SymCtx.cleanup

    def value(self, x):
        return x


def _close(a, b, rtol, atol):
    if isinstance(a, (bool, np.bool_, str, type(None))) or isinstance(b, (bool, np.bool_, str, type(None))):
        return a == b
    if not isinstance(a, (int, float, complex, np.number)) or not isinstance(b, (int, float, complex, np.number)):
        return bool(a == b)
    if np.isnan(a) or np.isnan(b):
        return bool(np.isnan(a) and np.isnan(b))
    if np.isinf(a) or np.isinf(b):
        return bool(a == b)
    return bool(abs(a - b) <= rtol * (abs(a) + abs(b)) + atol)


def _fkey(x):
    if isinstance(x, (complex, np.complexfloating)):
        return (float(f"{x.real:.9g}"), float(f"{x.imag:.9g}"))
    return float(f"{float(x):.9g}")


def _point(name, k, lo, hi):
    r = random.Random(f"{name}/{k}").random()
    if 0 < lo and math.isfinite(hi) and hi > 4 * lo:
        return lo * (hi / lo) ** r
    lo, hi = max(lo, -1e3), min(hi, 1e3)
    return lo + (hi - lo) * r


def _default(lo, hi):
    lo, hi = float(lo), float(hi)
    if lo > 0:
        return math.sqrt(lo * hi)
    if hi < 0:
        return -math.sqrt(lo * hi)
    return (lo + hi) / 2


class Unit:
    """One harness with fixed structural parameters."""

    def __init__(self, prop, name, fn, params, pkg, real_pkg, budget=60.0, max_paths=400,
                 branch_timeout=2.0, prove_timeout=10.0, seed=1, samples=6, validate=3, known=(), alt=None):
        self.prop, self.name, self.fn, self.params = prop, name, fn, params
        self.pkg, self.real_pkg = pkg, real_pkg
        self.pkg2, self.real_pkg2 = alt or (None, None)
        self.budget, self.max_paths = budget, max_paths
        self.branch_timeout, self.prove_timeout = branch_timeout, prove_timeout
        self.seed, self.nsamples, self.nvalidate = seed, samples, validate
        self.transitions = 0
        self.paths = 0
        self.infeasible = 0
        self.assumed = {}
        self.feas_cache = {}
        self.obligations = []
        self.violations = []
        self.known = set(known)
        self.known_hits = {}
        self.inconclusive = []
        self.validated = 0
        self.mismatch = []
        self.done = {}
        self.witness = None
        self.samples_out = []
        self.t0 = time.time()
        self.exceptions = 0
        self._envs = {}
        self.searched, self.search_budget, self.unanswered = 0.0, 80.0, 0

    def label(self):
        p = ",".join(f"{k}={v}" for k, v in self.params.items())
        return f"{self.name}({p})"

    def tick(self):
        if time.time() - self.t0 > self.budget:
            raise Stop

    # sampled points of the input box, for quick branch decisions ------------------
    def sample_envs(self, ctx):
        out = []
        for i in range(self.nsamples):
            env = self._envs.setdefault(i, {})
            for n, (lo, hi) in ctx.vars.items():
                if n not in env:
                    env[n] = _sample(random.Random(f"{self.seed}/{self.name}/{i}/{n}"), lo, hi, i)
            out.append(env)
        return out

    def model(self, ctx, conds, timeout=5.0, distinct=True):
        """Input values satisfying a conjunction, or None."""
        T.push_scope()
        try:
            enc = solve.Encoder(level=2)
            zs = enc.encode(list(conds)) if conds else []
            r, m = solve._run(zs, timeout)
            if r != "sat":
                r, m = solve._run(zs, timeout, "qfnra-nlsat") if r == "unknown" else (r, m)
            if r != "sat":
                return None
            vs = [solve.z3.Real(n) for n in ctx.vars]
            if distinct and len(vs) > 1:
                # avoid ties between inputs where possible
                box = []
                for v, (lo, hi) in zip(vs, ctx.vars.values()):
                    box += [v >= repr(float(lo)), v <= repr(float(hi))]
                r2, m2 = solve._run(zs + box + [solve.z3.Distinct(*vs)], min(timeout, 2.0))
                if r2 == "sat":
                    m = m2
            return solve.model_env(m, {n: _default(lo, hi) for n, (lo, hi) in ctx.vars.items()})
        finally:
            T.pop_scope()

    def run(self):
        work = [[]]
        try:
            while work:
                if self.paths >= self.max_paths:
                    self.inconclusive.append(f"{self.label()}: more than {self.max_paths} paths")
                    break
                prefix = work.pop()
                alts = self.path(prefix)
                work.extend(reversed(alts))
                if self.violations:
                    break
        except Stop:
            self.inconclusive.append(f"{self.label()}: budget of {self.budget:.0f}s used up after {self.paths} paths")
        return self

    def path(self, prefix):
        T.reset_table()
        solve._POLY.clear()
        solve.ATOMS.clear()
        self.feas_cache = {}
        ctx = SymCtx(self, prefix)
        T.set_ctx(ctx)
        status, exc = "ok", None
        loader.start_monitor()
        try:
            self.fn(ctx, **self.params)
        except Infeasible:
            status = "infeasible"
        except Unsupported as e:
            status, exc = "unsupported", e
        except Violated:
            status = "violated"
        except Stop:
            T.set_ctx(None)
            self.late_check(ctx)
            raise
        except RecursionError as e:
            status, exc = "unsupported", e
            if os.environ.get("SYMEX_DEBUG"):
                for f in traceback.extract_tb(e.__traceback__)[-14:]:
                    print(f, file=sys.stderr)
        except Exception as e:  # noqa: BLE001
            status, exc = "exception", e
        finally:
            ctx.cleanup()
            loader.stop_monitor()
        try:
            if status == "infeasible":
                self.infeasible += 1
                return ctx.alternatives
            self.paths += 1
            if status == "violated":
                return []
            if os.environ.get("SYMEX_DEBUG"):
                print(f"  path {self.paths} {self.label()} {status} {exc!r} dec={ctx.decisions} checks={len(ctx.checks)}", file=sys.stderr)
                if exc is not None and os.environ.get("SYMEX_DEBUG") == "2":
                    traceback.print_exception(exc)
            self.finish_path(ctx, status, exc)
        finally:
            T.set_ctx(None)
        return ctx.alternatives

    # after a path ------------------------------------------------------------
    def finish_path(self, ctx, status, exc):
        env = self.path_env(ctx)
        if env is None:
            r = None
            if status != "ok" or ctx.checks:
                r = self._path_feasible(ctx)
            if r == "unsat":
                self.infeasible += 1
                self.paths -= 1
                return
        if status == "unsupported":
            self.inconclusive.append(f"{self.label()}: not encoded: {exc}")
            self.fallback(ctx, env)
            # obligations recorded before the stop are still decided below
        elif status == "exception":
            self.exceptions += 1
            if env is None:
                env = self.model(ctx, ctx.pc)
            rep = self.replay(env, ctx.choices) if env is not None else None
            if rep is not None and rep["exception"] is not None:
                self.report(
                    dict(check="unexpected exception", detail=rep["exception"], inputs=env, choices=ctx.choices,
                         found_by="path model")
                )
                return
            if rep is not None and rep["failures"]:
                self.add_violation(rep, env, ctx, "path model")
                return
            tb = traceback.format_exception_only(exc)[-1].strip()
            self.inconclusive.append(f"{self.label()}: exception only under the encoding: {tb}")
            self.fallback(ctx, env)
        self.validate(ctx, env, status)

    def late_check(self, ctx):
        """The budget ran out: compare with the real code once more."""
        if not self.violations and ctx.vars:
            env = {n: _default(lo, hi) for n, (lo, hi) in ctx.vars.items()}
            self.fallback(ctx, env)

    def decide(self, ctx, c, i):
        key = (i, c["name"], tuple(ctx.decisions[: c["ndec"]]))
        if key in self.done:
            return
        res = self.prove(ctx, c)
        self.done[key] = res
        self.obligations.append((c["name"], res))
        if self.violations:
            raise Violated

    def validate(self, ctx, env, status):
        """Compare the encoding with the real code at a model of the path."""
        if env is not None and self.validated < self.nvalidate and status == "ok":
            rep = self.replay(env, ctx.choices)
            if rep is not None and not rep["assumption"]:
                if rep["exception"] is not None:
                    self.report(
                        dict(check="unexpected exception", detail=rep["exception"], inputs=env, choices=ctx.choices,
                             found_by="path model"))
                    return
                if rep["failures"]:
                    self.add_violation(rep, env, ctx, "path model")
                    return
                bad = self.compare(ctx, env, rep)
                if bad:
                    self.mismatch.append(f"{self.label()}: {bad}")
                else:
                    self.validated += 1
                    if len(self.samples_out) < 2:
                        self.samples_out.append(dict(unit=self.label(), decisions=len(ctx.decisions), inputs=_short(env), choices=ctx.choices))

    def _path_feasible(self, ctx):
        T.push_scope()
        try:
            return solve.feasible(ctx.pc, 5.0) if ctx.pc else "sat"
        finally:
            T.pop_scope()

    def path_env(self, ctx):
        for env in self.sample_envs(ctx):
            memo = {}
            try:
                if all(T.evalb(c, env, 0.0, memo) for c in ctx.pc):
                    return dict(env)
            except KeyError:
                continue
        if not ctx.pc:
            return {n: _default(lo, hi) for n, (lo, hi) in ctx.vars.items()}
        env = self.model(ctx, ctx.pc, 3.0)
        if env is None and self.searched < self.search_budget / 4:
            t0 = time.time()
            hits = search.find([(c, True) for c in ctx.pc], ctx.vars, self.sample_envs(ctx), self.seed, 1.0)
            self.searched += time.time() - t0
            env = hits[0] if hits else None
        return env

    def fallback(self, ctx, env):
        """Concrete runs at solver-chosen points of a path that was not encoded."""
        envs = [e for e in [env] if e is not None]
        for e in self.sample_envs(ctx):
            envs.append(dict(e))
        for e in envs[:4]:
            rep = self.replay(dict(e), ctx.choices)
            if rep and not rep["assumption"]:
                if rep["failures"]:
                    self.add_violation(rep, e, ctx, "concrete fallback")
                    return
                if rep["exception"] is not None:
                    self.report(dict(check="unexpected exception", detail=rep["exception"], inputs=e,
                                                choices=ctx.choices, found_by="concrete fallback"))
                    return

    def replay(self, env, choices):
        """Run the harness on the real package."""
        saved = T.CTX
        T.set_ctx(None)
        c = ConcCtx(self, dict(env), dict(choices))
        exc = None
        assumption = False
        try:
            with np.errstate(all="ignore"):
                import warnings

                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    self.fn(c, **self.params)
        except AssumptionFailed:
            assumption = True
        except Exception as e:  # noqa: BLE001
            exc = traceback.format_exception_only(e)[-1].strip()
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "pystrata" in f.filename]
            if where:
                exc += f" at {os.path.basename(where[-1].filename)}:{where[-1].lineno}"
        finally:
            c.cleanup()
            T.set_ctx(saved)
        return dict(failures=c.failures, exception=exc, assumption=assumption, values=c.values, obs=c.obs, n=c.ncheck, rounded=c.rounded)

    def compare(self, ctx, env, rep):
        """Values of the encoding vs. the real code at one point."""
        memo = {}
        env = {**env, **rep["rounded"]}
        if len(rep["values"]) != len(ctx.checks):
            if all(T.evalb(c, env, 1e-9, memo) == T.evalb(c, env, 0.0, memo) for c in ctx.pc):
                return f"{len(ctx.checks)} checks under the encoding, {len(rep['values'])} in the real run"
            return None
        pairs = [(c["name"], c["a"], v[1]) for c, v in zip(ctx.checks, rep["values"])]
        pairs += [(c["name"] + " rhs", c["b"], v[2]) for c, v in zip(ctx.checks, rep["values"])]
        for (n, s), (n2, r) in zip(ctx.obs, rep["obs"]):
            fs, fr = _flat(s), _flat(r)
            if len(fs) != len(fr):
                return f"{n}: length {len(fs)} vs {len(fr)}"
            pairs += [(n, x, y) for x, y in zip(fs, fr)]
        for n, s, r in pairs:
            if s is None or r is None or isinstance(s, str):
                continue
            if isinstance(s, SBool) or isinstance(s, (bool, np.bool_)):
                continue
            v = T.evalf(s, env, memo) if isinstance(s, Sym) else s
            try:
                ok = _close(v, r, 1e-6, 1e-9 * max(1.0, abs(v) if v == v else 1.0) * 1e-3)
            except TypeError:
                ok = True
            if not ok:
                return f"{n}: encoding {v!r} vs real {r!r}"
        return None

    def report(self, v):
        """Record a reproduced violation, unless it is a listed finding."""
        if v["check"] in self.known:
            self.known_hits.setdefault(v["check"], v)
        else:
            self.violations.append(v)

    def add_violation(self, rep, env, ctx, how):
        for n, kind, a, b in rep["failures"]:
            self.report(dict(check=n, detail=f"{kind}: {a!r} vs {b!r}", inputs=env, choices=ctx.choices, found_by=how))
            if self.violations:
                break

    # deciding one obligation --------------------------------------------------
    def prove(self, ctx, c):
        goal = c["goal"]
        pc = ctx.pc[: c["npc"]]
        T.push_scope()
        T.set_ctx(None)
        try:
            return self._prove(ctx, c, goal, pc)
        except Unsupported as e:
            self.inconclusive.append(f"{self.label()}: {c['name']}: not encoded: {e}")
            return "unknown"
        except solve.TooBig:
            self.inconclusive.append(f"{self.label()}: {c['name']}: too big")
            return "unknown"
        finally:
            T.set_ctx(ctx)
            T.pop_scope()

    def _prove(self, ctx, c, goal, pc):
        to = self.prove_timeout * c["opts"].get("timeout_factor", 1)
        # after queries without an answer, look at more of the paths instead of longer
        tired = self.unanswered >= 1
        if tired:
            to = min(to, 3 if self.unanswered < 6 else 1)
        if goal.op == "bconst":
            # decided by term rewriting alone; the solver sees the trivial query
            # (two different constants count as equal within the tolerance)
            true = goal.args[0] or c["margin"].op == "bconst" and c["margin"].args[0]
            solve._run([solve.z3.BoolVal(not true)], 1)
            if true:
                return "discharged"
            env = self.path_env(ctx)
            if env is not None:
                rep = self.replay(env, ctx.choices)
                if rep["failures"]:
                    self.add_violation(rep, env, ctx, "solver model")
                    return "violated"
            self.inconclusive.append(f"{self.label()}: {c['name']}: false under the encoding, not reproduced")
            return "unknown"
        attempts = []
        ng = T.lnot(goal)
        if c["kind"] == "eq" and self.congruent(ctx, c, pc, to):
            return "discharged"
        if c["kind"] == "eq" and (c["tol"][0] or c["tol"][1]) and solve.near(c["a"], c["b"]):
            # identical once constants that differ by rounding are identified
            solve._run([solve.z3.BoolVal(False)], 1)
            return "discharged"
        # pure identity, possibly with abstracted intermediate values
        if c["cuts"]:
            attempts.append((0, c["cuts"], [ng], min(to, 5), None))
            attempts.append((1, c["cuts"], [ng], to, None))
        if c["opts"].get("whole"):
            attempts.append(("whole", c["cuts"], pc + [ng], to, None))
        elif c["cuts"]:
            attempts.append((2, c["cuts"], pc + [ng], to, None))
        attempts.append((0, (), [ng], min(to, 3), None))
        attempts.append((1, (), pc + [ng], min(to, 3), None))
        attempts.append((2, (), pc + [ng], 1, None))
        attempts.append((2, (), pc + [ng], min(to, 5), None))
        attempts.append((1, (), pc + [ng], to, "qfnra-nlsat"))
        attempts.append((2, (), pc + [ng], to, "qfnra"))
        if tired:
            attempts = [a for a in attempts if a[0] in (0, "whole") or a[1] or a[0] == 2 and a[4] is None]
        cap = 3 if tired else 6
        sat_seen = tried = False

        def look():
            return self.try_points(ctx, c) or (self.search(ctx, c, pc) if tired else self.quick_search(ctx, c, pc))

        for lvl, cuts, conds, t, tac in attempts:
            if c["opts"].get("full_first") and lvl == 0:
                continue
            try:
                T.set_deadline(max(2 * t, cap))
                whole = lvl == "whole"
                enc = solve.Encoder(level=2 if whole else lvl, cuts=cuts, whole=whole)
                zs = enc.encode(conds)
                T.set_deadline(None)
                r, m = solve._run(zs, t, tac)
                if os.environ.get("SYMEX_DEBUG") == "3":
                    print(f"    {time.time() - self.t0:6.1f}s {c['name']} level={lvl} cuts={len(cuts)} {tac} {r}", file=sys.stderr)
            except (T.Deadline, solve.TooBig):
                r, m = "unknown", None
            if r == "unsat":
                return "discharged"
            full = not cuts and (lvl == 2 or lvl == 1 and r == "sat" and not enc.logs and not enc.reals_exp)
            if full and r == "sat":
                sat_seen = True
                if self.try_model(ctx, m):
                    return "violated"
                break
            if full and not tried:
                tried = True
                if look():
                    return "violated"
            self.tick()
        # up to the tolerance, with refinement of exp/log
        margin = c["margin"]
        extra = []
        for rnd in range(1 if tired else c["opts"].get("rounds", 6)):
            self.tick()
            try:
                T.set_deadline(max(2 * to, cap))
                enc = solve.Encoder(level=2)
                zs = enc.encode(pc + [T.lnot(margin)])
                zs = zs + [enc.zb(enc.rewrite(e)) for e in extra]
                zs = zs + enc.facts
            except (T.Deadline, solve.TooBig):
                break
            finally:
                T.set_deadline(None)
            r, m = solve._run(zs, to)
            if r == "unknown":
                r, m = solve._run(zs, to, "qfnra")
            if r == "unsat":
                return "discharged"
            if not tried:
                tried = True
                if look():
                    return "violated"
            if r != "sat":
                break
            if self.try_model(ctx, m):
                return "violated"
            menv = solve.model_env(m, {n: _default(lo, hi) for n, (lo, hi) in ctx.vars.items()})
            full = dict(menv)
            for d in m.decls():
                v = solve.z3val(m[d])
                if v is not None:
                    full[d.name()] = float(v)
            new = enc.tangents(full)
            if not new:
                break
            extra.extend(new)
        try:
            T.set_deadline(max(2 * to, cap))
            enc = solve.Encoder(level=2)
            zs = enc.encode(pc + [ng])
            T.set_deadline(None)
            if not tired and solve._cvc5(zs, to)[0] == "unsat":
                return "discharged"
        except (T.Deadline, solve.TooBig):
            pass
        finally:
            T.set_deadline(None)
        self.unanswered += 1
        if not tired and self.search(ctx, c, pc):
            return "violated"
        # last resort: look at concrete runs of this path
        self.fallback(ctx, None)
        if self.violations:
            return "violated"
        self.inconclusive.append(
            f"{self.label()}: {c['name']}: " + ("counterexample not reproduced" if sat_seen else "solver gave no answer")
        )
        return "unknown"

    def search(self, ctx, c, pc):
        """No model from the solver: look for inputs of this path on which the encoded
        goal is false, also by way of every selection below it (both sides of each)."""
        if self.searched > self.search_budget:
            return False
        t0 = time.time()
        try:
            base = [(x, True) for x in pc]
            starts = self.sample_envs(ctx)
            bad = [(c["margin"], False)]
            if self._search(ctx, base + bad, starts, 2.0):
                return True
            for q in search.ites([c["margin"]])[:24]:
                for pol in (True, False):
                    if time.time() - t0 > (4 if self.unanswered > 2 else 12):
                        return False
                    hits = search.find(base + [(q, pol)], ctx.vars, starts, self.seed, 0.7)
                    if hits and self._search(ctx, base + bad, hits, 0.7, [(q, pol)]):
                        return True
        finally:
            self.searched += time.time() - t0
        return False

    def quick_search(self, ctx, c, pc):
        if self.searched > self.search_budget:
            return False
        t0 = time.time()
        try:
            return self._search(ctx, [(x, True) for x in pc] + [(c["margin"], False)], self.sample_envs(ctx), 1.0)
        finally:
            self.searched += time.time() - t0

    def _search(self, ctx, conds, starts, budget, extra=()):
        for env in search.find(conds + list(extra), ctx.vars, starts, self.seed, budget):
            rep = self.replay(dict(env), ctx.choices)
            if not rep["assumption"] and rep["failures"]:
                self.add_violation(rep, dict(env), ctx, "guided search, confirmed on the code")
                if self.violations:
                    return True
        return False

    def congruent(self, ctx, c, pc, to):
        """Equality of two maxima (of absolute values) by equality of their entries:
        |max x - max y| <= max |x_i - y_i| and ||x| - |y|| <= |x -+ y|."""
        a, b = c["a"], c["b"]
        if not (isinstance(a, Sym) and isinstance(b, Sym) and a.sort == "R" and b.sort == "R"):
            return False
        xs, ys = solve.max_entries(a), solve.max_entries(b)
        if len(xs) != len(ys) or (len(xs) == 1 and xs[0][0] != "abs"):
            return False
        rtol, atol = c["tol"]
        if not all(k == "abs" for k, _ in xs + ys):
            rtol = 0.0
        if not rtol and not atol:
            atol = 1e-300

        def same(x, y):
            for sgn in (1, -1):
                d = T.sub(x, T.mul(sgn, y))
                tol = T.add(atol, T.mul(rtol / 2, T.add(T.absolute(x), T.absolute(y))))
                goals = [(0, T.eq(d, 0)), (1, T.eq(d, 0))]
                if atol or rtol:
                    goals.append((1, T.le(T.absolute(d), tol)))
                for lvl, g in goals:
                    try:
                        T.set_deadline(10)
                        enc = solve.Encoder(level=lvl)
                        zs = enc.encode(([] if lvl == 0 else pc) + [T.lnot(g)])
                        T.set_deadline(None)
                        r, _ = solve._run(zs, min(to, 3))
                    except (T.Deadline, solve.TooBig):
                        r = "unknown"
                    finally:
                        T.set_deadline(None)
                    if r == "unsat":
                        return True
                if sgn == 1 and not all(k == "abs" for k, _ in xs + ys):
                    return False
            return False

        for (kx, x), (ky, y) in zip(xs, ys):
            if kx != ky or not (x is y or same(x, y)):
                return False
        return True

    def try_points(self, ctx, c):
        """Hints for the counterexample search: points of the path at which the
        encoded goal is numerically false, confirmed on the real code."""
        n = 0
        for env in self.sample_envs(ctx):
            memo = {}
            try:
                if not all(T.evalb(x, env, 0.0, memo) for x in ctx.pc) or T.evalb(c["margin"], env, 0.0, memo):
                    continue
            except (KeyError, ArithmeticError, ValueError):
                continue
            rep = self.replay(dict(env), ctx.choices)
            if not rep["assumption"] and rep["failures"]:
                self.add_violation(rep, dict(env), ctx, "guided solver query")
                return True
            n += 1
            if n >= 2:
                break
        return False

    def try_model(self, ctx, m):
        env = solve.model_env(m, {n: _default(lo, hi) for n, (lo, hi) in ctx.vars.items()})
        rep = self.replay(env, ctx.choices)
        if rep["assumption"]:
            return False
        if rep["failures"]:
            self.add_violation(rep, env, ctx, "solver model")
            return True
        if rep["exception"] is not None:
            self.report(dict(check="unexpected exception", detail=rep["exception"], inputs=env,
                                        choices=ctx.choices, found_by="solver model"))
            return True
        return False


def _sample(rng, lo, hi, i):
    if i == 0:
        # close to the middle of the box, without ties between inputs
        d = _default(lo, hi)
        if lo > 0:
            return min(max(d * math.exp(rng.uniform(-0.4, 0.4)), lo), hi)
        return d + (hi - lo) * rng.uniform(-0.1, 0.1)
    if lo > 0 and hi / lo > 20:
        return math.exp(rng.uniform(math.log(lo), math.log(hi)))
    return rng.uniform(lo, hi)


def _short(env):
    return {k: float(f"{v:.6g}") for k, v in list(env.items())[:12]}
