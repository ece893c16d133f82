"""Loads the package under test from /repo/src twice: the real one (`pystrata`) and
an alias copy whose modules see the symbolic numpy and builtins.

The alias is built by executing the unmodified source files; only what `import`
statements and a few builtins resolve to differs."""

import builtins
import importlib.abc
import importlib.util
import math as _math
import os
import sys
import types

import numpy as np

from . import symnp, term as T
from .term import Sym, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKGDIR = os.path.join(SRC, "pystrata")


class ModProxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


def _fake_jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


def fake_numba():
    m = types.ModuleType("numba")
    for n in ("jit", "njit", "vectorize", "guvectorize", "generated_jit"):
        setattr(m, n, _fake_jit)
    m.prange = range
    m.float64 = m.complex128 = m.int64 = lambda *a: None
    m.set_num_threads = lambda *a: None
    return m


def _m(symf, mf):
    def f(x, *a):
        if isinstance(x, Sym) or any(isinstance(y, Sym) for y in a):
            return symf(x, *a)
        return mf(x, *a)

    return f


def _mlog(x, base=None):
    r = T.log(x)
    return r if base is None else T.div(r, T.log(T.lift(base)))


def fake_math():
    over = dict(
        sqrt=_m(T.sqrt, _math.sqrt),
        exp=_m(T.exp, _math.exp),
        log=_m(_mlog, _math.log),
        log10=_m(T.log10, _math.log10),
        log2=_m(T.log2, _math.log2),
        sin=_m(T.sin, _math.sin),
        cos=_m(T.cos, _math.cos),
        tan=_m(T.tan, _math.tan),
        floor=_m(lambda x: int(T.floor(x)), _math.floor),
        ceil=_m(lambda x: int(T.ceil(x)), _math.ceil),
        pow=_m(T.power, _math.pow),
        fabs=_m(T.absolute, _math.fabs),
        hypot=_m(symnp._hypot, _math.hypot),
        isnan=_m(T.isnan, _math.isnan),
        isinf=_m(T.isinf, _math.isinf),
        isfinite=_m(T.isfinite, _math.isfinite),
        isclose=_m(lambda a, b, **k: T.isclose(a, b, k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0)), _math.isclose),
        fsum=lambda xs: sum(xs),
        prod=lambda xs: symnp.prod(list(xs)),
    )
    return ModProxy(_math, over)


class _ConcOnly:
    """A library function that is usable on concrete data only, or stubbed."""

    def __init__(self, real, name):
        self.real, self.name = real, name

    def __call__(self, *a, **k):
        st = T.CTX.stubs.get(self.name) if T.CTX is not None else None
        if st is not None:
            return st(*a, **k)
        vals = list(a) + list(k.values())
        if any(symnp.has_sym(v) for v in vals):
            raise Unsupported(self.name)
        a = [symnp._to_native(v) for v in a]
        k = {n: symnp._to_native(v) for n, v in k.items()}
        r = self.real(*a, **k)
        return symnp._numeric(r) if isinstance(r, np.ndarray) else r

    def __getattr__(self, n):
        return getattr(self.real, n)


class LibProxy(types.ModuleType):
    """A third-party module whose callables are concrete-only or stubbed."""

    def __init__(self, real, over=None):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over or {})

    def __getattr__(self, name):
        v = getattr(self.__dict__["_real"], name)
        q = f"{self.__dict__['_real'].__name__}.{name}"
        if isinstance(v, types.ModuleType):
            return lib_proxy(v)
        if callable(v) and not isinstance(v, type):
            return _ConcOnly(v, q)
        if isinstance(v, type) and T is not None:
            return _StubbableType(v, q)
        return v


def _StubbableType(cls, q):
    """A class of a third-party library: instances are made by a stub if the
    harness supplies one, by the library otherwise."""

    class Meta(type):
        def __instancecheck__(c, x):
            return isinstance(x, cls)

        def __call__(c, *a, **k):
            st = T.CTX.stubs.get(q) if T.CTX is not None else None
            if st is not None:
                return st(*a, **k)
            vals = list(a) + list(k.values())
            if any(symnp.has_sym(v) for v in vals):
                raise Unsupported(q)
            return cls(*[symnp._to_native(v) for v in a], **{n: symnp._to_native(v) for n, v in k.items()})

        def __getattr__(c, n):
            return getattr(cls, n)

    return Meta(cls.__name__, (), {})


class DistProxy:
    """scipy.stats distributions: contract stubs by name."""

    def __init__(self, real, name):
        self._r, self._n = real, name

    def __getattr__(self, meth):
        f = getattr(self._r, meth)
        return _ConcOnly(f, f"scipy.stats.{self._n}.{meth}") if callable(f) else f

    def __call__(self, *a, **k):
        return _ConcOnly(self._r, f"scipy.stats.{self._n}")(*a, **k)


class StatsProxy(types.ModuleType):
    def __init__(self):
        super().__init__("scipy.stats")

    def __getattr__(self, name):
        import scipy.stats as st

        v = getattr(st, name)
        if hasattr(v, "ppf"):
            return DistProxy(v, name)
        return _ConcOnly(v, f"scipy.stats.{name}") if callable(v) else v


_LIBS = {}


def lib_proxy(real):
    n = real.__name__
    if n in _LIBS:
        return _LIBS[n]
    if n == "scipy.interpolate":
        p = LibProxy(real, {"interp1d": symnp.Interp1d})
    elif n == "scipy.integrate":
        p = LibProxy(
            real,
            {
                "cumulative_trapezoid": _pick(symnp.cumulative_trapezoid, real.cumulative_trapezoid),
                "cumtrapz": symnp.cumulative_trapezoid,
                "trapezoid": _pick(symnp.trapezoid, real.trapezoid),
            },
        )
    elif n == "scipy.stats":
        p = StatsProxy()
    elif n == "scipy.constants":
        p = real
    elif n in ("scipy", "scipy.fft", "scipy.sparse", "scipy.optimize", "scipy.signal", "scipy.linalg", "scipy.special"):
        over = {}
        if n == "scipy.fft":
            over = {k: _pick(getattr(symnp, k), getattr(real, k)) for k in ("rfft", "irfft", "fft", "ifft")}
        if n == "scipy.sparse":
            over = {k: _pick(symnp.diags, getattr(real, k)) for k in ("diags", "diags_array")}
        p = LibProxy(real, over)
    else:
        p = LibProxy(real)
    _LIBS[n] = p
    return p


def _pick(symf, realf):
    def f(*a, **k):
        if any(isinstance(x, (Sym, symnp.SArr)) or symnp.has_sym(x) for x in list(a) + list(k.values())):
            return symf(*a, **k)
        r = realf(*a, **k)
        return symnp._numeric(r) if isinstance(r, np.ndarray) else r

    return f


def make_import(numba_mode):
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            top = name.split(".")[0]
            if top == "numpy":
                if not fromlist:
                    return symnp.PROXY
                if name == "numpy.typing":
                    return real_import(name, globals, locals, fromlist, level)
                obj = symnp.PROXY
                for part in name.split(".")[1:]:
                    obj = getattr(obj, part)
                return obj
            if top == "numba":
                if numba_mode == "missing":
                    raise ImportError("numba")
                return fake_numba()
            if name == "math":
                return fake_math()
            if top in ("scipy", "pykooh"):
                real_import(name, globals, locals, ("x",), level)
                mod = sys.modules[name]
                if not fromlist:
                    return lib_proxy(sys.modules[top])
                px = lib_proxy(mod)
                # submodules named in the fromlist
                for f in fromlist:
                    try:
                        real_import(f"{name}.{f}")
                    except ImportError:
                        pass
                return px
        return real_import(name, globals, locals, fromlist, level)

    return imp


def make_builtins(numba_mode):
    d = dict(vars(builtins))
    d["__import__"] = make_import(numba_mode)
    d["float"] = symnp.symfloat
    d["int"] = symnp.symint
    d["complex"] = symnp.symcomplex
    d["max"] = symnp.symmax
    d["min"] = symnp.symmin
    d["round"] = symnp.symround
    return d


class AliasFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, alias, numba_mode):
        self.alias = alias
        self.bi = make_builtins(numba_mode)

    def find_spec(self, name, path, target=None):
        if name != self.alias and not name.startswith(self.alias + "."):
            return None
        rel = name.split(".")[1:]
        base = os.path.join(PKGDIR, *rel)
        if os.path.isdir(base):
            fn = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, fn, loader=self._loader(name, fn), submodule_search_locations=[base]
            )
        fn = base + ".py"
        if not os.path.exists(fn):
            return None
        return importlib.util.spec_from_file_location(name, fn, loader=self._loader(name, fn))

    def _loader(self, name, fn):
        bi = self.bi

        class L(importlib.abc.Loader):
            def create_module(self, spec):
                return None

            def exec_module(self, mod):
                with open(fn, encoding="utf-8") as f:
                    src = f.read()
                code = compile(src, fn + "#sym", "exec", dont_inherit=True)
                mod.__dict__["__builtins__"] = bi
                exec(code, mod.__dict__)

        return L()


def load_alias(alias="psym", numba_mode="fake"):
    if alias in sys.modules:
        return sys.modules[alias]
    sys.meta_path.insert(0, AliasFinder(alias, numba_mode))
    import importlib

    return importlib.import_module(alias)


def load_real():
    if sys.path[0] != SRC:
        sys.path.insert(0, SRC)
    import pystrata

    f = os.path.realpath(pystrata.__file__)
    if not f.startswith(os.path.realpath(PKGDIR)):
        raise RuntimeError(f"pystrata imported from {f}, not from {PKGDIR}")
    return pystrata


# which functions of the package were executed symbolically ------------------------
FUNCS = set()
_TOOL = 3


def start_monitor():
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL, "symex")
    except ValueError:
        return

    def on_start(code, off):
        if code.co_filename.endswith("#sym"):
            FUNCS.add(os.path.basename(code.co_filename[:-4]) + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(_TOOL, mon.events.PY_START, on_start)
    mon.set_events(_TOOL, mon.events.PY_START)


def stop_monitor():
    try:
        sys.monitoring.set_events(_TOOL, 0)
        sys.monitoring.free_tool_id(_TOOL)
    except ValueError:
        pass


def warm_kernels(ps):
    """Compile the numba kernels of the real package once, before forking."""
    import numpy as np

    try:
        with np.errstate(all="ignore"):
            st = [ps.site.SoilType(str(i), 18.0, None, 0.02) for i in range(2)]
            p = ps.site.Profile([ps.site.Layer(st[0], 10.0, 200.0), ps.site.Layer(st[1], 0, 800.0)], 0)
            m = ps.motion.Motion(np.array([0.5, 2.0]))
            for Q in (ps.propagation.LinearElasticCalculator, ps.propagation.QuarterWaveLenCalculator):
                c = Q()
                c(m, p, p.location("outcrop", index=-1))
                if hasattr(c, "calc_strain_tf"):
                    for z in (0, 1.5):
                        a = ps.site.Location(0, p[0], "within", z)
                        for zz in (0, 2.5):
                            c.calc_strain_tf(ps.site.Location(1, p[1], "within", zz), a)
                            c.calc_accel_tf(a, a)
    except Exception:  # noqa: BLE001
        pass


_PLAIN = []


def load_real_plain():
    """The real package a second time, imported as if numba were not installed."""
    if _PLAIN:
        return _PLAIN[0]
    load_real()
    name = "pystrata_plain"
    real_import = builtins.__import__

    def imp(n, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and n.split(".")[0] == "numba" and (globals or {}).get("__name__", "").split(".")[0] == name:
            raise ImportError("numba")
        return real_import(n, globals, locals, fromlist, level)

    spec = importlib.util.spec_from_file_location(
        name, os.path.join(PKGDIR, "__init__.py"), submodule_search_locations=[PKGDIR]
    )
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    builtins.__import__ = imp
    try:
        spec.loader.exec_module(mod)
    finally:
        builtins.__import__ = real_import
    _PLAIN.append(mod)
    return mod
