"""numpy on symbolic values: the SArr array type, ufuncs, functions, and the
`np` proxy that the alias-loaded code under test sees."""

import functools
import types as _types
from fractions import Fraction

import numpy as np

from . import term as T
from .term import Sym, SReal, SCplx, SBool, Unsupported


class SArr(np.ndarray):
    """Object array whose elements are symbolic or concrete numbers."""

    __array_priority__ = 1e5

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if return_scalar and arr.ndim == 0:
            return arr[()]
        return arr.view(SArr)

    # indexing -------------------------------------------------------------
    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, ckey(key))
        return r

    def __setitem__(self, key, value):
        sm = symmask(key)
        if sm is not None and sm.shape == self.shape[: sm.ndim]:
            if isinstance(value, np.ndarray) and value.ndim > 0 or isinstance(value, (list, tuple)):
                pass  # needs the concrete mask
            else:
                for idx in np.ndindex(sm.shape):
                    c = sm[idx]
                    if self.ndim == sm.ndim:
                        np.ndarray.__setitem__(
                            self, idx, T.ite(c, value, np.ndarray.__getitem__(self, idx))
                        )
                    else:
                        sub = np.ndarray.__getitem__(self, idx)
                        sub[...] = where(c, value, sub)
                return
        if isinstance(value, np.ndarray) and value.dtype != object:
            value = value.astype(object)
        np.ndarray.__setitem__(self, ckey(key), value)

    # reductions and methods --------------------------------------------------
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(T.add, self, axis, 0, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(T.mul, self, axis, 1, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return mean(self, axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return var(self, axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return sqrt_any(var(self, axis, ddof=ddof, keepdims=keepdims))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(T.maximum, self, axis, None, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(T.minimum, self, axis, None, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(lor2, self, axis, False, keepdims, T_bool)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(land2, self, axis, True, keepdims, T_bool)

    def cumsum(self, axis=None, dtype=None, out=None):
        return accumulate(T.add, self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return accumulate(T.mul, self, axis)

    def argmax(self, axis=None, out=None, **k):
        return argmax(self, axis)

    def argmin(self, axis=None, out=None, **k):
        return argmax(neg_arr(self), axis)

    def argsort(self, axis=-1, *a, **k):
        return argsort(self, axis)

    def sort(self, axis=-1, *a, **k):
        if self.ndim != 1:
            raise Unsupported("sort of a 2-D array")
        self[...] = sort(self)

    def clip(self, min=None, max=None, out=None, **k):
        return clip(self, min, max)

    def searchsorted(self, v, side="left", sorter=None):
        return searchsorted(self, v, side)

    def nonzero(self):
        return concrete_mask(self).nonzero()

    def dot(self, b, out=None):
        return matmul(self, b)

    def __matmul__(self, b):
        return matmul(self, b)

    def __rmatmul__(self, b):
        return matmul(b, self)

    def astype(self, dtype, *a, **k):
        return astype(self, dtype)

    def tolist(self):
        return np.ndarray.tolist(self)

    def round(self, *a, **k):
        raise Unsupported("round of a symbolic array")

    def conj(self):
        return elementwise(conj_any, self)

    conjugate = conj

    @property
    def real(self):
        return elementwise(real_any, self)

    @property
    def imag(self):
        return elementwise(imag_any, self)

    def copy(self, order="C"):
        return np.ndarray.copy(self).view(SArr)

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def __float__(self):
        if self.size == 1:
            return float(np.ndarray.item(self))
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __bool__(self):
        if self.size == 1:
            return bool(np.ndarray.item(self))
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __contains__(self, v):
        return bool(T.lor(*[T.lift_b(eq_any(e, v)) for e in self.flat]))

    def __deepcopy__(self, memo):
        return np.ndarray.copy(self).view(SArr)


def T_bool(x):
    return T.lift_b(x) if isinstance(x, Sym) else bool(x)


def lor2(a, b):
    return T.lor(T_bool(a), T_bool(b))


def land2(a, b):
    return T.land(T_bool(a), T_bool(b))


def real_any(x):
    return x.real


def imag_any(x):
    return x.imag


def conj_any(x):
    return x.conjugate() if hasattr(x, "conjugate") else x


def eq_any(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, (str, bytes, type(None))) or isinstance(b, (str, bytes, type(None))):
            return False
        return T.eq(a, b)
    return a == b


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, Sym) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def simplify_const(x):
    """Symbolic constant -> Python number."""
    if isinstance(x, Sym) and x.op in ("const", "cconst"):
        return x._pyvalue()
    if isinstance(x, Sym) and x.op == "bconst":
        return x.args[0]
    return x


def mk_array(x):
    """SArr from nested sequences/arrays (object dtype)."""
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        return x.astype(object).view(SArr)
    if isinstance(x, Sym) or np.isscalar(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(SArr)
    x = list(x)
    if any(isinstance(e, (list, tuple, np.ndarray, range)) and not (isinstance(e, np.ndarray) and e.ndim == 0) for e in x):
        subs = [mk_array(e) for e in x]
        sh = {s.shape for s in subs}
        if len(sh) != 1:
            raise ValueError("setting an array element with a sequence. inhomogeneous shape")
        out = np.empty((len(subs),) + subs[0].shape, dtype=object)
        for i, s in enumerate(subs):
            out[i] = s
        return out.view(SArr)
    out = np.empty(len(x), dtype=object)
    for i, e in enumerate(x):
        if isinstance(e, np.ndarray) and e.ndim == 0:
            e = e[()]
        out[i] = e
    return out.view(SArr)


def symmask(key):
    """The key as an object array of (partly) symbolic booleans, or None."""
    if isinstance(key, SBool) and key.op != "bconst":
        return None
    if isinstance(key, np.ndarray) and key.dtype == object and key.size:
        if any(isinstance(e, SBool) for e in key.flat):
            return key
    return None


def concrete_mask(key):
    """Concrete boolean array of a mask (forks)."""
    out = np.empty(key.shape, dtype=bool)
    for idx in np.ndindex(key.shape):
        out[idx] = bool(np.ndarray.__getitem__(key, idx))
    return out


def ckey(key):
    if isinstance(key, tuple):
        return tuple(ckey(k) for k in key)
    if isinstance(key, SBool):
        return bool(key)
    if isinstance(key, SReal):
        return int(key)
    if isinstance(key, slice):
        f = lambda v: int(v) if isinstance(v, Sym) else v  # noqa: E731
        return slice(f(key.start), f(key.stop), f(key.step))
    if isinstance(key, np.ndarray) and key.dtype == object:
        if key.size == 0:
            return np.zeros(key.shape, dtype=int)
        e0 = next(iter(key.flat))
        if isinstance(e0, (SBool, bool, np.bool_)):
            return concrete_mask(key)
        return np.array([int(e) for e in key.flat], dtype=int).reshape(key.shape)
    if isinstance(key, list) and any(isinstance(e, Sym) for e in key):
        return ckey(mk_array(key))
    return key


# elementwise ------------------------------------------------------------------
def _wrap_result(r):
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return r[()]
        if r.dtype == object:
            if r.size and all(isinstance(e, (bool, np.bool_)) for e in r.flat):
                return r.astype(bool)
            return r.view(SArr)
    return r


def _np1(x):
    """Promote Python scalars to numpy scalars so that 1/0 gives inf."""
    if isinstance(x, Sym) or isinstance(x, np.generic):
        return x
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, (int,)):
        return x if abs(x) > 2**53 else np.int64(x)
    if isinstance(x, float):
        return np.float64(x)
    if isinstance(x, complex):
        return np.complex128(x)
    return x


def elementwise(f, *args):
    arrs = [a if isinstance(a, np.ndarray) else a for a in args]
    objs = []
    for a in arrs:
        if isinstance(a, np.ndarray):
            objs.append(np.asarray(a.view(np.ndarray), dtype=object))
        elif isinstance(a, (list, tuple)):
            objs.append(mk_array(a).view(np.ndarray))
        else:
            b = np.empty((), dtype=object)
            b[()] = a
            objs.append(b)
    bc = np.broadcast_arrays(*objs) if len(objs) > 1 else objs
    shape = bc[0].shape
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(shape):
        out[idx] = f(*[b[idx] for b in bc])
    return _wrap_result(out)


def lifted(symf, npf):
    """Elementwise scalar function: numpy's on concrete values, ours on symbolic."""

    def f(*xs):
        if any(isinstance(x, Sym) for x in xs):
            return symf(*xs)
        with np.errstate(all="ignore"):
            return npf(*[_np1(x) for x in xs])

    return f


def _logic(f):
    return lambda *xs: f(*[T_bool(x) for x in xs])


def _logical_xor(a, b):
    return T.xor(a, b)


def _ands(a, b):
    return T.land(a, b)


def _ors(a, b):
    return T.lor(a, b)


def _hypot(a, b):
    return T.sqrt(T.add(T.mul(a, a), T.mul(b, b)))


def _angle_unsup(*a):
    raise Unsupported("arctan/angle of a symbolic value")


UF = {
    "add": T.add,
    "subtract": T.sub,
    "multiply": T.mul,
    "divide": T.div,
    "true_divide": T.div,
    "floor_divide": T.floordiv,
    "remainder": T.mod,
    "power": T.power,
    "float_power": T.power,
    "negative": T.neg,
    "positive": lambda x: x,
    "absolute": T.absolute,
    "fabs": T.absolute,
    "sign": T.sign,
    "sqrt": T.sqrt,
    "square": lambda x: T.mul(x, x),
    "cbrt": lambda x: T.power(x, Fraction(1, 3)),
    "reciprocal": lambda x: T.div(1, x),
    "exp": T.exp,
    "exp2": lambda x: T.power(2, x),
    "expm1": T.expm1,
    "log": T.log,
    "log10": T.log10,
    "log2": T.log2,
    "log1p": T.log1p,
    "sin": T.sin,
    "cos": T.cos,
    "tan": T.tan,
    "sinh": T.sinh,
    "cosh": T.cosh,
    "tanh": T.tanh,
    "maximum": T.maximum,
    "minimum": T.minimum,
    "fmax": T.fmax,
    "fmin": T.fmin,
    "less": T.lt,
    "less_equal": T.le,
    "greater": T.gt,
    "greater_equal": T.ge,
    "equal": T.eq,
    "not_equal": T.ne,
    "logical_and": _logic(_ands),
    "logical_or": _logic(_ors),
    "logical_not": _logic(T.lnot),
    "logical_xor": _logic(_logical_xor),
    "bitwise_and": _logic(_ands),
    "bitwise_or": _logic(_ors),
    "invert": _logic(T.lnot),
    "bitwise_xor": _logic(_logical_xor),
    "isfinite": T.isfinite,
    "isnan": T.isnan,
    "isinf": T.isinf,
    "floor": T.floor,
    "ceil": T.ceil,
    "trunc": T.trunc,
    "rint": T.rint,
    "conjugate": conj_any,
    "hypot": _hypot,
    "arctan2": _angle_unsup,
    "arctan": _angle_unsup,
    "heaviside": lambda x, h: T.ite(T.lt(x, 0), 0, T.ite(T.eq(x, 0), h, 1)),
    "deg2rad": lambda x: T.mul(x, np.pi / 180),
    "rad2deg": lambda x: T.mul(x, 180 / np.pi),
    "radians": lambda x: T.mul(x, np.pi / 180),
    "degrees": lambda x: T.mul(x, 180 / np.pi),
    "copysign": lambda a, b: T.ite(T.lt(b, 0), T.neg(T.absolute(a)), T.absolute(a)),
}

_LIFT = {}


def scalar_fn(ufunc):
    name = ufunc.__name__
    f = _LIFT.get(name)
    if f is None:
        if name not in UF:
            raise Unsupported(f"numpy ufunc {name}")
        symf = UF[name]
        npf = ufunc
        if name in ("invert", "bitwise_and", "bitwise_or", "bitwise_xor"):
            base = ufunc

            def npf(*xs, base=base):
                return base(*xs)

        f = _LIFT[name] = lifted(symf, npf)
    return f


def array_ufunc(ufunc, method, inputs, kwargs):
    kwargs = dict(kwargs)
    out = kwargs.pop("out", None)
    kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    if ufunc is np.matmul and method == "__call__":
        r = matmul(*inputs)
    elif method == "__call__":
        where_ = kwargs.pop("where", True)
        if kwargs:
            raise Unsupported(f"ufunc keyword {list(kwargs)}")
        r = elementwise(scalar_fn(ufunc), *inputs)
        if where_ is not True:
            o = out[0] if out is not None else mk_array(r)
            r = where(where_, r, o)
    elif method == "reduce":
        axis = kwargs.get("axis", 0)
        r = reduce_(scalar_fn(ufunc), mk_array(inputs[0]), axis, _IDENT.get(ufunc.__name__), kwargs.get("keepdims", False), _PRE.get(ufunc.__name__))
    elif method == "accumulate":
        r = accumulate(scalar_fn(ufunc), mk_array(inputs[0]), kwargs.get("axis", inputs[1] if len(inputs) > 1 else 0))
    elif method == "outer":
        a, b = mk_array(inputs[0]), mk_array(inputs[1])
        r = elementwise(scalar_fn(ufunc), a.reshape(a.shape + (1,) * b.ndim), b)
    else:
        raise Unsupported(f"ufunc method {method}")
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, np.ndarray):
            if o.dtype != object:
                if has_sym(r):
                    raise Unsupported("in-place update of a native array with symbolic values")
            o[...] = r
            return o
    return r


_IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}
_PRE = {"logical_and": T_bool, "logical_or": T_bool}


def reduce_(f, a, axis, ident, keepdims=False, pre=None):
    a = mk_array(a)
    f2 = f
    if f in (T.add, T.mul, T.maximum, T.minimum):
        f2 = lifted(f, {T.add: np.add, T.mul: np.multiply, T.maximum: np.maximum, T.minimum: np.minimum}[f])

    def red(vals):
        it = iter(vals)
        acc = None
        for v in it:
            if pre is not None:
                v = pre(v)
            acc = v if acc is None else f2(acc, v)
        if acc is None:
            if ident is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            return np.float64(ident) if not isinstance(ident, bool) else ident
        return acc

    if axis is None:
        r = red(a.flat)
        if keepdims:
            return mk_array([r]).reshape((1,) * a.ndim)
        return r
    if isinstance(axis, tuple):
        for ax in sorted((x % a.ndim for x in axis), reverse=True):
            a = reduce_(f, a, ax, ident, keepdims, pre)
        return a
    axis = int(axis) % max(a.ndim, 1)
    b = np.moveaxis(np.asarray(a.view(np.ndarray)), axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for idx in np.ndindex(out.shape):
        out[idx] = red(b[idx])
    if keepdims:
        out = np.expand_dims(out, axis)
    return _wrap_result(out)


def accumulate(f, a, axis):
    a = mk_array(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    f2 = f
    if f in (T.add, T.mul):
        f2 = lifted(f, {T.add: np.add, T.mul: np.multiply}[f])
    b = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.empty(b.shape, dtype=object)
    for idx in np.ndindex(b.shape[:-1]):
        acc = None
        for j in range(b.shape[-1]):
            acc = b[idx + (j,)] if j == 0 else f2(acc, b[idx + (j,)])
            out[idx + (j,)] = acc
    return np.moveaxis(out, -1, axis).view(SArr)


def neg_arr(a):
    return elementwise(lifted(T.neg, np.negative), a)


def sqrt_any(x):
    return elementwise(lifted(T.sqrt, np.sqrt), x) if isinstance(x, np.ndarray) else lifted(T.sqrt, np.sqrt)(x)


# functions ------------------------------------------------------------------
FN = {}


def impl(*names):
    def deco(f):
        for n in names:
            FN[n] = f
        return f

    return deco


@impl("where")
def where(c, *ab):
    if not ab:
        return concrete_mask(mk_array(c)).nonzero()
    return elementwise(lambda c, a, b: T.ite(T_bool(c), a, b), c, *ab)


@impl("mean")
def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = mk_array(a)
    s = reduce_(T.add, a, axis, 0, keepdims)
    n = a.size if axis is None else a.shape[axis]
    if n == 0:
        return np.nan
    return s / n if isinstance(s, np.ndarray) else lifted(T.div, np.divide)(s, n)


@impl("average")
def average(a, axis=None, weights=None, returned=False, **k):
    a = mk_array(a)
    if weights is None:
        return mean(a, axis)
    w = mk_array(weights)
    if a.shape != w.shape:
        if axis is None or w.ndim != 1 or w.shape[0] != a.shape[axis]:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        sh = [1] * a.ndim
        sh[axis] = -1
        w = elementwise(lambda x, y: y, a, w.reshape(sh))
    num = reduce_(T.add, a * w, axis, 0)
    den = reduce_(T.add, w, axis, 0)
    return _s(num) / _s(den)


def _s(x):
    return x if isinstance(x, (Sym, np.ndarray)) else np.float64(x) if not isinstance(x, (complex, np.complexfloating)) else x


@impl("var")
def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = mk_array(a)
    m = mean(a, axis, keepdims=True)
    d = a - m
    n = a.size if axis is None else a.shape[axis]
    s = reduce_(T.add, d * d, axis, 0, keepdims)
    return _s(s) / np.float64(n - ddof)


@impl("std")
def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return sqrt_any(var(a, axis, ddof=ddof, keepdims=keepdims))


@impl("median")
def median(a, axis=None, **k):
    a = mk_array(a)
    if axis is not None and a.ndim > 1:
        b = np.moveaxis(a.view(np.ndarray), axis, -1)
        out = np.empty(b.shape[:-1], dtype=object)
        for idx in np.ndindex(out.shape):
            out[idx] = median(mk_array(b[idx]))
        return _wrap_result(out)
    s = sort(a.reshape(-1))
    n = s.size
    if n % 2:
        return s[n // 2]
    return (s[n // 2 - 1] + s[n // 2]) / 2


def _nan_filtered(vals):
    return [v for v in vals if isinstance(v, Sym) or not (v != v)]


def _nanred(g):
    def f(a, axis=None, ddof=0, **k):
        a = mk_array(a)
        if axis is None:
            return g(_nan_filtered(a.flat), ddof)
        b = np.moveaxis(a.view(np.ndarray), axis, -1)
        out = np.empty(b.shape[:-1], dtype=object)
        for idx in np.ndindex(out.shape):
            out[idx] = g(_nan_filtered(b[idx]), ddof)
        return _wrap_result(out)

    return f


FN["nanmean"] = _nanred(lambda v, d: mean(v) if v else np.nan)
FN["nansum"] = _nanred(lambda v, d: mk_array(v).sum() if v else 0.0)
FN["nanvar"] = _nanred(lambda v, d: var(v, ddof=d) if v else np.nan)
FN["nanstd"] = _nanred(lambda v, d: std(v, ddof=d) if v else np.nan)
FN["nanmax"] = _nanred(lambda v, d: mk_array(v).max() if v else np.nan)
FN["nanmin"] = _nanred(lambda v, d: mk_array(v).min() if v else np.nan)
FN["nanmedian"] = _nanred(lambda v, d: median(v) if v else np.nan)


@impl("sum")
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_(T.add, a, axis, 0, keepdims)


@impl("prod")
def prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_(T.mul, a, axis, 1, keepdims)


@impl("max", "amax")
def amax(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(T.maximum, a, axis, None, keepdims)


@impl("min", "amin")
def amin(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(T.minimum, a, axis, None, keepdims)


@impl("ptp")
def ptp(a, axis=None, **k):
    return amax(a, axis) - amin(a, axis)


@impl("any")
def any_(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(lor2, a, axis, False, keepdims, T_bool)


@impl("all")
def all_(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(land2, a, axis, True, keepdims, T_bool)


@impl("cumsum")
def cumsum(a, axis=None, dtype=None, out=None):
    return accumulate(T.add, a, axis)


@impl("cumprod")
def cumprod(a, axis=None, dtype=None, out=None):
    return accumulate(T.mul, a, axis)


@impl("diff")
def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = mk_array(a)
    parts = [a]
    if prepend is not None:
        parts.insert(0, mk_array(prepend if np.ndim(prepend) else [prepend]))
    if append is not None:
        parts.append(mk_array(append if np.ndim(append) else [append]))
    if len(parts) > 1:
        a = concatenate(parts, axis=axis)
    for _ in range(n):
        b = np.moveaxis(a.view(np.ndarray), axis, -1)
        d = elementwise(lifted(T.sub, np.subtract), b[..., 1:], b[..., :-1])
        a = np.moveaxis(mk_array(d), -1, axis).view(SArr)
    return a


@impl("trapezoid", "trapz")
def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = mk_array(y)
    if axis != -1 and y.ndim > 1:
        y = np.moveaxis(y.view(np.ndarray), axis, -1).view(SArr)
    if x is None:
        d = dx
    else:
        d = diff(x)
    s = (y[..., 1:] + y[..., :-1]) * d / 2.0
    return reduce_(T.add, s, -1, 0)


def cumulative_trapezoid(y, x=None, dx=1.0, axis=-1, initial=None):
    y = mk_array(y)
    d = diff(x) if x is not None else dx
    res = accumulate(T.add, (y[..., 1:] + y[..., :-1]) * d / 2.0, -1)
    if initial is not None:
        res = concatenate([mk_array(np.full(res.shape[:-1] + (1,), initial)), res], axis=-1)
    return res


@impl("interp")
def interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = mk_array(xp), mk_array(fp)
    left = fp[0] if left is None else left
    right = fp[-1] if right is None else right

    def one(v):
        return _pw_linear(v, list(xp), list(fp), left, right)

    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        return elementwise(one, mk_array(x))
    return one(x)


def _lf(f, npf):
    return lifted(f, npf)


_ADD, _SUB, _MUL, _DIV = (
    lifted(T.add, np.add),
    lifted(T.sub, np.subtract),
    lifted(T.mul, np.multiply),
    lifted(T.div, np.divide),
)
_LE, _LT = lifted(T.le, np.less_equal), lifted(T.lt, np.less)


def _pw_linear(v, xs, ys, left, right):
    """Piecewise-linear interpolation as a fold of conditionals (no fork)."""
    if not isinstance(v, Sym) and v != v:
        return np.nan
    n = len(xs)
    # ascending xs is the contract; y for x in [xs[i], xs[i+1])
    r = ys[-1]
    for i in reversed(range(n - 1)):
        t = _SUB(v, xs[i])
        w = _SUB(xs[i + 1], xs[i])
        dy = _SUB(ys[i + 1], ys[i])
        seg_c = _LT(v, xs[i + 1])
        if isinstance(seg_c, (bool, np.bool_)) and not seg_c:
            continue
        # zero-width segments are never selected: v < x[i+1] = x[i] is cut by the
        # previous conditional
        if isinstance(w, Sym) and not w.nz:
            w_safe = T.ite(T.eq(w, 0), 1, w)
            if isinstance(w_safe, Sym):
                T.mark(w_safe, nz=True)
        else:
            w_safe = w
        if not isinstance(w_safe, Sym) and w_safe == 0:
            seg = ys[i]
        else:
            seg = _ADD(ys[i], _MUL(dy, _DIV(t, w_safe)))
        r = T.ite(seg_c, seg, r) if isinstance(seg_c, Sym) else seg
    c = _LT(v, xs[0])
    r = T.ite(c, left, r) if isinstance(c, Sym) else (left if c else r)
    c = _LT(xs[-1], v)
    r = T.ite(c, right, r) if isinstance(c, Sym) else (right if c else r)
    return r


class Interp1d:
    """Contract stub for scipy.interpolate.interp1d(kind='linear' | 'next' | 'previous')."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        if kind not in ("linear", 1, "next", "previous"):
            raise Unsupported(f"interp1d kind {kind}")
        self.kind = kind
        x, y = mk_array(x), mk_array(y)
        if x.shape[0] != y.shape[axis]:
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not assume_sorted and any(isinstance(e, Sym) for e in x):
            order = argsort(x)
            if list(order) != list(range(len(order))):
                x = x[order]
                y = y[order] if y.ndim == 1 else np.take(y.view(np.ndarray), order, axis=axis).view(SArr)
        elif not assume_sorted:
            order = np.argsort(x.astype(float) if not isinstance(x, SArr) else np.array(list(x), dtype=float), kind="mergesort")
            x = x[order]
            y = y[order] if y.ndim == 1 else np.take(y.view(np.ndarray), order, axis=axis).view(SArr)
        self.x, self.y = x, y
        self.axis = axis
        self.fill_value = fill_value
        self.bounds_error = bounds_error
        if bounds_error is None and fill_value is None:
            self.bounds_error = True

    def __call__(self, v):
        scalar = not isinstance(v, (np.ndarray, list, tuple))
        vs = mk_array([v] if scalar else v)
        if self.y.ndim == 1:
            r = elementwise(lambda e: self._one(e, self.y), vs.reshape(-1))
            r = mk_array(r).reshape(vs.shape)
            if scalar:
                return r.reshape(())  # interp1d returns a 0-d array
            return r
        if self.axis not in (0, -self.y.ndim) or self.y.ndim != 2:
            if self.axis in (-1, self.y.ndim - 1) and self.y.ndim == 2:
                rows = [mk_array(elementwise(lambda e: self._one(e, row), vs.reshape(-1))) for row in self.y]
                r = mk_array(rows)
                return r[:, 0] if scalar else r
            raise Unsupported("interp1d axis")
        cols = [mk_array(elementwise(lambda e: self._one(e, self.y[:, j]), vs.reshape(-1))) for j in range(self.y.shape[1])]
        r = mk_array(cols).T
        return r[0] if scalar else r

    def _one(self, v, y):
        x = self.x
        if self.fill_value == "extrapolate" if isinstance(self.fill_value, str) else False:
            n = len(x)
            l = _ADD(y[0], _MUL(_SUB(y[1], y[0]), _DIV(_SUB(v, x[0]), _SUB(x[1], x[0]))))
            h = _ADD(y[n - 1], _MUL(_SUB(y[n - 1], y[n - 2]), _DIV(_SUB(v, x[n - 1]), _SUB(x[n - 1], x[n - 2]))))
            return _pw_linear(v, list(x), list(y), l, h)
        fv = self.fill_value
        if isinstance(fv, tuple):
            lo, hi = fv
        elif fv is None:
            lo = hi = np.nan
        else:
            lo = hi = fv
        if self.bounds_error:
            if bool(_LT(v, x[0])) or bool(_LT(x[-1], v)):
                raise ValueError("A value in x_new is out of the interpolation range.")
        if self.kind in ("next", "previous"):
            # value at the next (previous) point, the fill values outside the range
            if bool(_LT(v, x[0])):
                return lo
            if bool(_LT(x[-1], v)):
                return hi
            if self.kind == "next":
                for xi, yi in zip(x, y):
                    if not bool(_LT(xi, v)):
                        return yi
            for xi, yi in zip(list(x)[::-1], list(y)[::-1]):
                if not bool(_LT(v, xi)):
                    return yi
        return _pw_linear(v, list(x), list(y), lo, hi)


@impl("searchsorted")
def searchsorted(a, v, side="left", sorter=None):
    a = mk_array(a)

    def one(x):
        for i, e in enumerate(a):
            c = _LE(x, e) if side == "left" else _LT(x, e)
            if bool(c):
                return i
        return len(a)

    if isinstance(v, (np.ndarray, list, tuple)):
        v = mk_array(v)
        return np.array([one(x) for x in v.flat], dtype=int).reshape(v.shape)
    return one(v)


@impl("argsort")
def argsort(a, axis=-1, *aa, **k):
    a = mk_array(a)
    if a.ndim != 1:
        raise Unsupported("argsort of a 2-D array")
    idx = []
    for i in range(a.size):
        j = len(idx)
        while j > 0 and bool(_LT(a[i], a[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return np.array(idx, dtype=int)


@impl("sort")
def sort(a, axis=-1, *aa, **k):
    a = mk_array(a)
    if a.ndim == 1:
        return a[argsort(a)]
    raise Unsupported("sort of a 2-D array")


@impl("argmax")
def argmax(a, axis=None, **k):
    a = mk_array(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported("argmax with axis")
    best = 0
    f = list(a.flat)
    for i in range(1, len(f)):
        c = _LT(T_num(f[best]), T_num(f[i]))
        if bool(c):
            best = i
    return best


def T_num(x):
    return T.lift(x) if isinstance(x, SBool) else x


@impl("argmin")
def argmin(a, axis=None, **k):
    return argmax(neg_arr(mk_array(a)), axis)


@impl("argwhere")
def argwhere(a):
    return np.argwhere(concrete_mask(mk_array(a)))


@impl("nonzero")
def nonzero(a):
    return concrete_mask(mk_array(a)).nonzero()


@impl("flatnonzero")
def flatnonzero(a):
    return np.flatnonzero(concrete_mask(mk_array(a)))


@impl("count_nonzero")
def count_nonzero(a, axis=None, **k):
    return np.count_nonzero(concrete_mask(mk_array(a)), axis=axis)


@impl("clip")
def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    if a_min is None:
        a_min = min
    if a_max is None:
        a_max = max
    mx, mn = lifted(T.maximum, np.maximum), lifted(T.minimum, np.minimum)

    def one(v, lo=None, hi=None):
        return v

    r = a if isinstance(a, (np.ndarray, Sym)) else (mk_array(a) if isinstance(a, (list, tuple)) else a)
    if a_min is not None:
        r = elementwise(mx, r, a_min)
    if a_max is not None:
        r = elementwise(mn, r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


@impl("isclose")
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return elementwise(lambda x, y: T.isclose(x, y, rtol, atol, equal_nan), a, b)


@impl("allclose")
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    return bool(all_(r)) if isinstance(r, np.ndarray) else bool(r)


@impl("array_equal")
def array_equal(a, b, **k):
    a, b = mk_array(a), mk_array(b)
    if a.shape != b.shape:
        return False
    return bool(all_(elementwise(T.eq, a, b))) if a.size else True


@impl("concatenate", "concat")
def concatenate(arrs, axis=0, out=None, **k):
    arrs = [mk_array(a).view(np.ndarray) for a in arrs]
    return np.concatenate(arrs, axis=axis).view(SArr)


def _stacker(f):
    def g(arrs, *a, **k):
        return f([mk_array(x).view(np.ndarray) for x in arrs], *a, **k).view(SArr)

    return g


for _n in ("vstack", "hstack", "stack", "column_stack", "dstack"):
    FN[_n] = _stacker(getattr(np, _n))


@impl("append")
def append(arr, values, axis=None):
    if axis is None:
        return concatenate([mk_array(arr).reshape(-1), mk_array(values).reshape(-1)])
    return concatenate([arr, values], axis=axis)


@impl("insert")
def insert_(arr, obj, values, axis=None):
    return np.insert(mk_array(arr).view(np.ndarray), obj, values, axis=axis).view(SArr)


@impl("pad")
def pad(array, pad_width, mode="constant", constant_values=0, **k):
    a = mk_array(array).view(np.ndarray)
    if mode != "constant":
        return np.pad(a, pad_width, mode=mode, **k).view(SArr)
    pw = np.asarray(pad_width)
    pw = np.broadcast_to(pw, (a.ndim, 2))
    cv = np.empty((a.ndim, 2), dtype=object)
    cv[...] = constant_values
    out = np.empty([s + p[0] + p[1] for s, p in zip(a.shape, pw)], dtype=object)
    out[...] = constant_values if np.ndim(constant_values) == 0 else cv[0, 0]
    sl = tuple(slice(p[0], p[0] + s) for s, p in zip(a.shape, pw))
    out[sl] = a
    return out.view(SArr)


@impl("matmul", "dot")
def matmul(a, b, out=None):
    a, b = mk_array(a), mk_array(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError("matmul: shape mismatch")
        return reduce_(T.add, a * b, None, 0)
    if a.ndim == 1:
        return matmul(a.reshape(1, -1), b)[0]
    if b.ndim == 1:
        return matmul(a, b.reshape(-1, 1))[:, 0]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: shape mismatch")
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            out[i, j] = reduce_(T.add, a[i, :] * b[:, j], None, 0)
    return out.view(SArr)


@impl("inner")
def inner(a, b):
    return matmul(a, b)


@impl("vdot")
def vdot(a, b):
    return matmul(conj_any(mk_array(a)), b)


@impl("outer")
def outer(a, b, out=None):
    return mk_array(a).reshape(-1, 1) * mk_array(b).reshape(1, -1)


@impl("real")
def real(a):
    return a.real if isinstance(a, (Sym, np.ndarray)) else np.real(a)


@impl("imag")
def imag(a):
    return a.imag if isinstance(a, (Sym, np.ndarray)) else np.imag(a)


@impl("angle")
def angle(a, deg=False):
    raise Unsupported("angle")


@impl("copyto")
def copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        m = np.broadcast_to(where, dst.shape)
        s = np.broadcast_to(np.asarray(mk_array(src).view(np.ndarray)), dst.shape)
        for idx in np.ndindex(dst.shape):
            dst[idx] = T.ite(T_bool(m[idx]), s[idx], dst[idx])


@impl("ndim")
def ndim(a):
    if isinstance(a, Sym):
        return 0
    return np.ndarray.ndim.__get__(a) if isinstance(a, np.ndarray) else mk_array(a).ndim


@impl("shape")
def shape(a):
    return () if isinstance(a, Sym) else mk_array(a).shape


@impl("size")
def size(a, axis=None):
    a = mk_array(a)
    return a.size if axis is None else a.shape[axis]


@impl("iscomplexobj")
def iscomplexobj(a):
    return any(T.is_cplx(e) for e in mk_array(a).flat)


@impl("isreal")
def isreal(a):
    return elementwise(lambda e: not T.is_cplx(e), a)


@impl("isscalar")
def isscalar(a):
    return isinstance(a, Sym) or np.isscalar(a)


@impl("nan_to_num")
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def one(e):
        if isinstance(e, Sym):
            return e
        return np.nan_to_num(e, nan=nan, posinf=posinf, neginf=neginf)

    return elementwise(one, x)


@impl("select")
def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where(c, v, r)
    return r


@impl("piecewise")
def piecewise(*a, **k):
    raise Unsupported("piecewise")


@impl("gradient")
def gradient(*a, **k):
    raise Unsupported("gradient")


@impl("vectorize")
def vectorize(f, *a, **k):
    return lambda *xs: elementwise(f, *xs)


@impl("polyval")
def polyval(p, x):
    r = 0
    for c in mk_array(p):
        r = r * x + c
    return r


# FFT by the DFT sum; exact twiddles where possible ------------------------------
def _cis(k, n):
    """exp(-2 pi i k / n) as an exact pair when it is algebraic of small degree."""
    k %= n
    fr = Fraction(k, n)
    c = _cosq(fr)
    s = _cosq((fr - Fraction(1, 4)) % 1)  # sin(2 pi x) = cos(2 pi (x - 1/4))
    return c, T.neg(s)


def _cosq(fr):
    """cos(2 pi fr) exactly for multiples of 1/8, 1/12; else double constant."""
    fr = fr % 1
    if fr > Fraction(1, 2):
        fr = 1 - fr
    if fr > Fraction(1, 4):
        return T.neg(_cosq(Fraction(1, 2) - fr))
    tab = {
        Fraction(0): lambda: T.const(1),
        Fraction(1, 4): lambda: T.const(0),
        Fraction(1, 8): lambda: T.div(T.sqrt(T.const(2)), 2),
        Fraction(1, 6): lambda: T.const(Fraction(1, 2)),
        Fraction(1, 12): lambda: T.div(T.sqrt(T.const(3)), 2),
        # cos 36deg = (1+sqrt5)/4, cos 72deg = (sqrt5-1)/4
        Fraction(1, 10): lambda: T.div(T.add(1, T.sqrt(T.const(5))), 4),
        Fraction(1, 5): lambda: T.div(T.sub(T.sqrt(T.const(5)), 1), 4),
    }
    f = tab.get(fr)
    return f() if f else T.const(float(np.cos(2 * np.pi * float(fr))))


def rfft(a, n=None, axis=-1, norm=None):
    if norm not in (None, "backward"):
        raise Unsupported("fft norm")
    a = list(mk_array(a))
    n = len(a) if n is None else int(n)
    a = (a + [0] * n)[:n]
    out = []
    for k in range(n // 2 + 1):
        re, im = T.const(0), T.const(0)
        for j, v in enumerate(a):
            c, s = _cis(k * j, n)
            re = T.add(re, T.mul(v, c))
            im = T.add(im, T.mul(v, s))
        out.append(T.mk(re, im))
    return mk_array(out)


def irfft(x, n=None, axis=-1, norm=None):
    if norm not in (None, "backward"):
        raise Unsupported("fft norm")
    x = [T.to_c(T.lift(v)) for v in mk_array(x)]
    n = 2 * (len(x) - 1) if n is None else int(n)
    if n < 1:
        raise ValueError(f"Invalid number of data points ({n}) specified.")
    m = n // 2 + 1
    x = (x + [T.cconst(0, 0)] * m)[:m]
    out = []
    for j in range(n):
        acc = T.re_(x[0])
        for k in range(1, m):
            c, s = _cis(k * j, n)
            # Re(X exp(+2 pi i k j/n)), conj twiddle: c - (-s) i
            re, im = T.re_(x[k]), T.im_(x[k])
            if 2 * k == n:
                acc = T.add(acc, T.mul(re, c))
            else:
                acc = T.add(acc, T.mul(2, T.add(T.mul(re, c), T.mul(im, s))))
        out.append(T.div(acc, n))
    return mk_array(out)


def fft(a, n=None, axis=-1, norm=None):
    a = [T.to_c(T.lift(v)) for v in mk_array(a)]
    n = len(a) if n is None else int(n)
    a = (a + [T.cconst(0, 0)] * n)[:n]
    out = []
    for k in range(n):
        acc = T.cconst(0, 0)
        for j, v in enumerate(a):
            c, s = _cis(k * j, n)
            acc = T.add(acc, T.mul(v, T.mk(c, s)))
        out.append(acc)
    return mk_array(out)


def ifft(a, n=None, axis=-1, norm=None):
    x = mk_array([T.conj(T.lift(v)) for v in mk_array(a)])
    r = fft(x, n)
    return mk_array([T.div(T.conj(v), len(r)) for v in r])


# dispatch -----------------------------------------------------------------------
def _as_objs(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return type(x)(_as_objs(e) for e in x)
    return x


SHAPE_FUNCS = {
    "reshape", "ravel", "transpose", "swapaxes", "moveaxis", "rollaxis", "roll", "flip",
    "flipud", "fliplr", "squeeze", "expand_dims", "repeat", "tile", "broadcast_to",
    "broadcast_arrays", "atleast_1d", "atleast_2d", "atleast_3d", "split", "array_split",
    "hsplit", "vsplit", "take", "diag", "diagonal", "delete", "rot90", "copy", "block",
    "take_along_axis", "compress", "tril", "triu", "shares_memory", "may_share_memory", "result_type",
    "put", "place", "resize", "array_repr", "array_str", "array2string", "trim_zeros", "eye", "meshgrid",
    "rec.array", "fill_diagonal",
}


def array_function(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, "__module__", "") or ""
    if "fft" in mod:
        f = {"rfft": rfft, "irfft": irfft, "fft": fft, "ifft": ifft}.get(name)
        if f is None:
            raise Unsupported(f"numpy.fft.{name}")
        return f(*args, **kwargs)
    if name in FN:
        return FN[name](*args, **kwargs)
    if name in ("zeros_like", "ones_like", "empty_like", "full_like"):
        return getattr(PROXY, name)(*args, **kwargs)
    if name in SHAPE_FUNCS:
        r = func(*[_obj(a) for a in args], **{k: _obj(v) for k, v in kwargs.items()})
        return _view(r)
    raise Unsupported(f"numpy function {mod}.{name} on symbolic values")


def _obj(x):
    if isinstance(x, Sym):
        return mk_array(x).view(np.ndarray)
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        if has_sym(x):
            return mk_array(x).view(np.ndarray) if not any(isinstance(e, np.ndarray) for e in x) else [_obj(e) for e in x]
        return type(x)(_obj(e) for e in x) if type(x) in (list, tuple) else x
    return x


def _view(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return r.view(SArr) if r.ndim else r[()]
        return r
    if isinstance(r, (list, tuple)):
        return type(r)(_view(e) for e in r)
    return r


# casting ------------------------------------------------------------------------
class SymFloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SReal))

    def __eq__(cls, other):
        return other is cls or other is float

    def __hash__(cls):
        return hash(float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class symfloat(float, metaclass=SymFloatMeta):
    """Replaces `float` in the code under test."""

    def __new__(cls, x=0.0):
        if isinstance(x, SReal):
            return x
        if isinstance(x, SBool):
            return T.lift(x)
        if isinstance(x, SCplx):
            raise TypeError("can't convert complex to float")
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return symfloat(x.item())
        if isinstance(x, str) and T.CTX is not None and T.CTX.tokens:
            v = T.CTX.tokens.get(x.strip())
            if v is not None:
                return v
        return float(x)


class SymIntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __eq__(cls, other):
        return other is cls or other is int

    def __hash__(cls):
        return hash(int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class symint(int, metaclass=SymIntMeta):
    def __new__(cls, x=0, *a):
        return int(x, *a) if a else int(x)


class SymCplxMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (complex, SCplx))

    def __eq__(cls, other):
        return other is cls or other is complex

    def __hash__(cls):
        return hash(complex)


class symcomplex(complex, metaclass=SymCplxMeta):
    def __new__(cls, *a):
        if any(isinstance(x, Sym) for x in a):
            if len(a) == 1:
                return T.to_c(T.lift(a[0]))
            return T.add(T.to_c(T.lift(a[0])), T.mul(T.cconst(0, 1), a[1]))
        return complex(*a)


def kind_of(dtype):
    """'f', 'c', 'i', 'b', 'O', 'U' of a dtype specification."""
    if dtype is None:
        return "f"
    if dtype is symfloat or dtype is float:
        return "f"
    if dtype is symcomplex or dtype is complex:
        return "c"
    if dtype is symint or dtype is int:
        return "i"
    return np.dtype(dtype).kind


def real_dtype(dtype):
    return {symfloat: float, symcomplex: complex, symint: int}.get(dtype, dtype) if isinstance(dtype, type) else dtype


def cast_scalar(x, dtype):
    k = kind_of(dtype)
    if k in "iu":
        return int(T.trunc(x)) if isinstance(x, SReal) else int(x)
    if k == "b":
        return T.lift_b(x)
    if k == "f":
        if isinstance(x, SBool):
            return T.lift(x)
        if isinstance(x, SCplx):
            return T.re_(x)
        if isinstance(x, Sym):
            return x
        return np.float64(x) if not T.is_cplx(x) else np.float64(x.real)
    if k == "c":
        return T.to_c(T.lift(x)) if isinstance(x, Sym) else np.complex128(x)
    if k == "O":
        return x
    raise Unsupported(f"cast to {dtype}")


def astype(a, dtype):
    k = kind_of(dtype)
    if k in "iu":
        return np.array([int(cast_scalar(e, int)) for e in a.flat], dtype=int).reshape(a.shape)
    if k == "b":
        r = elementwise(lambda e: T_bool(e), a)
        return r
    return mk_array(elementwise(lambda e: cast_scalar(e, dtype), a)) if a.size else np.ndarray.copy(a).view(SArr)


# the numpy proxy ------------------------------------------------------------------
_NUMBER = (Sym, float, int, complex, np.number)


def _numeric(a):
    """native float/complex array -> SArr, other kinds unchanged"""
    if type(a) is np.ndarray:
        if a.dtype.kind in "fc":
            return a.astype(object).view(SArr)
        if a.dtype == object and a.size and all(isinstance(e, _NUMBER) and not isinstance(e, (bool, np.bool_)) for e in a.flat):
            return a.view(SArr)
    return a


class RandomStub:
    def __getattr__(self, name):
        raise Unsupported(f"np.random.{name}")


class NpProxy(_types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__["fft"] = FftProxy()
        self.__dict__["random"] = RandomProxy()
        self.__dict__["r_"] = RProxy(np.r_)
        self.__dict__["c_"] = CProxy()
        self.__dict__["linalg"] = LinalgProxy()
        self.__dict__["emath"] = np.emath

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            w = _ufunc_proxy(v)
        elif callable(v) and not isinstance(v, type):
            w = _func_proxy(v, name)
        else:
            w = v
        self.__dict__[name] = w
        return w

    # creation
    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        if isinstance(x, (map, filter, zip)) or hasattr(x, "__next__"):
            return np.array(x)
        if dtype is not None and kind_of(dtype) not in "fcOiub":
            return np.array(x, dtype=dtype)
        if isinstance(x, np.ndarray) and x.dtype != object and dtype is None:
            r = _numeric(x.copy()) if copy else _numeric(x)
        elif has_sym(x) or _has_sarr(x):
            r = mk_array(x)
            if r is x:
                r = r.copy()
            if dtype is not None:
                r = astype(r, dtype)
        else:
            r = _numeric(np.array(x, dtype=real_dtype(dtype)))
            if dtype is None and r.dtype.kind in "iu":
                pass
        while isinstance(r, np.ndarray) and r.ndim < ndmin:
            r = r[None]
        return r

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SArr) and dtype is None:
            return x
        if isinstance(x, SArr) and kind_of(dtype) in "fcO":
            return x if kind_of(dtype) == "O" else astype(x, dtype)
        if isinstance(x, np.ndarray) and x.dtype.kind not in "fc" and dtype is None:
            return x
        return self.array(x, dtype=dtype)

    asanyarray = asarray
    ascontiguousarray = asarray
    asfarray = asarray

    def empty(self, shape, dtype=None, **k):
        return self.full(shape, 0.0, dtype)

    def zeros(self, shape, dtype=None, **k):
        return self.full(shape, 0, dtype or float)

    def ones(self, shape, dtype=None, **k):
        return self.full(shape, 1, dtype or float)

    def full(self, shape, fill_value, dtype=None, **k):
        shape = ckey(shape) if isinstance(shape, tuple) else (int(shape) if isinstance(shape, Sym) else shape)
        if dtype is not None and kind_of(dtype) not in "fcO":
            return np.full(shape, fill_value, dtype=real_dtype(dtype))
        a = np.empty(shape, dtype=object)
        if dtype is not None and kind_of(dtype) == "c" and not isinstance(fill_value, Sym):
            fill_value = np.complex128(fill_value)
        elif not isinstance(fill_value, Sym) and isinstance(fill_value, (int, float)) and not isinstance(fill_value, bool):
            fill_value = np.float64(fill_value)
        a[...] = fill_value
        return a.view(SArr)

    def _like(self, a, v, dtype, shape):
        a = a if isinstance(a, np.ndarray) else mk_array(a)
        if dtype is None:
            if a.dtype.kind in "iub":
                return np.full(a.shape if shape is None else shape, v, dtype=a.dtype)
            if a.size and all(isinstance(e, (SBool, bool, np.bool_)) for e in a.flat):
                return np.full(a.shape if shape is None else shape, v, dtype=bool)
            dtype = float
            if a.dtype.kind == "c" or (a.dtype == object and any(T.is_cplx(e) for e in a.flat)):
                dtype = complex
        return self.full(a.shape if shape is None else shape, v, dtype)

    def zeros_like(self, a, dtype=None, order=None, subok=True, shape=None, **k):
        return self._like(a, 0, dtype, shape)

    def ones_like(self, a, dtype=None, order=None, subok=True, shape=None, **k):
        return self._like(a, 1, dtype, shape)

    def empty_like(self, a, dtype=None, order=None, subok=True, shape=None, **k):
        return self._like(a, 0, dtype, shape)

    def full_like(self, a, fill_value, dtype=None, order=None, subok=True, shape=None, **k):
        r = self._like(a, 0, dtype, shape)
        if r.dtype != object and has_sym(fill_value):
            raise Unsupported("full_like of integers with a symbolic value")
        r[...] = fill_value
        return r

    def linspace(self, start, stop, num=50, endpoint=True, **k):
        if not (has_sym(start) or has_sym(stop)):
            return _numeric(np.linspace(start, stop, num, endpoint=endpoint, **k))
        n = int(num)
        d = (n - 1) if endpoint else n
        return mk_array([_ADD(start, _MUL(_SUB(stop, start), Fraction(i, d) if d else 0)) for i in range(n)])

    def logspace(self, start, stop, num=50, endpoint=True, base=10.0, **k):
        if not (has_sym(start) or has_sym(stop)):
            return _numeric(np.logspace(start, stop, num, endpoint=endpoint, base=base))
        return elementwise(lambda e: T.power(base, e), self.linspace(start, stop, num, endpoint))

    def geomspace(self, *a, **k):
        return _numeric(np.geomspace(*a, **k))

    def arange(self, *a, **k):
        if has_sym(a):
            start, stop, step = (0, a[0], 1) if len(a) == 1 else (a + (1,))[:3]
            n = int(T.ceil(T.div(T.sub(stop, start), step)))
            return mk_array([_ADD(start, _MUL(i, step)) for i in range(max(n, 0))])
        return _numeric(np.arange(*a, **k))

    def eye(self, *a, **k):
        return _numeric(np.eye(*a, **k))

    identity = eye

    def diag(self, v, k=0):
        v = mk_array(v) if has_sym(v) else np.asarray(v)
        if isinstance(v, SArr) and v.ndim == 1:
            n = v.size + abs(k)
            out = self.zeros((n, n))
            for i in range(v.size):
                out[(i, i + k) if k >= 0 else (i - k, i)] = v[i]
            return out
        return _numeric(np.diag(np.asarray(v), k)) if not isinstance(v, SArr) else np.diag(v.view(np.ndarray), k).view(SArr)

    def fromiter(self, it, dtype=None, count=-1):
        return self.array(list(it), dtype=dtype)

    def tile(self, a, reps):
        # an object array, so that symbolic values may be stored in it
        return np.tile(_obj(a), reps).astype(object).view(SArr)

    def vectorize(self, f, *a, **k):
        return lambda *xs: elementwise(f, *xs)

    def polyfit(self, x, y, deg, **k):
        if not has_sym(x) and not has_sym(y):
            return _numeric(np.polyfit(np.asarray(_to_native(mk_array(x)), float), np.asarray(_to_native(mk_array(y)), float), deg, **k))
        if deg != 1 or k:
            raise Unsupported("polyfit")
        # the least-squares line in closed form
        x, y = list(mk_array(x).flat), list(mk_array(y).flat)
        if len(x) != len(y):
            raise TypeError("expected x and y to have same length")
        n = len(x)
        mean = T.div(sum(x[1:], x[0]), n)
        d = [T.sub(e, mean) for e in x]
        den = sum([T.mul(e, e) for e in d[1:]], T.mul(d[0], d[0]))
        num = sum([T.mul(e, f) for e, f in zip(d[1:], y[1:])], T.mul(d[0], y[0]))
        slope = T.div(num, den)
        return mk_array([slope, T.sub(T.div(sum(y[1:], y[0]), n), T.mul(slope, mean))])


def _has_sarr(x):
    if isinstance(x, SArr):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sarr(e) for e in x)
    return False


def _any_symbolic(args, kwargs):
    for a in list(args) + list(kwargs.values()):
        if isinstance(a, (Sym, SArr)) or (isinstance(a, (list, tuple)) and (has_sym(a) or _has_sarr(a))):
            return True
    return False


def _ufunc_proxy(u):
    class U:
        __name__ = u.__name__
        nin = u.nin
        nout = u.nout

        def __call__(self, *a, **k):
            if k.get("dtype") is not None:
                k["dtype"] = real_dtype(k["dtype"])
            a = tuple(_numeric(x) if type(x) is np.ndarray and x.dtype == object else x for x in a)
            if _any_symbolic(a, k):
                return array_ufunc(u, "__call__", a, k)
            return _numeric(u(*a, **k))

        def reduce(self, a, axis=0, **k):
            if _any_symbolic([a], {}):
                return array_ufunc(u, "reduce", (a,), dict(axis=axis, **k))
            return _numeric(u.reduce(a, axis=axis, **k))

        def accumulate(self, a, axis=0, **k):
            if _any_symbolic([a], {}):
                return array_ufunc(u, "accumulate", (a,), dict(axis=axis, **k))
            return _numeric(u.accumulate(a, axis=axis, **k))

        def outer(self, a, b, **k):
            if _any_symbolic([a, b], {}):
                return array_ufunc(u, "outer", (a, b), k)
            return _numeric(u.outer(a, b, **k))

    return U()


def _func_proxy(f, name):
    @functools.wraps(f)
    def g(*a, **k):
        if "dtype" in k:
            k["dtype"] = real_dtype(k["dtype"])
        if _any_symbolic(a, k):
            return array_function(f, a, k)
        r = f(*a, **k)
        return _numeric(r) if isinstance(r, np.ndarray) else r

    return g


class FftProxy(_types.ModuleType):
    def __init__(self):
        super().__init__("numpy.fft")

    def __getattr__(self, name):
        f = {"rfft": rfft, "irfft": irfft, "fft": fft, "ifft": ifft}.get(name)
        base = getattr(np.fft, name)

        def g(*a, **k):
            if f is not None and has_sym(list(a[:1])):
                return f(*a, **k)
            if has_sym(list(a[:1])):
                raise Unsupported(f"numpy.fft.{name}")
            a = tuple(_to_native(x) for x in a)
            return _numeric(base(*a, **k))

        return g


def _to_native(x):
    if isinstance(x, SArr):
        v = [simplify_const(e) for e in x.flat]
        if any(isinstance(e, Sym) for e in v):
            return x
        dt = complex if any(T.is_cplx(e) for e in v) else float
        return np.array(v, dtype=dt).reshape(x.shape)
    return x


class LinalgProxy(_types.ModuleType):
    """numpy.linalg: native on concrete data, contract stubs from the context."""

    def __init__(self):
        super().__init__("numpy.linalg")

    def __getattr__(self, name):
        base = getattr(np.linalg, name)
        if not callable(base) or isinstance(base, type):
            return base

        def g(*a, **k):
            st = T.CTX.stubs.get("np.linalg." + name) if T.CTX is not None else None
            if st is not None:
                return st(*a, **k)
            if any(has_sym(x) for x in a):
                if name == "norm":
                    v = mk_array(a[0])
                    return T.sqrt(reduce_(T.add, elementwise(lambda e: T.mul(e, T.conj(T.lift(e))), v), None, 0))
                raise Unsupported(f"numpy.linalg.{name}")
            r = base(*[_to_native(x) for x in a], **k)
            if isinstance(r, tuple):
                return tuple(_numeric(e) for e in r)
            return _numeric(r)

        return g


class RandomProxy(_types.ModuleType):
    """np.random: nondeterministic values supplied by the harness's stubs."""

    def __init__(self):
        super().__init__("numpy.random")

    def __getattr__(self, name):
        st = T.CTX.stubs.get("np.random." + name) if T.CTX is not None else None
        if st is not None:
            return st
        base = getattr(np.random, name)
        if T.CTX is None:
            return base
        if isinstance(base, type):
            return base

        def g(*a, **k):
            raise Unsupported(f"np.random.{name}")

        return g


class RProxy:
    def __init__(self, base):
        self.base = base

    def __getitem__(self, key):
        k = key if isinstance(key, tuple) else (key,)
        if not (has_sym(list(k)) or any(isinstance(e, SArr) or _has_sarr(e) for e in k)):
            return _numeric(self.base[key])
        if any(isinstance(e, str) for e in k):
            raise Unsupported("np.r_ with a directive")
        parts = []
        for e in k:
            if isinstance(e, slice):
                parts.append(mk_array(np.r_[e]))
            elif isinstance(e, np.ndarray):
                parts.append(mk_array(e if e.ndim else e.reshape(1)))
            elif isinstance(e, (list, tuple)):
                parts.append(mk_array(e))
            else:
                parts.append(mk_array([e]))
        nd = max(p.ndim for p in parts)
        parts = [p if p.ndim == nd else p.reshape((1,) * (nd - p.ndim) + p.shape) for p in parts]
        return concatenate(parts)


class CProxy:
    def __getitem__(self, key):
        k = key if isinstance(key, tuple) else (key,)
        if not (has_sym(list(k)) or any(isinstance(e, SArr) or _has_sarr(e) for e in k)):
            return _numeric(np.c_[key])
        parts = []
        for e in k:
            a = mk_array(e) if not isinstance(e, slice) else mk_array(np.r_[e])
            if a.ndim == 0:
                a = a.reshape(1, 1)
            elif a.ndim == 1:
                a = a.reshape(-1, 1)
            parts.append(a)
        return concatenate(parts, axis=-1)


class Rec:
    """Record of equally long columns (np.rec.array of a tuple of arrays)."""

    def __init__(self, cols, names):
        names = [n.strip() for n in names.split(",")] if isinstance(names, str) else list(names)
        self.dtype = _types.SimpleNamespace(names=tuple(names))
        self._cols = {n: c for n, c in zip(names, cols)}

    def __getattr__(self, n):
        try:
            return self.__dict__["_cols"][n]
        except KeyError:
            raise AttributeError(n) from None

    def __getitem__(self, n):
        if isinstance(n, str):
            return self._cols[n]
        raise Unsupported("record indexing")

    def __len__(self):
        return len(next(iter(self._cols.values())))


class RecProxy(_types.ModuleType):
    def __init__(self):
        super().__init__("numpy.rec")

    def array(self, obj, dtype=None, names=None, **k):
        if has_sym(obj) or _has_sarr(obj):
            if names is None or dtype is not None or not isinstance(obj, (tuple, list)):
                raise Unsupported("np.rec.array")
            return Rec([mk_array(c) for c in obj], names)
        return np.rec.array(obj, dtype=dtype, names=names, **k)

    fromarrays = array

    def __getattr__(self, n):
        return getattr(np.rec, n)


PROXY = NpProxy()
PROXY.__dict__["rec"] = RecProxy()


# replaced builtins ------------------------------------------------------------------
_bmax, _bmin, _bround, _bsum = max, min, round, sum


def _minmax(f, npf, base):
    def g(*a, key=None, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if key is not None or "default" in k or not any(isinstance(x, Sym) for x in xs):
            if key is None and len(a) == 1 and not xs and "default" in k:
                return k["default"]
            return base(xs, key=key, **k) if key is not None or k else base(xs)
        acc = xs[0]
        for x in xs[1:]:
            # python max(a, b) keeps the first of equals; same value here
            if T.nonfinite(acc) and acc != acc:
                continue  # nan first: comparisons are false, nan stays
            if T.nonfinite(x) and x != x:
                continue
            acc = f(acc, x)
        return acc

    return g


symmax = _minmax(T.maximum, np.maximum, _bmax)
symmin = _minmax(T.minimum, np.minimum, _bmin)


def symround(x, n=None):
    if isinstance(x, Sym):
        raise Unsupported("round")
    return _bround(x) if n is None else _bround(x, n)


class DenseDiags:
    """scipy.sparse.diags: the matrix with the given diagonals, kept dense."""

    def __init__(self, diagonals, offsets=0, shape=None, **k):
        if np.isscalar(offsets):
            diagonals, offsets = [diagonals], [offsets]
        ds = [list(mk_array(d)) for d in diagonals]
        n = max(len(d) + abs(o) for d, o in zip(ds, offsets))
        out = np.empty((n, n), dtype=object)
        out[:] = 0
        for d, o in zip(ds, offsets):
            for i, v in enumerate(d):
                out[(i, i + o) if o >= 0 else (i - o, i)] = v
        self._m = out.view(SArr)

    def toarray(self, *a, **k):
        return self._m

    todense = toarray


def diags(*a, **k):
    return DenseDiags(*a, **k)
