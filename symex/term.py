"""Symbolic terms: a hash-consed DAG of real, complex and boolean expressions.

The classes behave like Python/numpy scalars, so that the functions of pystrata
run on them unchanged.  `bool(SBool)` asks the running path context to decide the
branch (forking); everything else builds terms.
"""

import math
import time
from fractions import Fraction

import numpy as np


class Unsupported(BaseException):
    """The executed code does something the encoding does not cover.

    A BaseException, so that `except TypeError` in the code under test cannot
    swallow it."""


CTX = None  # the running path context (set by engine)


def set_ctx(c):
    global CTX
    CTX = c


_TABLE = {}
_NEXT = [0]


class Deadline(Exception):
    """Rewriting a query took too long."""


DEADLINE = [None]


def set_deadline(seconds):
    DEADLINE[0] = None if seconds is None else time.time() + seconds


def check_deadline():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        DEADLINE[0] = None
        raise Deadline


def reset_table():
    _TABLE.clear()
    # interned ids keep growing so that stale nodes never collide


INF = math.inf


def _f(x):
    """Interval bound as float (may be +-inf)."""
    return float(x)


class Sym:
    __slots__ = ("op", "args", "id", "lo", "hi", "nz", "memo")
    __array_priority__ = 1e6
    sort = "?"

    def __hash__(self):
        return 7

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    # numpy protocol ------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import symnp

        return symnp.array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import symnp

        return symnp.array_function(func, args, kwargs)

    def __array__(self, dtype=None, copy=None):
        if dtype is not None and np.dtype(dtype) != np.dtype(object):
            if self.op == "const":
                return np.array(self._pyvalue(), dtype=dtype)
            raise Unsupported(f"conversion of a symbolic value to dtype {dtype}")
        a = np.empty((), dtype=object)
        a[()] = self
        return a

    # numpy-scalar look-alike ---------------------------------------------
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dtype, **k):
        from . import symnp

        return symnp.cast_scalar(self, dtype)

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def flatten(self):
        from . import symnp

        return symnp.mk_array([self])

    def tolist(self):
        return self

    def all(self, *a, **k):
        return self if self.sort == "B" else self != 0

    def any(self, *a, **k):
        return self if self.sort == "B" else self != 0

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return show(self)

    def __str__(self):
        return show(self)


def show(n, depth=4):
    if not isinstance(n, Sym):
        return repr(n)
    if n.op == "var":
        return n.args[0]
    if n.op == "const":
        return str(float(n.args[0]))
    if n.op == "cconst":
        return str(complex(float(n.args[0]), float(n.args[1])))
    if depth == 0:
        return "..."
    return f"{n.op}({', '.join(show(a, depth - 1) for a in n.args)})"


def _key(a):
    return a.id if isinstance(a, Sym) else a


def intern(cls, op, args, lo=-INF, hi=INF, nz=False):
    key = (cls.sort, op) + tuple(
        ("#", a.id) if isinstance(a, Sym) else a for a in args
    )
    n = _TABLE.get(key)
    if n is None and _SCOPE:
        n = _SCOPE[-1].get(key)
    if n is None:
        n = cls.__new__(cls)
        n.op = op
        n.args = args
        n.id = _NEXT[0]
        _NEXT[0] += 1
        if not n.id & 1023:
            check_deadline()
        n.lo = lo
        n.hi = hi
        n.nz = nz or lo > 0 or hi < 0
        n.memo = None
        (_SCOPE[-1] if _SCOPE else _TABLE)[key] = n
    return n


# A scope keeps nodes and facts made while encoding a query from becoming visible
# to the executed program (whose behaviour must only depend on its decisions).
_SCOPE = []
_UNDO = []


def push_scope():
    _SCOPE.append({})
    _UNDO.append([])


def pop_scope():
    _SCOPE.pop()
    for n, lo, hi, nz in reversed(_UNDO.pop()):
        n.lo, n.hi, n.nz = lo, hi, nz


def mark(n, lo=None, hi=None, nz=None):
    """Strengthen what is known about a node."""
    l2 = n.lo if lo is None or lo <= n.lo else lo
    h2 = n.hi if hi is None or hi >= n.hi else hi
    z2 = n.nz or bool(nz) or l2 > 0 or h2 < 0
    if (l2, h2, z2) == (n.lo, n.hi, n.nz):
        return n
    if _UNDO:
        _UNDO[-1].append((n, n.lo, n.hi, n.nz))
    n.lo, n.hi, n.nz = l2, h2, z2
    return n


# --------------------------------------------------------------------------
class SReal(Sym):
    __slots__ = ()
    sort = "R"

    def _pyvalue(self):
        v = self.args[0]
        return int(v) if v.denominator == 1 and abs(v) < 2**53 else float(v)

    def __bool__(self):
        return bool(ne(self, 0))

    def __float__(self):
        if self.op == "const":
            return float(self.args[0])
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        return CTX.concretize_int(self)

    __trunc__ = __int__

    def __index__(self):
        if self.op == "const" and self.args[0].denominator == 1:
            return int(self.args[0])
        return CTX.concretize_int(self)

    def __complex__(self):
        if self.op == "const":
            return complex(float(self.args[0]))
        raise Unsupported("complex() of a symbolic value")

    def __round__(self, n=None):
        raise Unsupported("round() of a symbolic value")

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def is_integer(self):
        raise Unsupported("is_integer")

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return const(0)

    def conjugate(self):
        return self

    conj = conjugate

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)


class SCplx(Sym):
    __slots__ = ()
    sort = "C"

    def _pyvalue(self):
        return complex(float(self.args[0]), float(self.args[1]))

    def __bool__(self):
        return bool(ne(self, 0))

    def __float__(self):
        raise TypeError("can't convert complex to float")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    @property
    def real(self):
        return re_(self)

    @property
    def imag(self):
        return im_(self)

    def conjugate(self):
        return conj(self)

    conj = conjugate

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)


class SBool(Sym):
    __slots__ = ()
    sort = "B"

    def __bool__(self):
        if self.op == "bconst":
            return self.args[0]
        return CTX.branch(self)

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))


def isnum(x):
    return isinstance(x, (int, float, complex, Fraction, np.number, np.bool_))


# constants ------------------------------------------------------------------
def const(v):
    """Constant node from a Python/numpy real number."""
    if isinstance(v, (bool, np.bool_)):
        v = int(v)
    if isinstance(v, np.integer):
        v = int(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if not math.isfinite(v):
            raise Unsupported("non-finite constant in a term")
        v = Fraction(v)
    v = Fraction(v)
    lo = hi = float(v)
    if Fraction(lo) != v:
        lo, hi = _out(lo, hi)
    return intern(SReal, "const", (v,), lo, hi, v != 0)


def cconst(re, im):
    return intern(SCplx, "cconst", (Fraction(re), Fraction(im)), nz=(re != 0 or im != 0))


TRUE = None
FALSE = None


def bconst(b):
    return intern(SBool, "bconst", (bool(b),))


def nonfinite(x):
    """A concrete number which is nan or infinite."""
    if isinstance(x, Sym):
        return False
    if isinstance(x, (complex, np.complexfloating)):
        return not (math.isfinite(x.real) and math.isfinite(x.imag))
    if isinstance(x, (float, np.floating)):
        return not math.isfinite(x)
    return False


def is_cplx(x):
    return isinstance(x, SCplx) or isinstance(x, (complex, np.complexfloating))


def lift(x):
    """Sym of a finite number or a Sym (real or complex)."""
    if isinstance(x, SBool):
        return ite(x, const(1), const(0))
    if isinstance(x, Sym):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        if not (math.isfinite(x.real) and math.isfinite(x.imag)):
            raise Unsupported("non-finite complex constant")
        return cconst(Fraction(x.real), Fraction(x.imag))
    if isnum(x):
        return const(x)
    raise Unsupported(f"cannot use {type(x).__name__} in a symbolic expression")


def to_c(x):
    """Complex-sorted node of a lifted node."""
    if x.sort == "C":
        return x
    return mk(x, const(0))


def mk(re, im):
    re, im = lift(re), lift(im)
    if re.op == "const" and im.op == "const":
        return cconst(re.args[0], im.args[0])
    if re.op == "re" and im.op == "im" and re.args[0] is im.args[0]:
        return re.args[0]
    return intern(SCplx, "mk", (re, im), nz=re.nz or im.nz)


def var(name, lo=-INF, hi=INF, nz=False):
    return intern(SReal, "var", (name,), float(lo), float(hi), nz)


def drop0(x):
    """complex node with zero imaginary constant stays complex (as in numpy)."""
    return x


# interval helpers ----------------------------------------------------------
def _mulb(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def _imul(a, b):
    c = [_mulb(a.lo, b.lo), _mulb(a.lo, b.hi), _mulb(a.hi, b.lo), _mulb(a.hi, b.hi)]
    lo, hi = min(c), max(c)
    return _out(lo, hi)


def _out(lo, hi):
    # outward rounding, keeping 0 exact
    if lo != 0 and math.isfinite(lo):
        lo2 = lo - abs(lo) * 1e-12
        lo = lo2
    if hi != 0 and math.isfinite(hi):
        hi = hi + abs(hi) * 1e-12
    return lo, hi


# arithmetic -------------------------------------------------------------------
def add(a, b):
    if nonfinite(a) or nonfinite(b):
        return _nf_add(a, b)
    a, b = lift(a), lift(b)
    if a.sort == "C" or b.sort == "C":
        return _cadd(to_c(a), to_c(b))
    if a.op == "const" and b.op == "const":
        return const(a.args[0] + b.args[0])
    if a.op == "const" and a.args[0] == 0:
        return b
    if b.op == "const" and b.args[0] == 0:
        return a
    # a + (-1*a)
    ca, ra = _coef(a)
    cb, rb = _coef(b)
    if ra is rb:
        return mul(const(ca + cb), ra)
    # (x + c1) + c2
    if b.op == "const" and a.op == "add" and a.args[1].op == "const":
        return add(a.args[0], const(a.args[1].args[0] + b.args[0]))
    # (x + y) - y
    if a.op == "add":
        for i in (0, 1):
            ci, ri = _coef(a.args[i])
            if ri is rb and ci == -cb and rb.op != "const":
                return a.args[1 - i]
    if b.op == "add":
        for i in (0, 1):
            ci, ri = _coef(b.args[i])
            if ri is ra and ci == -ca and ra.op != "const":
                return b.args[1 - i]
    if a.op == "const":
        a, b = b, a
    elif b.op != "const" and a.id > b.id:
        a, b = b, a
    lo, hi = a.lo + b.lo, a.hi + b.hi
    if math.isnan(lo):
        lo = -INF
    if math.isnan(hi):
        hi = INF
    lo, hi = _out(lo, hi)
    nz = (a.lo >= 0 and b.lo >= 0 and (a.nz or b.nz)) or (
        a.hi <= 0 and b.hi <= 0 and (a.nz or b.nz)
    )
    return intern(SReal, "add", (a, b), lo, hi, nz)


def _coef(a):
    """(rational coefficient, rest)"""
    if a.op == "mul" and a.args[0].op == "const":
        return a.args[0].args[0], a.args[1]
    return Fraction(1), a


def _nf_add(a, b):
    for x in (a, b):
        if not isinstance(x, Sym) and x != x:
            return math.nan
    if is_cplx(a) or is_cplx(b):
        raise Unsupported("non-finite complex arithmetic")
    if isinstance(a, Sym):
        return float(b)
    if isinstance(b, Sym):
        return float(a)
    return float(a) + float(b)


def _cadd(a, b):
    if a.op == "cconst" and b.op == "cconst":
        return cconst(a.args[0] + b.args[0], a.args[1] + b.args[1])
    if a.op == "cconst" and not a.nz:
        return b
    if b.op == "cconst" and not b.nz:
        return a
    if a.op in ("mk", "cconst") and b.op in ("mk", "cconst"):
        return mk(add(re_(a), re_(b)), add(im_(a), im_(b)))
    if a.id > b.id:
        a, b = b, a
    return intern(SCplx, "cadd", (a, b))


def neg(a):
    if isinstance(a, Sym) and a.sort == "C":
        return mul(const(-1), a)
    return mul(const(-1), a) if isinstance(a, Sym) else -a


def sub(a, b):
    if not isinstance(b, Sym) and nonfinite(b):
        return add(a, -b)
    return add(a, neg(lift(b)))


def mul(a, b):
    if nonfinite(a) or nonfinite(b):
        return _nf_mul(a, b)
    a, b = lift(a), lift(b)
    if a.sort == "C" or b.sort == "C":
        return _cmul(a, b)
    if a.op == "const" and b.op == "const":
        return const(a.args[0] * b.args[0])
    if b.op == "const":
        a, b = b, a
    if a.op == "const":
        c = a.args[0]
        if c == 0:
            return a
        if c == 1:
            return b
        if b.op == "mul" and b.args[0].op == "const":
            return mul(const(c * b.args[0].args[0]), b.args[1])
        if b.op == "add" and b.args[1].op == "const" and False:
            pass
        lo, hi = _imul(a, b)
        return intern(SReal, "mul", (a, b), lo, hi, b.nz)
    # pull constants out
    ca, ra = _coef(a)
    cb, rb = _coef(b)
    if ca != 1 or cb != 1:
        return mul(const(ca * cb), mul(ra, rb))
    # (x / y) * y
    for x, y in ((a, b), (b, a)):
        if x.op == "div" and x.args[1] is y:
            return x.args[0]
    # sqrt(x) * sqrt(x)
    if a is b:
        if a.op == "sqrt":
            return a.args[0]
        lo = 0.0
        m = max(_mulb(a.lo, a.lo), _mulb(a.hi, a.hi))
        l = 0.0
        if a.lo > 0:
            l = a.lo * a.lo
        elif a.hi < 0:
            l = a.hi * a.hi
        l, m = _out(l, m)
        return intern(SReal, "mul", (a, b), l, m, a.nz)
    if a.id > b.id:
        a, b = b, a
    lo, hi = _imul(a, b)
    return intern(SReal, "mul", (a, b), lo, hi, a.nz and b.nz)


def _nf_mul(a, b):
    for x in (a, b):
        if not isinstance(x, Sym) and x != x:
            return math.nan
    if is_cplx(a) or is_cplx(b):
        raise Unsupported("non-finite complex arithmetic")
    if isinstance(a, Sym):
        a, b = b, a
    if not isinstance(b, Sym):
        return float(a) * float(b)
    if bool(eq(b, 0)):
        return math.nan
    return float(a) if bool(gt(b, 0)) else -float(a)


def _cmul(a, b):
    # real * complex with constants
    if a.sort == "R" and a.op == "const":
        if a.args[0] == 1:
            return to_c(b)
        if a.args[0] == 0:
            return cconst(0, 0)
    if b.sort == "R" and b.op == "const":
        return _cmul(b, a)
    a, b = to_c(a), to_c(b)
    for x, y in ((a, b), (b, a)):
        if x.op == "cconst":
            if not x.nz:
                return x
            if x.args == (1, 0):
                return y
            if y.op == "cconst":
                r1, i1 = x.args
                r2, i2 = y.args
                return cconst(r1 * r2 - i1 * i2, r1 * i2 + r2 * i1)
            if y.op == "cmul" and y.args[0].op == "cconst":
                return _cmul(_cmul(x, y.args[0]), y.args[1])
            if y.op == "mk":
                r1, i1 = const(x.args[0]), const(x.args[1])
                r2, i2 = y.args
                return mk(
                    sub(mul(r1, r2), mul(i1, i2)), add(mul(r1, i2), mul(i1, r2))
                )
            return intern(SCplx, "cmul", (x, y), nz=y.nz)
    if a.op == "csqrt" and a is b:
        return a.args[0]
    for x, y in ((a, b), (b, a)):
        if x.op == "cdiv" and x.args[1] is y:
            return x.args[0]
    # real (mk(r,0)) times mk
    for x, y in ((a, b), (b, a)):
        if x.op == "mk" and x.args[1].op == "const" and x.args[1].args[0] == 0:
            if y.op == "mk":
                return mk(mul(x.args[0], y.args[0]), mul(x.args[0], y.args[1]))
    if a.id > b.id:
        a, b = b, a
    return intern(SCplx, "cmul", (a, b), nz=a.nz and b.nz)


def div(a, b):
    if nonfinite(a) or nonfinite(b):
        return _nf_div(a, b)
    a, b = lift(a), lift(b)
    if a.sort == "C" or b.sort == "C":
        return _cdiv(a, b)
    if b.op == "const":
        if b.args[0] == 0:
            return _div_zero(a)
        return mul(const(1 / b.args[0]), a)
    if not b.nz:
        if CTX is not None and CTX.branch_zero(b):
            return _div_zero(a)
    if a.op == "const" and a.args[0] == 0:
        return a
    ca, ra = _coef(a)
    cb, rb = _coef(b)
    if ra is rb:
        return const(ca / cb)
    if cb != 1 or ca != 1:
        return mul(const(ca / cb), div(ra, rb))
    if b.op == "div":
        # a / (x / y) = a*y / x    (x nonzero because b is)
        return div(mul(a, b.args[1]), b.args[0])
    if a.op == "div":
        return div(a.args[0], mul(a.args[1], b))
    if a.op == "mul":
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
    if a.op == "sqrt" and a.args[0] is b:
        return div(const(1), a)
    if b.op == "sqrt" and b.args[0] is a:
        return b
    # interval
    lo, hi = -INF, INF
    if b.lo > 0 or b.hi < 0:
        c = []
        for x in (a.lo, a.hi):
            for y in (b.lo, b.hi):
                if math.isinf(x) and math.isinf(y):
                    c.extend([0.0, x if y > 0 else -x])
                else:
                    c.append(x / y)
        lo, hi = _out(min(c), max(c))
    elif b.lo >= 0:
        if a.lo >= 0:
            lo = 0.0
        if a.hi <= 0:
            hi = 0.0
    elif b.hi <= 0:
        if a.lo >= 0:
            hi = 0.0
        if a.hi <= 0:
            lo = 0.0
    return intern(SReal, "div", (a, b), lo, hi, a.nz)


def _div_zero(a):
    if a.op == "const":
        v = a.args[0]
        return math.nan if v == 0 else math.copysign(INF, v)
    if bool(eq(a, 0)):
        return math.nan
    return INF if bool(gt(a, 0)) else -INF


def _nf_div(a, b):
    for x in (a, b):
        if not isinstance(x, Sym) and x != x:
            return math.nan
    if is_cplx(a) or is_cplx(b):
        raise Unsupported("non-finite complex arithmetic")
    if isinstance(a, Sym):
        return 0.0
    if not isinstance(b, Sym):
        with np.errstate(all="ignore"):
            return float(np.float64(a) / np.float64(b))
    if bool(ge(b, 0)):
        return float(a)
    return -float(a)


def _cdiv(a, b):
    if b.sort == "R" and b.op == "const":
        if b.args[0] == 0:
            return complex(math.nan, math.nan)
        return mul(const(1 / b.args[0]), a)
    if not b.nz:
        if b.op == "cconst":
            return complex(math.nan, math.nan)
        if CTX is not None and CTX.branch_zero(b):
            return complex(math.nan, math.nan)
    if b.sort == "R" and a.op in ("mk", "cconst"):
        return mk(div(re_(a), b), div(im_(a), b))
    a, b = to_c(a), to_c(b)
    if b.op == "cconst":
        r, i = b.args
        d = r * r + i * i
        return _cmul(cconst(r / d, -i / d), a)
    if a is b:
        return cconst(1, 0)
    if a.op == "cconst" and not a.nz:
        return a
    if b.op == "cdiv":
        return _cdiv(_cmul(a, b.args[1]), b.args[0])
    if a.op == "cdiv":
        return _cdiv(a.args[0], _cmul(a.args[1], b))
    if a.op == "cmul":
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
    return intern(SCplx, "cdiv", (a, b), nz=a.nz)


def re_(a):
    a = lift(a)
    if a.sort == "R":
        return a
    if a.op == "cconst":
        return const(a.args[0])
    if a.op == "mk":
        return a.args[0]
    if a.op == "cadd":
        return add(re_(a.args[0]), re_(a.args[1]))
    if a.op == "conj":
        return re_(a.args[0])
    if a.op == "cite":
        return ite(a.args[0], re_(a.args[1]), re_(a.args[2]))
    if a.op == "csqrt":
        return intern(SReal, "re", (a,), 0.0, INF)
    return intern(SReal, "re", (a,))


def im_(a):
    a = lift(a)
    if a.sort == "R":
        return const(0)
    if a.op == "cconst":
        return const(a.args[1])
    if a.op == "mk":
        return a.args[1]
    if a.op == "cadd":
        return add(im_(a.args[0]), im_(a.args[1]))
    if a.op == "conj":
        return neg(im_(a.args[0]))
    if a.op == "cite":
        return ite(a.args[0], im_(a.args[1]), im_(a.args[2]))
    return intern(SReal, "im", (a,))


def conj(a):
    a = lift(a)
    if a.sort == "R":
        return a
    if a.op == "cconst":
        return cconst(a.args[0], -a.args[1])
    if a.op == "mk":
        return mk(a.args[0], neg(a.args[1]))
    if a.op == "conj":
        return a.args[0]
    return intern(SCplx, "conj", (a,), nz=a.nz)


def _negsum(a, depth=0):
    if a.op != "add" or depth > 30:
        return neg(a)
    return add(_negsum(a.args[0], depth + 1), _negsum(a.args[1], depth + 1))


def absolute(a):
    if not isinstance(a, Sym):
        return abs(a)
    if a.sort == "C":
        if a.op in ("cmul",):
            if a.nz:
                for f in a.args:
                    if f.op != "cconst":
                        mark(f, nz=True)
            return mul(absolute(a.args[0]), absolute(a.args[1]))
        if a.op == "cdiv":
            mark(a.args[1], nz=True)
            return div(absolute(a.args[0]), absolute(a.args[1]))
        if a.op == "cexp":
            return exp(re_(a.args[0]))
        r, i = re_(a), im_(a)
        if i.op == "const" and i.args[0] == 0:
            return absolute(r)
        if r.op == "const" and r.args[0] == 0:
            return absolute(i)
        n = add(mul(r, r), mul(i, i))
        if isinstance(n, Sym) and n.op != "const":
            mark(n, lo=0.0, nz=a.nz)
        return sqrt(n)
    if a.lo >= 0:
        return a
    if a.hi <= 0:
        return neg(a)
    k, x = _coef(a)
    if k != 1:
        return mul(const(abs(k)), absolute(x))
    if a.op == "div" and (a.args[1].lo >= 0 or a.args[1].hi <= 0):
        return div(absolute(a.args[0]), absolute(a.args[1]))
    if a.op == "mul":
        for x, y in (a.args, a.args[::-1]):
            if x.lo >= 0 or x.hi <= 0:
                return mul(absolute(x), absolute(y))
    m = _negsum(a) if a.op == "add" else neg(a)
    if m.id < a.id:
        # |x - y| and |y - x| are one term
        m, a = a, m
    r = ite(ge(a, 0), a, m)
    if isinstance(r, Sym):
        mark(r, lo=0.0, nz=a.nz)
    return r


# comparisons ----------------------------------------------------------------
def _cmp_nf(a, b, f):
    def v(x):
        return 0.0 if isinstance(x, Sym) else x

    return bool(f(v(a), v(b)))


def lt(a, b):
    if nonfinite(a) or nonfinite(b):
        return _cmp_nf(a, b, lambda x, y: x < y)
    return lnot(le(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def le(a, b):
    if nonfinite(a) or nonfinite(b):
        return _cmp_nf(a, b, lambda x, y: x <= y)
    a, b = lift(a), lift(b)
    if a.sort == "C" or b.sort == "C":
        raise TypeError("complex values are not ordered")
    if a is b:
        return bconst(True)
    if a.op == "const" and b.op == "const":
        return bconst(a.args[0] <= b.args[0])
    if a.hi <= b.lo:
        return bconst(True)
    if a.lo > b.hi:
        return bconst(False)
    # c <= x with x nonzero and x >= 0, etc. is left to the solver, except the
    # frequent sign tests
    if b.op == "const" and b.args[0] == 0 and a.lo >= 0 and a.nz:
        return bconst(False)
    if a.op == "const" and a.args[0] == 0 and b.hi <= 0 and b.nz:
        return bconst(False)
    return intern(SBool, "le", (a, b))


def eq(a, b):
    if nonfinite(a) or nonfinite(b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return False
        return bool(a == b)
    if isinstance(a, SBool) or isinstance(b, SBool):
        a_, b_ = lift_b(a), lift_b(b)
        return lnot(xor(a_, b_))
    a, b = lift(a), lift(b)
    if a.sort == "C" or b.sort == "C":
        a, b = to_c(a), to_c(b)
        if a is b:
            return bconst(True)
        if a.op == "cconst" and b.op == "cconst":
            return bconst(a.args == b.args)
        if (a.op == "cconst" and not a.nz and b.nz) or (
            b.op == "cconst" and not b.nz and a.nz
        ):
            return bconst(False)
        if a.op in ("mk", "cconst") and b.op in ("mk", "cconst"):
            return land(eq(re_(a), re_(b)), eq(im_(a), im_(b)))
        if a.id > b.id:
            a, b = b, a
        return intern(SBool, "ceq", (a, b))
    if a is b:
        return bconst(True)
    if a.op == "const" and b.op == "const":
        return bconst(a.args[0] == b.args[0])
    if a.hi < b.lo or b.hi < a.lo:
        return bconst(False)
    for x, y in ((a, b), (b, a)):
        if x.op == "const" and x.args[0] == 0 and y.nz:
            return bconst(False)
    if a.id > b.id:
        a, b = b, a
    return intern(SBool, "eq", (a, b))


def ne(a, b):
    r = eq(a, b)
    return lnot(r)


# booleans ---------------------------------------------------------------------
def lift_b(x):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SReal):
        return ne(x, 0)
    if isinstance(x, Sym):
        raise Unsupported("complex truth value")
    return bconst(bool(x))


def lnot(a):
    if not isinstance(a, Sym):
        return not a
    a = lift_b(a)
    if a.op == "bconst":
        return bconst(not a.args[0])
    if a.op == "not":
        return a.args[0]
    return intern(SBool, "not", (a,))


def land(*xs):
    out = []
    for x in xs:
        x = lift_b(x)
        if x.op == "bconst":
            if not x.args[0]:
                return x
            continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    seen, u = set(), []
    for x in out:
        if x.id not in seen:
            seen.add(x.id)
            u.append(x)
    for x in u:
        if lnot(x).id in seen:
            return bconst(False)
    if not u:
        return bconst(True)
    if len(u) == 1:
        return u[0]
    return intern(SBool, "and", tuple(u))


def lor(*xs):
    return lnot(land(*[lnot(lift_b(x)) for x in xs]))


def xor(a, b):
    a, b = lift_b(a), lift_b(b)
    if a.op == "bconst":
        return lnot(b) if a.args[0] else b
    if b.op == "bconst":
        return lnot(a) if b.args[0] else a
    if a is b:
        return bconst(False)
    return lor(land(a, lnot(b)), land(lnot(a), b))


def implies(a, b):
    return lor(lnot(lift_b(a)), b)


def ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    c = lift_b(c)
    if c.op == "bconst":
        return a if c.args[0] else b
    if nonfinite(a) or nonfinite(b):
        # a term cannot carry nan/inf: decide the branch
        return a if bool(c) else b
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return lor(land(c, a), land(lnot(c), b))
    a, b = lift(a), lift(b)
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if a.sort == "C" or b.sort == "C":
        a, b = to_c(a), to_c(b)
        if a is b:
            return a
        return intern(SCplx, "cite", (c, a, b), nz=a.nz and b.nz)
    return intern(
        SReal, "ite", (c, a, b), min(a.lo, b.lo), max(a.hi, b.hi), a.nz and b.nz
    )


def _common(a, b):
    """(k, x, y) with a = k*x and b = k*y for a constant k other than 0 and 1, or (None, a, b)."""
    if a.sort == b.sort == "R":
        (k, x), (c, y) = _coef(a), _coef(b)
        if k == c != 1:
            return k, x, y
    return None, a, b


def maximum(a, b):
    if nonfinite(a) or nonfinite(b):
        for x, y in ((a, b), (b, a)):
            if nonfinite(x):
                if x != x:
                    return math.nan
                return x if x > 0 else y
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return max(a, b)
    a, b = lift(a), lift(b)
    if a is b:
        return a
    k, x, y = _common(a, b)
    if k is not None:
        return mul(const(k), maximum(x, y) if k > 0 else minimum(x, y))
    c = le(a, b)
    r = ite(c, b, a)
    if isinstance(r, Sym) and r.op == "ite":
        mark(r, lo=max(a.lo, b.lo), nz=(a.lo >= 0 and a.nz) or (b.lo >= 0 and b.nz))
    return r


def minimum(a, b):
    if nonfinite(a) or nonfinite(b):
        for x, y in ((a, b), (b, a)):
            if nonfinite(x):
                if x != x:
                    return math.nan
                return x if x < 0 else y
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return min(a, b)
    a, b = lift(a), lift(b)
    if a is b:
        return a
    k, x, y = _common(a, b)
    if k is not None:
        return mul(const(k), minimum(x, y) if k > 0 else maximum(x, y))
    r = ite(le(a, b), a, b)
    if isinstance(r, Sym) and r.op == "ite":
        mark(r, hi=min(a.hi, b.hi))
    return r


def sign(a):
    return ite(gt(a, 0), const(1), ite(lt(a, 0), const(-1), const(0)))


# elementary functions -------------------------------------------------------
def _fsqrt(v):
    n, d = v.numerator, v.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def sqrt(a):
    if not isinstance(a, Sym):
        with np.errstate(all="ignore"):
            return np.sqrt(a)
    if a.sort == "C":
        if a.op == "cconst" and a.args[1] == 0 and a.args[0] >= 0:
            return to_c(sqrt(const(a.args[0])))
        if a.op == "mk" and a.args[1].op == "const" and a.args[1].args[0] == 0 and a.args[0].lo >= 0:
            return to_c(sqrt(a.args[0]))
        return intern(SCplx, "csqrt", (a,), nz=a.nz)
    if a.lo < 0:
        if bool(lt(a, 0)):
            return math.nan
    if a.op == "const":
        r = _fsqrt(a.args[0])
        if r is not None:
            return const(r)
    if a.op == "mul" and a.args[0] is a.args[1]:
        return absolute(a.args[0])
    lo = math.sqrt(max(a.lo, 0.0))
    hi = math.sqrt(a.hi) if a.hi >= 0 else 0.0
    lo, hi = _out(lo, hi)
    return intern(SReal, "sqrt", (a,), lo, hi, a.nz)


def _expf(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def exp(a):
    if not isinstance(a, Sym):
        if isinstance(a, Fraction):
            a = float(a)
        with np.errstate(all="ignore"):
            return np.exp(a)
    if a.sort == "C":
        if a.op == "cconst" and not a.nz:
            return cconst(1, 0)
        return intern(SCplx, "cexp", (a,), nz=True)
    if a.op == "const" and a.args[0] == 0:
        return const(1)
    if a.op == "log":
        return a.args[0]
    lo, hi = _out(_expf(a.lo), _expf(a.hi))
    return intern(SReal, "exp", (a,), max(lo, 0.0), hi, True)


def _logf(x):
    if x <= 0:
        return -INF
    if math.isinf(x):
        return INF
    return math.log(x)


def log(a):
    if not isinstance(a, Sym):
        with np.errstate(all="ignore"):
            return np.log(a)
    if a.sort == "C":
        raise Unsupported("complex logarithm")
    if not (a.lo >= 0 and a.nz):
        if a.lo < 0 and bool(lt(a, 0)):
            return math.nan
        if not a.nz and bool(eq(a, 0)):
            return -INF
    if a.op == "const" and a.args[0] == 1:
        return const(0)
    if a.op == "exp":
        return a.args[0]
    lo, hi = _out(_logf(a.lo), _logf(a.hi))
    return intern(SReal, "log", (a,), lo, hi)


def logc(c):
    """The constant log(c) as an atom."""
    return log(const(c))


def log10(a):
    if not isinstance(a, Sym):
        with np.errstate(all="ignore"):
            return np.log10(a)
    r = log(a)
    if not isinstance(r, Sym):
        return r
    return div(r, logc(10))


def log2(a):
    if not isinstance(a, Sym):
        with np.errstate(all="ignore"):
            return np.log2(a)
    r = log(a)
    if not isinstance(r, Sym):
        return r
    return div(r, logc(2))


def log1p(a):
    return log(add(a, 1))


def expm1(a):
    return sub(exp(a), 1)


def ipow(a, n):
    if n == 0:
        return const(1)
    if n < 0:
        return div(const(1), ipow(a, -n))
    r = None
    base = a
    while n:
        if n & 1:
            r = base if r is None else mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return r


def power(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        with np.errstate(all="ignore"):
            return np.power(np.float64(a) if isinstance(a, (int, Fraction)) else a, float(b) if isinstance(b, Fraction) else b)
    if nonfinite(a) or nonfinite(b):
        if not isinstance(a, Sym) and a != a or not isinstance(b, Sym) and b != b:
            return math.nan
        raise Unsupported("power with infinities")
    a, b = lift(a), lift(b)
    if b.sort == "C":
        raise Unsupported("complex exponent")
    if b.op == "const" and b.args[0].denominator == 1 and abs(b.args[0]) <= 24:
        return ipow(a, int(b.args[0]))
    if a.sort == "C":
        raise Unsupported("complex base with non-integer exponent")
    if b.op == "const" and b.args[0] == Fraction(1, 2):
        return sqrt(a)
    if b.op == "const" and b.args[0].denominator == 2 and abs(b.args[0]) < 10:
        return ipow(sqrt(a), int(2 * b.args[0]))
    if a.op == "const" and a.args[0] == 1:
        return a
    if not (a.lo >= 0 and a.nz):
        if a.lo < 0 and bool(lt(a, 0)):
            return math.nan
        if not a.nz and bool(eq(a, 0)):
            if bool(gt(b, 0)):
                return const(0)
            return const(1) if bool(eq(b, 0)) else INF
    return exp(mul(b, log(a)))


def cis(t):
    """exp(i t) for real t"""
    return exp(mul(cconst(0, 1), t))


def sin(a):
    if not isinstance(a, Sym):
        return np.sin(a)
    if a.sort == "C":
        raise Unsupported("complex sin")
    if a.op == "const" and a.args[0] == 0:
        return a
    r = im_(cis(a))
    mark(r, lo=-1.0, hi=1.0)
    return r


def cos(a):
    if not isinstance(a, Sym):
        return np.cos(a)
    if a.sort == "C":
        raise Unsupported("complex cos")
    if a.op == "const" and a.args[0] == 0:
        return const(1)
    r = re_(cis(a))
    mark(r, lo=-1.0, hi=1.0)
    return r


def tan(a):
    return div(sin(a), cos(a))


def tanh(a):
    e = exp(mul(2, a))
    return div(sub(e, 1), add(e, 1))


def sinh(a):
    return div(sub(exp(a), exp(neg(a))), 2)


def cosh(a):
    return div(add(exp(a), exp(neg(a))), 2)


def floor(a):
    if not isinstance(a, Sym):
        return np.floor(a)
    return CTX.concretize_floor(a)


def ceil(a):
    if not isinstance(a, Sym):
        return np.ceil(a)
    f = CTX.concretize_floor(neg(a))
    return neg(f) if isinstance(f, Sym) else -f


def trunc(a):
    if not isinstance(a, Sym):
        return np.trunc(a)
    return floor(a) if bool(ge(a, 0)) else ceil(a)


def rint(a):
    raise Unsupported("rint of a symbolic value")


def isfinite(a):
    if isinstance(a, Sym):
        return True
    return bool(np.isfinite(a))


def isnan(a):
    if isinstance(a, Sym):
        return False
    return bool(np.isnan(a))


def isinf(a):
    if isinstance(a, Sym):
        return False
    return bool(np.isinf(a))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not any(isinstance(x, Sym) for x in (a, b, rtol, atol)):
        return bool(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan))
    if nonfinite(a) or nonfinite(b):
        return False
    d = absolute(sub(a, b))
    return le(d, add(atol, mul(rtol, absolute(lift(b)))))


def fmax(a, b):
    if not isinstance(a, Sym) and a != a:
        return b
    if not isinstance(b, Sym) and b != b:
        return a
    return maximum(a, b)


def fmin(a, b):
    if not isinstance(a, Sym) and a != a:
        return b
    if not isinstance(b, Sym) and b != b:
        return a
    return minimum(a, b)


def floordiv(a, b):
    return floor(div(a, b))


def mod(a, b):
    return sub(a, mul(b, floor(div(a, b))))


def _binop(f, swap=False):
    if swap:

        def op(self, other):
            if _defer(other):
                return NotImplemented
            return f(other, self)
    else:

        def op(self, other):
            if _defer(other):
                return NotImplemented
            return f(self, other)

    return op


def _defer(other):
    if isinstance(other, np.ndarray):
        return other.ndim > 0 or other.dtype == object
    if isinstance(other, (Sym, int, float, complex, Fraction, np.number, np.bool_)):
        return False
    return True


def _arr(f, swap=False):
    """binary operator that broadcasts over arrays"""

    def op(self, other):
        if isinstance(other, np.ndarray):
            from . import symnp

            return symnp.elementwise(f, *((other, self) if swap else (self, other)))
        if _defer(other):
            return NotImplemented
        return f(other, self) if swap else f(self, other)

    return op


for _cls in (SReal, SCplx, SBool):
    for _n, _fn in (
        ("add", add),
        ("sub", sub),
        ("mul", mul),
        ("truediv", div),
        ("pow", power),
        ("floordiv", floordiv),
        ("mod", mod),
    ):
        setattr(_cls, f"__{_n}__", _arr(_fn))
        setattr(_cls, f"__r{_n}__", _arr(_fn, True))
    for _n, _fn in (("lt", lt), ("le", le), ("gt", gt), ("ge", ge)):
        setattr(_cls, f"__{_n}__", _arr(_fn))


def _eqop(f, default):
    def op(self, other):
        if isinstance(other, np.ndarray):
            from . import symnp

            return symnp.elementwise(f, self, other)
        if _defer(other):
            return default
        return f(self, other)

    return op


for _cls in (SReal, SCplx, SBool):
    _cls.__eq__ = _eqop(eq, False)
    _cls.__ne__ = _eqop(ne, True)
    _cls.__hash__ = Sym.__hash__

SBool.__and__ = _arr(lambda a, b: land(a, b))
SBool.__rand__ = _arr(lambda a, b: land(a, b))
SBool.__or__ = _arr(lambda a, b: lor(a, b))
SBool.__ror__ = _arr(lambda a, b: lor(a, b))
SBool.__xor__ = _arr(lambda a, b: xor(a, b))
SBool.__rxor__ = _arr(lambda a, b: xor(a, b))
SBool.__invert__ = lambda a: lnot(a)


# numeric evaluation -----------------------------------------------------------
def evalf(root, env, memo=None):
    """Evaluate a node at float values of the variables (complex/float/bool)."""
    if not isinstance(root, Sym):
        return root
    memo = {} if memo is None else memo
    stack = [root]
    while stack:
        n = stack[-1]
        if n.id in memo:
            stack.pop()
            continue
        todo = [a for a in n.args if isinstance(a, Sym) and a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        memo[n.id] = _ev(n, [memo[a.id] if isinstance(a, Sym) else a for a in n.args], env)
    return memo[root.id]


def _ev(n, a, env):
    import cmath

    op = n.op
    try:
        if op == "var":
            return env[a[0]]
        if op == "const":
            return float(a[0])
        if op == "cconst":
            return complex(float(a[0]), float(a[1]))
        if op == "bconst":
            return a[0]
        if op in ("add", "cadd"):
            return a[0] + a[1]
        if op in ("mul", "cmul"):
            return a[0] * a[1]
        if op in ("div", "cdiv"):
            return a[0] / a[1]
        if op in ("ite", "cite"):
            return a[1] if a[0] else a[2]
        if op == "sqrt":
            return math.sqrt(a[0]) if a[0] > 0 else 0.0
        if op == "csqrt":
            return cmath.sqrt(a[0])
        if op == "exp":
            return _expf(a[0])
        if op == "cexp":
            return cmath.exp(a[0])
        if op == "log":
            return math.log(a[0])
        if op == "mk":
            return complex(a[0], a[1])
        if op == "re":
            return complex(a[0]).real
        if op == "im":
            return complex(a[0]).imag
        if op == "conj":
            return complex(a[0]).conjugate()
        if op == "le":
            return a[0] <= a[1]
        if op in ("eq", "ceq"):
            return a[0] == a[1]
        if op == "not":
            return not a[0]
        if op == "and":
            return all(a)
    except (ZeroDivisionError, ValueError, OverflowError):
        return math.nan
    raise Unsupported(f"evalf {op}")


def evalb(n, env, tol=1e-9, memo=None):
    """Evaluate a boolean with tolerance: comparisons that are within `tol`
    count as true (robust truth)."""
    if not isinstance(n, Sym):
        return bool(n)
    memo = {} if memo is None else memo
    return _evb(n, env, tol, memo, True)


def _evb(n, env, tol, memo, pos):
    if n.op == "bconst":
        return n.args[0]
    if n.op == "not":
        return not _evb(n.args[0], env, tol, memo, not pos)
    if n.op == "and":
        return all(_evb(x, env, tol, memo, pos) for x in n.args)
    x, y = (evalf(v, env, memo) for v in n.args)
    s = tol * (abs(x) + abs(y)) + tol * 1e-3
    if n.op == "le":
        return x <= y + s if pos or not s else x < y - s
    return abs(x - y) <= s if pos else (x == y)
