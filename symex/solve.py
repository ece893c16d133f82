"""SMT encoding of the term DAG and the decision procedures built on z3/cvc5.

Encoding steps (all regenerated per query):
 1. exp/log/trig are normalised: their arguments are expanded to Laurent
    polynomials over atoms, exp of a sum becomes a product of integer powers of
    generator variables, log of a positive monomial becomes a sum;
 2. fractions are cleared (denominators kept as factor multisets), complex
    equalities are cross-multiplied and split into real and imaginary part;
 3. square roots become variables with their defining equations;
 4. what is left is quantifier-free nonlinear real arithmetic.
"""

import math
import time
from fractions import Fraction

import z3

from . import term as T
from .term import Sym, Unsupported

STATS = {"queries": 0, "time": 0.0, "sat": 0, "unsat": 0, "unknown": 0}
MAXTERMS = 4000


class TooBig(Exception):
    pass


# ---------------------------------------------------------------- polynomials
# polynomial: dict monomial -> (re, im) Fractions ; monomial: tuple of (id, pow)
ATOMS = {}


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, p in b:
        q = d.get(k, 0) + p
        if q:
            d[k] = q
        else:
            del d[k]
    return tuple(sorted(d.items()))


def _padd(a, b):
    r = dict(a)
    for m, (x, y) in b.items():
        if m in r:
            u, v = r[m]
            u, v = u + x, v + y
            if u or v:
                r[m] = (u, v)
            else:
                del r[m]
        else:
            r[m] = (x, y)
    return r


def _pmul(a, b):
    if len(a) * len(b) > MAXTERMS:
        raise TooBig
    if len(a) * len(b) > 200:
        T.check_deadline()
    r = {}
    for m1, (a1, b1) in a.items():
        for m2, (a2, b2) in b.items():
            m = _mono_mul(m1, m2)
            x, y = a1 * a2 - b1 * b2, a1 * b2 + b1 * a2
            if m in r:
                u, v = r[m]
                x, y = x + u, y + v
                if not (x or y):
                    del r[m]
                    continue
            r[m] = (x, y)
    return r


_POLY = {}


def _atom(n):
    ATOMS[n.id] = n
    return {((n.id, 1),): (Fraction(1), Fraction(0))}


def poly(n):
    p = _POLY.get(n.id)
    if p is not None:
        return p[1]
    # iterative post-order to avoid deep recursion
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in _POLY:
            stack.pop()
            continue
        todo = [c for c in _poly_children(x) if c.id not in _POLY]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        _POLY[x.id] = (x, _poly1(x))
    return _POLY[n.id][1]


def _poly_children(n):
    if n.op in ("add", "mul", "div", "cadd", "cmul", "cdiv", "mk"):
        return n.args
    return ()


def _poly1(n):
    op = n.op
    z = Fraction(0)
    if op == "const":
        return {(): (n.args[0], z)} if n.args[0] else {}
    if op == "cconst":
        return {(): n.args} if (n.args[0] or n.args[1]) else {}
    try:
        if op in ("add", "cadd"):
            r = _padd(_POLY[n.args[0].id][1], _POLY[n.args[1].id][1])
            if len(r) > MAXTERMS:
                raise TooBig
            return r
        if op in ("mul", "cmul"):
            return _pmul(_POLY[n.args[0].id][1], _POLY[n.args[1].id][1])
        if op == "mk":
            return _padd(
                _POLY[n.args[0].id][1],
                _pmul({(): (z, Fraction(1))}, _POLY[n.args[1].id][1]),
            )
        if op in ("div", "cdiv"):
            return _pmul(_POLY[n.args[0].id][1], _pinv(n.args[1], _POLY[n.args[1].id][1]))
    except TooBig:
        return _atom(n)
    return _atom(n)


def _pinv(node, p):
    if len(p) == 1:
        ((m, (a, b)),) = p.items()
        d = a * a + b * b
        return {tuple((k, -e) for k, e in m): (a / d, -b / d)}
    # scale by the leading coefficient, then treat as one atom
    c, canon = _canon(p, node.sort)
    ATOMS[canon.id] = canon
    a, b = c
    d = a * a + b * b
    return {((canon.id, -1),): (a / d, -b / d)}


def _canon(p, sort):
    """(coefficient, node) with p = coefficient * node, node canonical."""
    lead = max(p)
    a, b = p[lead]
    d = a * a + b * b
    inv = (a / d, -b / d)
    q = _pmul(p, {(): inv})
    return (a, b), poly_node(q, sort)


def poly_node(p, sort=None):
    """Deterministic node of a polynomial."""
    if not p:
        return T.const(0)
    acc = None
    for m in sorted(p):
        a, b = p[m]
        t = T.const(a) if not b else T.cconst(a, b)
        for k, e in m:
            x = ATOMS[k]
            t = T.mul(t, T.ipow(x, e) if e > 0 else T.div(T.const(1), T.ipow(x, -e)))
        acc = t if acc is None else T.add(acc, t)
    return acc


def poly_is_zero(n):
    try:
        return not poly(n)
    except (TooBig, RecursionError):
        return False


# ----------------------------------------------------------------------- walk
def reach(roots):
    seen, order = set(), []
    stack = list(roots)
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        order.append(n)
        stack.extend(a for a in n.args if isinstance(a, Sym))
    return order


def _fgcd(a, b):
    return Fraction(
        math.gcd(a.numerator * b.denominator, b.numerator * a.denominator),
        a.denominator * b.denominator,
    )


class Encoder:
    """Encodes one query."""

    def __init__(self, level=2, cuts=(), whole=False):
        self.level = level
        # whole: keep every real exponential as one monotone value instead of
        # splitting exponentials of sums into products
        self.whole = whole
        self.rw = {}
        self.z = {}
        self.zvars = {}
        self.facts = []  # z3 facts
        self.node_facts = []  # SBool nodes still to encode
        self.fr_memo = {}
        self.split_memo = {}
        # a constant factor of a cut term stays outside (k*x and x are cut alike)
        self.cuts = {(T._coef(c)[1] if c.sort == 'R' else c).id for c in cuts}
        self.gens = {}
        self.reals_exp = []  # (t node, gen node)
        self.logs = []  # (arg node, var node)
        self.nfresh = 0
        self.done_nz = set()
        self.envdefs = []  # (var name, node) to evaluate auxiliary variables
        self.logn = {}
        self.raw = False

    def fresh(self, pfx, lo=-T.INF, hi=T.INF, nz=False):
        self.nfresh += 1
        return T.var(f"{pfx}!{self.nfresh}", lo, hi, nz)

    # 1. exp / log normalisation -------------------------------------------
    def prepare(self, roots):
        nodes = reach(roots)
        exps = [n for n in nodes if n.op in ("exp", "cexp")]
        coefs = {}
        self.exp_poly = {}
        for n in exps:
            arg = self.lognorm(n.args[0])
            p = poly(arg)
            self.exp_poly[n.id] = p
            for m, (a, b) in p.items():
                for kind, c in (("r", a), ("i", b)):
                    if c:
                        coefs.setdefault((kind, m), []).append(abs(c))
        self.unit = {}
        for key, cs in coefs.items():
            g = cs[0]
            for c in cs[1:]:
                g = _fgcd(g, c)
            if max(c / g for c in cs) <= 24:
                self.unit[key] = g
            else:
                self.unit[key] = None

    def lognorm(self, n):
        """Rewrite logs inside n into sums of logs of atoms."""
        r = self.logn.get(n.id)
        if r is not None:
            return r
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in self.logn:
                stack.pop()
                continue
            todo = [a for a in x.args if isinstance(a, Sym) and a.id not in self.logn]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            args = tuple(self.logn[a.id] if isinstance(a, Sym) else a for a in x.args)
            if x.op == "log":
                self.logn[x.id] = self._log1(args[0])
            else:
                self.logn[x.id] = rebuild(x, args)
        return self.logn[n.id]

    def _log1(self, a):
        if a.op == "const":
            return T.log(a)
        p = poly(a)
        if not p:
            return T.intern(T.SReal, "log", (a,))
        if len(p) == 1:
            ((m, (c, _)),) = p.items()
            if c > 0 and all(ATOMS[k].sort == "R" and ATOMS[k].lo >= 0 for k, _ in m):
                acc = T.log(T.const(c)) if c != 1 else T.const(0)
                for k, e in m:
                    x = ATOMS[k]
                    if x.op == "exp":
                        lg = x.args[0]
                    elif x.op == "sqrt":
                        lg = T.mul(Fraction(1, 2), self._log1(x.args[0]))
                    else:
                        lg = T.intern(T.SReal, "log", (x,), T._logf(x.lo), T._logf(x.hi))
                    acc = T.add(acc, T.mul(e, lg))
                return acc
            return T.intern(T.SReal, "log", (a,), T._logf(a.lo), T._logf(a.hi))
        # common monomial content (powers of positive atoms)
        (c, canon) = _canon(p, "R")
        if c[0] > 0 and not c[1] and c[0] != 1:
            T.mark(canon, lo=0.0, nz=True)
            return T.add(
                T.log(T.const(c[0])),
                T.intern(T.SReal, "log", (canon,), T._logf(canon.lo), T._logf(canon.hi)),
            )
        return T.intern(T.SReal, "log", (a,), T._logf(a.lo), T._logf(a.hi))

    def rewrite(self, n):
        r = self.rw.get(n.id)
        if r is not None:
            return r
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in self.rw:
                stack.pop()
                continue
            if x.id in self.cuts:
                stack.pop()
                self.rw[x.id] = self.cut(x)
                continue
            if x.op in ("exp", "cexp"):
                stack.pop()
                self.rw[x.id] = self._exp(x)
                continue
            if x.op == "log":
                stack.pop()
                self.rw[x.id] = self._log(x)
                continue
            todo = [a for a in x.args if isinstance(a, Sym) and a.id not in self.rw]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            args = tuple(self.rw[a.id] if isinstance(a, Sym) else a for a in x.args)
            if self.raw and x.op in ("le", "eq") and args[0] is not args[1] and any(a.op != "const" for a in args):
                y = T.intern(T.SBool, x.op, args)
            else:
                y = rebuild(x, args)
            if y.sort == "R" and x.sort == "R":
                # keep interval knowledge
                T.mark(y, x.lo, x.hi, x.nz)
            elif y.sort == "C" and x.nz:
                T.mark(y, nz=True)
            self.rw[x.id] = y
        return self.rw[n.id]

    def cut(self, x):
        if x.sort == "R":
            v = T.var(f"cut!{x.id}", x.lo, x.hi, x.nz)
            self.envdefs.append((v.args[0], x))
            return v
        if x.sort == "C":
            a, b = T.var(f"cut!{x.id}r"), T.var(f"cut!{x.id}i")
            self.envdefs.append((a.args[0], T.re_(x)))
            self.envdefs.append((b.args[0], T.im_(x)))
            v = T.mk(a, b)
            if x.nz:
                T.mark(v, nz=True)
            return v
        v = T.var(f"cut!{x.id}b")
        return T.le(v, 0)

    def _exp(self, n):
        p = self.exp_poly.get(n.id)
        if p is None:
            arg = self.lognorm(n.args[0])
            p = poly(arg)
        if self.whole and n.sort == "R" and len(p) > 0:
            key = ("whole", tuple(sorted(p.items())))
            if key not in self.gens:
                x = T.var(f"gen!{len(self.gens)}", max(n.lo, 0.0), n.hi, True)
                self.reals_exp.append((n.args[0], x))
                self.envdefs.append((x.args[0], n))
                self.gens[key] = x
            return self.gens[key]
        acc = T.const(1)
        for m in sorted(p):
            a, b = p[m]
            for kind, c in (("r", a), ("i", b)):
                if not c:
                    continue
                u = self.unit.get((kind, m))
                if u is None:
                    u = abs(c)
                k = c / u
                g, ginv = self.gen(kind, m, u)
                k = int(k)
                acc = T.mul(acc, T.ipow(g, k) if k > 0 else T.ipow(ginv, -k))
        if n.sort == "C":
            acc = T.to_c(acc)
            T.mark(acc, nz=True)
        else:
            T.mark(acc, lo=0.0, nz=True)
        return acc

    def gen(self, kind, m, u):
        key = (kind, m, u)
        g = self.gens.get(key)
        if g is not None:
            return g
        mono = poly_node({m: (Fraction(1), Fraction(0))})
        t = T.mul(u, mono) if m else T.const(u)
        is_real = all(ATOMS[k].sort == "R" for k, _ in m)
        name = f"gen!{len(self.gens)}"
        if is_real and kind == "r":
            if not m:
                v = math.exp(float(u))
                x = T.var(name, v * (1 - 1e-13), v * (1 + 1e-13), True)
            else:
                lo, hi = T._out(T._expf(t.lo), T._expf(t.hi))
                x = T.var(name, max(lo, 0.0), hi, True)
                self.reals_exp.append((t, x))
            self.envdefs.append((name, T.exp(t)))
            g = (x, T.div(T.const(1), x))
        elif is_real:
            lo = [-1.0, 1.0]
            if not m:
                c, s = math.cos(float(u)), math.sin(float(u))
                X = T.var(name + "c", c - 1e-15, c + 1e-15)
                Y = T.var(name + "s", s - 1e-15, s + 1e-15)
            else:
                X = T.var(name + "c", *lo)
                Y = T.var(name + "s", *lo)
            e = T.exp(T.mul(T.cconst(0, 1), t))
            self.envdefs.append((name + "c", T.re_(e)))
            self.envdefs.append((name + "s", T.im_(e)))
            self.node_facts.append((1, T.eq(T.add(T.mul(X, X), T.mul(Y, Y)), 1)))
            a, b = T.mk(X, Y), T.mk(X, T.neg(Y))
            T.mark(a, nz=True)
            T.mark(b, nz=True)
            g = (a, b)
        else:
            X, Y = T.var(name + "x"), T.var(name + "y")
            arg = t if kind == "r" else T.mul(T.cconst(0, 1), t)
            e = T.exp(T.to_c(arg))
            self.envdefs.append((name + "x", T.re_(e)))
            self.envdefs.append((name + "y", T.im_(e)))
            a = T.mk(X, Y)
            T.mark(a, nz=True)
            n2 = T.add(T.mul(X, X), T.mul(Y, Y))
            self.node_facts.append((0, T.lnot(T.intern(T.SBool, "eq", (n2, T.const(0))))))
            g = (a, T.div(T.cconst(1, 0), a))
        self.gens[key] = g
        return g

    def _log(self, n):
        r = self.lognorm(n)
        if r.op == "log":
            return self.logvar(r)
        # sum of logs: rewrite its atoms
        self.rw_pending = True
        return self.rewrite(r) if r is not n else self.logvar(r)

    def logvar(self, n):
        arg = n.args[0]
        name = f"log!{n.id}"
        if arg.op == "const":
            v = math.log(arg.args[0].numerator) - math.log(arg.args[0].denominator) if arg.args[0] > 0 else 0.0
            e = max(abs(v), 1e-3) * 1e-13
            x = T.var(name, v - e, v + e)
            self.envdefs.append((name, n))
            self.rw[n.id] = x
            return x
        lo, hi = T._out(T._logf(arg.lo), T._logf(arg.hi))
        x = T.var(name, max(lo, n.lo), min(hi, n.hi))
        self.envdefs.append((name, n))
        self.rw[n.id] = x
        self.logs.append((arg, x))
        return x

    # 2. fractions --------------------------------------------------------
    # frac(n): (num node without divisions, {factor id: (node, power)})
    def frac(self, n):
        r = self.fr_memo.get(n.id)
        if r is not None:
            return r
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in self.fr_memo:
                stack.pop()
                continue
            ch = x.args if x.op in ("add", "mul", "div", "cadd", "cmul", "cdiv", "mk", "conj") else ()
            if x.op in ("re", "im") and x.args[0].op != "csqrt":
                ch = x.args
            todo = [c for c in ch if c.id not in self.fr_memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.fr_memo[x.id] = self._frac1(x)
        return self.fr_memo[n.id]

    def _frac1(self, n):
        op = n.op
        F = lambda x: self.fr_memo[x.id]  # noqa: E731
        if op in ("const", "cconst", "var"):
            return n, {}
        if op in ("add", "cadd", "mk"):
            (na, da), (nb, db) = F(n.args[0]), F(n.args[1])
            L = lcm(da, db)
            na, nb = T.mul(na, cofactor(L, da)), T.mul(nb, cofactor(L, db))
            if op == "mk":
                nb = T.mul(T.cconst(0, 1), nb) if nb.sort == "C" else T.mk(T.const(0), nb)
            return T.add(na, nb), L
        if op in ("mul", "cmul"):
            (na, da), (nb, db) = F(n.args[0]), F(n.args[1])
            # cancel factors that are syntactically equal
            na, db = cancel(na, db)
            nb, da = cancel(nb, da)
            return T.mul(na, nb), dmul(da, db)
        if op in ("div", "cdiv"):
            (na, da), (nb, db) = F(n.args[0]), F(n.args[1])
            # (na/da) / (nb/db) = na*db / (da*nb)
            num = na
            db = dict(db)
            da = dict(da)
            for k in list(db):
                if k in da:
                    q = min(db[k][1], da[k][1])
                    for d in (da, db):
                        if d[k][1] == q:
                            del d[k]
                        else:
                            d[k] = (d[k][0], d[k][1] - q)
            num = T.mul(num, cofactor(db, {}))
            self.nonzero(n.args[1], nb)
            for f, p in factors(nb):
                num2, dd = cancel(num, {f.id: (f, p)})
                num = num2
                da = dmul(da, dd)
            return num, da
        if op == "conj":
            na, da = F(n.args[0])
            d2 = {}
            for k, (f, p) in da.items():
                c = T.conj(f)
                d2 = dmul(d2, {c.id: (c, p)})
            return T.conj(na), d2
        if op in ("re", "im"):
            if n.args[0].op == "csqrt":
                return self.root_parts(n.args[0])[0 if op == "re" else 1], {}
            na, da = F(n.args[0])
            # make the denominator real
            num, dreal = na, {}
            for k, (f, p) in da.items():
                if f.sort == "C":
                    num = T.mul(num, T.ipow(T.conj(f), p))
                    r, i = self.split(f)
                    n2 = T.add(T.mul(r, r), T.mul(i, i))
                    T.mark(n2, nz=True)
                    dreal = dmul(dreal, {n2.id: (n2, p)})
                else:
                    dreal = dmul(dreal, {k: (f, p)})
            r, i = self.split(num)
            return (r if op == "re" else i), dreal
        if op == "sqrt":
            return self.root(n), {}
        if op == "csqrt":
            p, q = self.root_parts(n)
            r = T.mk(p, q)
            if n.nz:
                T.mark(r, nz=True)
            return r, {}
        if op == "ite":
            return self.itevar(n), {}
        if op == "cite":
            a = self.itevar(T.intern(T.SReal, "ite", (n.args[0], self.force_re(n.args[1]), self.force_re(n.args[2]))))
            b = self.itevar(T.intern(T.SReal, "ite", (n.args[0], self.force_im(n.args[1]), self.force_im(n.args[2]))))
            r = T.mk(a, b)
            if n.nz:
                T.mark(r, nz=True)
            return r, {}
        raise Unsupported(f"encode {op}")

    def force_re(self, x):
        return T.re_(x)

    def force_im(self, x):
        return T.im_(x)

    def nonzero(self, orig, num):
        if num.id in self.done_nz or num.op in ("const", "cconst"):
            return
        self.done_nz.add(num.id)
        T.mark(num, nz=True)
        if num.sort == "R":
            z = self.zr(num)
            if num.lo >= 0:
                self.facts.append(z > 0)
            elif num.hi <= 0:
                self.facts.append(z < 0)
            else:
                self.facts.append(z != 0)
        else:
            r, i = self.split(num)
            self.facts.append(z3.Or(self.zr(r) != 0, self.zr(i) != 0))

    def root(self, n):
        """sqrt node -> variable s with s>=0, s*s*den = num"""
        key = ("sqrt", n.args[0].id)
        v = self.zvars.get(key)
        if v is None:
            v = T.var(f"sqrt!{n.args[0].id}", n.lo, n.hi, n.nz)
            self.zvars[key] = v
            self.envdefs.append((v.args[0], n))
            num, den = self.frac(n.args[0])
            self.node_facts.append((1, ("sqrt", v, num, den)))
        return v

    def root_parts(self, n):
        key = ("csqrt", n.args[0].id)
        v = self.zvars.get(key)
        if v is None:
            p = T.var(f"csqrt!{n.args[0].id}r", 0.0, T.INF)
            q = T.var(f"csqrt!{n.args[0].id}i")
            # sign knowledge from the argument
            ar, ai = T.re_(n.args[0]), T.im_(n.args[0])
            if ar.lo > 0 or (ar.lo >= 0 and n.nz):
                T.mark(p, nz=True)
            if ai.lo >= 0:
                T.mark(q, lo=0.0, nz=ai.nz)
                T.mark(p, nz=ai.nz)
            if ai.hi <= 0:
                T.mark(q, hi=0.0, nz=ai.nz)
                T.mark(p, nz=ai.nz)
            self.envdefs.append((p.args[0], T.re_(n)))
            self.envdefs.append((q.args[0], T.im_(n)))
            v = self.zvars[key] = (p, q)
            num, den = self.frac(n.args[0])
            self.node_facts.append((1, ("csqrt", p, q, num, den)))
            if n.nz:
                self.facts.append(z3.Or(self.zr(p) != 0, self.zr(q) != 0))
        return v

    def itevar(self, n):
        key = ("ite", n.id)
        v = self.zvars.get(key)
        if v is None:
            v = T.var(f"ite!{n.id}", n.lo, n.hi, n.nz)
            self.zvars[key] = v
            self.envdefs.append((v.args[0], n))
            c = self.zb(n.args[0])
            for cond, br in ((c, n.args[1]), (z3.Not(c), n.args[2])):
                num, den = self.frac(br)
                lhs = self.zr(T.mul(v, cofactor(den, {})))
                self.facts.append(z3.Implies(cond, lhs == self.zr(num)))
        return v

    # complex split of division-free nodes
    def split(self, n):
        r = self.split_memo.get(n.id)
        if r is not None:
            return r
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in self.split_memo:
                stack.pop()
                continue
            ch = x.args if x.op in ("cadd", "cmul", "conj") else ()
            todo = [c for c in ch if c.id not in self.split_memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            S = self.split_memo
            if x.sort == "R":
                v = (x, T.const(0))
            elif x.op == "mk":
                v = x.args
            elif x.op == "cconst":
                v = (T.const(x.args[0]), T.const(x.args[1]))
            elif x.op == "cadd":
                a, b = S[x.args[0].id], S[x.args[1].id]
                v = (T.add(a[0], b[0]), T.add(a[1], b[1]))
            elif x.op == "cmul":
                a, b = S[x.args[0].id], S[x.args[1].id]
                v = (
                    T.sub(T.mul(a[0], b[0]), T.mul(a[1], b[1])),
                    T.add(T.mul(a[0], b[1]), T.mul(a[1], b[0])),
                )
            elif x.op == "conj":
                a = S[x.args[0].id]
                v = (a[0], T.neg(a[1]))
            elif x.op == "csqrt":
                v = self.root_parts(x)
            else:
                num, den = self.frac(x)
                if num is x or den:
                    raise Unsupported(f"split {x.op}")
                v = self.split(num)
            S[x.id] = v
        return self.split_memo[n.id]

    # 3. z3 --------------------------------------------------------------
    def zr(self, n):
        """z3 term of a division-free real node."""
        z = self.z.get(n.id)
        if z is not None:
            return z
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in self.z:
                stack.pop()
                continue
            if x.op == "var":
                stack.pop()
                self.z[x.id] = self.zvar(x)
                continue
            if x.op == "const":
                stack.pop()
                v = x.args[0]
                self.z[x.id] = z3.Q(v.numerator, v.denominator)
                continue
            if x.op in ("add", "mul"):
                todo = [c for c in x.args if c.id not in self.z]
                if todo:
                    stack.extend(todo)
                    continue
                stack.pop()
                a, b = (self.z[c.id] for c in x.args)
                self.z[x.id] = a + b if x.op == "add" else a * b
                continue
            stack.pop()
            num, den = self.frac(x)
            if den or num is x:
                raise Unsupported(f"z3 term of {x.op}")
            self.z[x.id] = self.zr(num)
        return self.z[n.id]

    def zvar(self, x):
        name = x.args[0]
        v = z3.Real(name)
        if self.level >= 1:
            if x.lo > -T.INF:
                f = Fraction(x.lo)
                q = z3.Q(f.numerator, f.denominator)
                self.facts.append(v > q if x.nz and x.lo == 0 else v >= q)
            if x.hi < T.INF:
                f = Fraction(x.hi)
                q = z3.Q(f.numerator, f.denominator)
                self.facts.append(v < q if x.nz and x.hi == 0 else v <= q)
            if x.nz and x.lo < 0 and x.hi > 0:
                self.facts.append(v != 0)
        elif x.nz:
            self.facts.append(v > 0 if x.lo >= 0 else (v < 0 if x.hi <= 0 else v != 0))
        return v

    def zb(self, n):
        key = ("b", n.id)
        z = self.z.get(key)
        if z is not None:
            return z
        op = n.op
        if op == "bconst":
            z = z3.BoolVal(n.args[0])
        elif op == "not":
            z = z3.Not(self.zb(n.args[0]))
        elif op == "and":
            z = z3.And([self.zb(a) for a in n.args])
        elif op == "le":
            z = self.zcmp(n.args[0], n.args[1], "le")
        elif op == "eq":
            z = self.zcmp(n.args[0], n.args[1], "eq")
        elif op == "ceq":
            z = self.zceq(n.args[0], n.args[1])
        else:
            raise Unsupported(f"bool {op}")
        self.z[key] = z
        return z

    def zcmp(self, a, b, op):
        (na, da), (nb, db) = self.frac(a), self.frac(b)
        L = lcm(da, db)
        la = T.mul(na, cofactor(L, da))
        lb = T.mul(nb, cofactor(L, db))
        if op == "eq":
            return self.zeq0(T.sub(la, lb))
        # multiply both sides by further copies of factors of unknown sign
        extra = T.const(1)
        for f, p in L.values():
            if f.lo >= 0:
                continue
            if f.hi <= 0:
                if p % 2:
                    extra = T.neg(extra)
            elif p % 2:
                extra = T.mul(extra, f)
        if extra.op == "const":
            if extra.args[0] == 1:
                return self._zle(la, lb)
            return self._zle(lb, la)
        return self._zle(T.mul(la, extra), T.mul(lb, extra))

    def _zle(self, a, b):
        d = T.sub(b, a)
        if d.lo >= 0 and not self.raw:
            return z3.BoolVal(True)
        try:
            p = poly(d)
            if not p:
                return z3.BoolVal(True)
            if len(p) == 1 and () in p:
                return z3.BoolVal(p[()][0] >= 0)
        except TooBig:
            pass
        return self.zr(a) <= self.zr(b)

    def zeq0(self, d):
        """d = 0 for a division-free real node"""
        try:
            p = poly(d)
            if not p:
                return z3.BoolVal(True)
            if len(p) == 1 and () in p:
                return z3.BoolVal(False)
        except TooBig:
            pass
        return self.zr(d) == 0

    def zceq(self, a, b):
        (na, da), (nb, db) = self.frac(a), self.frac(b)
        L = lcm(da, db)
        d = T.sub(T.mul(na, cofactor(L, da)), T.mul(nb, cofactor(L, db)))
        try:
            if not poly(d):
                return z3.BoolVal(True)
        except TooBig:
            pass
        r, i = self.split(d)
        return z3.And(self.zeq0(r), self.zeq0(i))

    # whole query --------------------------------------------------------
    def encode(self, conds):
        """z3 constraints for the conjunction of SBool nodes."""
        self.prepare(conds)
        # comparisons are kept even if interval facts learned from them decide them
        self.raw = True
        zs = [self.zb(self.rewrite(c)) for c in conds]
        self.raw = False
        self.emit_axioms()
        return zs + self.facts

    def emit_axioms(self):
        done = 0
        nlog = nexp = 0
        while True:
            progressed = False
            while done < len(self.node_facts):
                lvl, f = self.node_facts[done]
                done += 1
                progressed = True
                if self.level < lvl:
                    continue
                if isinstance(f, tuple) and f[0] == "sqrt":
                    _, v, num, den = f
                    self.facts.append(self.zeq0(T.sub(T.mul(T.intern_mul(v, v), cofactor(den, {})), num)))
                elif isinstance(f, tuple) and f[0] == "csqrt":
                    _, p, q, num, den = f
                    # (p+iq)^2 * den = num
                    d = cofactor(den, {})
                    lhs = T.mul(T.mk(T.sub(T.intern_mul(p, p), T.intern_mul(q, q)), T.mul(2, T.mul(p, q))), d)
                    r, i = self.split(T.sub(lhs, T.to_c(num)))
                    self.facts.append(self.zeq0(r))
                    self.facts.append(self.zeq0(i))
                else:
                    self.facts.append(self.zb(f))
            if self.level >= 2:
                while nlog < len(self.logs):
                    a, v = self.logs[nlog]
                    ar = self.rewrite(a)
                    T.mark(ar, lo=0.0, nz=True)
                    fs = [
                        T.eqb(T.lt(ar, 1), T.lt(v, 0)),
                        T.eqb(T.eq(ar, 1), T.eq(v, 0)),
                        T.le(v, T.sub(ar, 1)),
                    ]
                    for a2, v2 in self.logs[:nlog][:8]:
                        b = self.rewrite(a2)
                        fs.append(T.eqb(T.lt(ar, b), T.lt(v, v2)))
                        fs.append(T.eqb(T.eq(ar, b), T.eq(v, v2)))
                    nlog += 1
                    self.facts.extend(self.zb(f) for f in fs)
                    progressed = True
                while nexp < len(self.reals_exp):
                    t, x = self.reals_exp[nexp]
                    tr = self.rewrite(t)
                    fs = [
                        T.eqb(T.lt(tr, 0), T.lt(x, 1)),
                        T.eqb(T.eq(tr, 0), T.eq(x, 1)),
                        T.le(T.add(tr, 1), x),
                    ]
                    for t2, x2 in self.reals_exp[:nexp][:8]:
                        s = self.rewrite(t2)
                        fs.append(T.eqb(T.lt(tr, s), T.lt(x, x2)))
                        fs.append(T.eqb(T.eq(tr, s), T.eq(x, x2)))
                    nexp += 1
                    self.facts.extend(self.zb(f) for f in fs)
                    progressed = True
            if not progressed:
                return

    def tangents(self, env):
        """Refinement: bounds of exp/log at the point of a spurious model."""
        out = []
        for a, v in self.logs:
            ar = self.rewrite(a)
            try:
                x0 = T.evalf(ar, env)
            except (KeyError, Unsupported):
                continue
            if not (x0 > 0 and math.isfinite(x0)):
                continue
            l0 = math.log(x0)
            e = 1e-9 * max(1, abs(l0))
            out.append(T.le(v, T.add(l0 + e, T.mul(1 / x0, T.sub(ar, x0)))))
            # monotone at the point
            out.append(T.implies(T.le(ar, x0), T.le(v, l0 + e)))
            out.append(T.implies(T.le(x0, ar), T.le(l0 - e, v)))
            # secants near the point (concave)
            for f in (0.5, 2.0):
                x1 = x0 * f
                l1 = math.log(x1)
                s = (l1 - l0) / (x1 - x0)
                lo, hi = min(x0, x1), max(x0, x1)
                out.append(
                    T.implies(
                        T.land(T.le(lo, ar), T.le(ar, hi)),
                        T.le(T.add(l0 - e, T.mul(s, T.sub(ar, x0))), v),
                    )
                )
        for t, x in self.reals_exp:
            tr = self.rewrite(t)
            try:
                t0 = T.evalf(tr, env)
            except (KeyError, Unsupported):
                continue
            if not math.isfinite(t0) or abs(t0) > 300:
                continue
            e0 = math.exp(t0)
            e = 1e-9 * e0
            out.append(T.le(T.add(e0 - e, T.mul(e0, T.sub(tr, t0))), x))
            out.append(T.implies(T.le(tr, t0), T.le(x, e0 + e)))
            out.append(T.implies(T.le(t0, tr), T.le(e0 - e, x)))
            for d in (-1.0, 1.0):
                t1 = t0 + d
                e1 = math.exp(t1)
                s = (e1 - e0) / (t1 - t0)
                lo, hi = min(t0, t1), max(t0, t1)
                out.append(
                    T.implies(
                        T.land(T.le(lo, tr), T.le(tr, hi)),
                        T.le(x, T.add(e0 + e, T.mul(s, T.sub(tr, t0)))),
                    )
                )
        return out


def max_entries(n, scale=1, out=None):
    """The entries of a (nested, positively scaled) maximum: [("abs" | "val", term)]."""
    if out is None:
        out = []
        max_entries(n, scale, out)
        return _pair(out)
    if n.op == "mul" and any(x.op == "const" and x.args[0] for x in n.args):
        k = next(x for x in n.args if x.op == "const")
        rest = [x for x in n.args if x is not k]
        if len(rest) == 1 and k.args[0] > 0:
            max_entries(rest[0], T.mul(scale, k), out)
            return out
        if len(rest) == 1 and rest[0].op == "ite":
            # -min(x, y) = max(-x, -y)
            c, x, y = rest[0].args
            if c.op == "le" and c.args[0] is x and c.args[1] is y:
                max_entries(T.mul(k, x), scale, out)
                max_entries(T.mul(k, y), scale, out)
                return out
    if n.op == "ite":
        c, x, y = n.args
        if c.op == "le" and {c.args[0].id, c.args[1].id} == {x.id, y.id}:
            if x is c.args[1]:
                max_entries(y, scale, out)
                max_entries(x, scale, out)
                return out
        # absolute value
        if T.absolute(x) is n:
            out.append(("abs", T.mul(scale, x)))
            return out
        if T.absolute(y) is n:
            out.append(("abs", T.mul(scale, y)))
            return out
    out.append(("val", T.mul(scale, n)))
    return out


NEAR = Fraction(1, 10**12)


def near(a, b, memo=None, depth=0):
    """Do the two terms have the same polynomials over the same atoms, constants
    being identified when they differ by rounding only?"""
    if a is b:
        return True
    if not isinstance(a, Sym) or not isinstance(b, Sym):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return a == b
        if not all(isinstance(x, (Sym, int, float, Fraction)) and x == x and abs(x) != math.inf for x in (a, b) if not isinstance(x, Sym)):
            return False
        a, b = T.lift(a), T.lift(b)
    if a.sort != b.sort or depth > 40:
        return False
    memo = {} if memo is None else memo
    key = (a.id, b.id)
    if key not in memo:
        memo[key] = False
        memo[key] = _near(a, b, memo, depth)
    return memo[key]


_POLYOPS = ("add", "mul", "div", "cadd", "cmul", "cdiv", "mk", "const", "cconst")


def _near(a, b, memo, depth):
    if a.op not in _POLYOPS and b.op not in _POLYOPS:
        if a.op != b.op or len(a.args) != len(b.args):
            return False
        if not any(isinstance(x, Sym) for x in a.args):
            return False
        return all(near(x, y, memo, depth + 1) for x, y in zip(a.args, b.args))
    try:
        pa, pb = poly(a), poly(b)
    except (TooBig, RecursionError):
        return False
    if len(pa) > 300:
        return False
    if len(pa) != len(pb):
        # what is left of constants that cancel but for rounding
        p, q = (pa, pb) if len(pa) > len(pb) else (pb, pa)
        size = max((abs(x) + abs(y) for x, y in q.values()), default=0)
        rest = p.get(())
        if len(p) != len(q) + 1 or rest is None or () in q or abs(rest[0]) + abs(rest[1]) > NEAR * size / 1000:
            return False
        p = {m: c for m, c in p.items() if m}
        pa, pb = (p, q) if len(pa) > len(pb) else (q, p)
    ia = {k for m in pa for k, _ in m}
    ib = {k for m in pb for k, _ in m}
    ren = {}
    free = sorted(ia - ib)
    if len(free) != len(ib - ia) or len(free) > 30 or a.id in ia and b.id in ib:
        return False
    for k in sorted(ib - ia):
        for j in free:
            if near(ATOMS[j], ATOMS[k], memo, depth + 1):
                ren[k] = j
                free.remove(j)
                break
        else:
            return False
    for m, (x, y) in pb.items():
        q = pa.get(tuple(sorted((ren.get(k, k), e) for k, e in m)))
        if q is None:
            return False
        size = abs(q[0]) + abs(q[1])
        if abs(q[0] - x) > NEAR * size or abs(q[1] - y) > NEAR * size:
            return False
    return True


def _pair(entries):
    """max(x, -x) is |x|."""
    vals = [x for k, x in entries if k == "val"]
    if len(vals) < 2:
        return entries
    out, used = [], set()
    for i, (k, x) in enumerate(entries):
        if i in used:
            continue
        if k == "val":
            for j in range(i + 1, len(entries)):
                if j not in used and entries[j][0] == "val" and T.add(x, entries[j][1]) is T.const(0):
                    used.add(j)
                    k = "abs"
                    break
        out.append((k, x))
    return out


def eqb(a, b):
    return T.lnot(T.xor(a, b))


def _intern_mul(a, b):
    return T.mul(a, b)


T.eqb = eqb
T.intern_mul = _intern_mul


def rebuild(x, args):
    op = x.op
    if all(a is b or (not isinstance(a, Sym) and not isinstance(b, Sym) and a == b) for a, b in zip(args, x.args)):
        return x
    f = {
        "add": T.add, "cadd": T.add, "mul": T.mul, "cmul": T.mul, "mk": T.mk,
        "conj": T.conj, "le": T.le, "eq": T.eq, "ceq": T.eq, "ite": T.ite, "cite": T.ite,
        "not": T.lnot, "and": T.land, "re": T.re_, "im": T.im_,
    }.get(op)
    if f is not None:
        r = f(*args)
        if x.sort == "C" and r.sort == "R":
            r = T.to_c(r)
        return r
    if op in ("div", "cdiv"):
        T.mark(args[1], nz=True)
        r = T.div(*args)
        return T.to_c(r) if x.sort == "C" else r
    if op in ("sqrt", "log"):
        if op == "sqrt":
            T.mark(args[0], lo=0.0, nz=x.args[0].nz)
            return T.sqrt(args[0])
        T.mark(args[0], lo=0.0, nz=True)
        return T.log(args[0])
    if op == "csqrt":
        T.mark(args[0], nz=x.args[0].nz)
        return T.to_c(T.sqrt(T.to_c(args[0])))
    if op == "exp":
        return T.exp(args[0])
    if op == "cexp":
        return T.exp(T.to_c(args[0]))
    raise Unsupported(f"rebuild {op}")


# factor multisets -------------------------------------------------------------
def factors(n):
    """factor list [(node, power)] of a product node"""
    out = {}
    stack = [n]
    while stack:
        x = stack.pop()
        if x.op in ("mul", "cmul"):
            stack.extend(x.args)
        elif x.op == "mk" and x.args[1].op == "const" and x.args[1].args[0] == 0:
            stack.append(x.args[0])
        elif x.op in ("const", "cconst") and x.nz and x.op == "const" and x.args[0] == 1:
            continue
        elif x.op == "cconst" and x.args == (1, 0):
            continue
        else:
            f, p = out.get(x.id, (x, 0))
            out[x.id] = (x, p + 1)
    for f, p in out.values():
        T.mark(f, nz=True)
    return list(out.values())


def lcm(a, b):
    if not a:
        return b
    if not b:
        return a
    r = dict(a)
    for k, (f, p) in b.items():
        if k not in r or r[k][1] < p:
            r[k] = (f, p)
    return r


def cofactor(L, d):
    acc = T.const(1)
    for k, (f, p) in L.items():
        q = p - (d[k][1] if k in d else 0)
        if q:
            acc = T.mul(acc, T.ipow(f, q))
    return acc


def dmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = dict(a)
    for k, (f, p) in b.items():
        r[k] = (f, p + (r[k][1] if k in r else 0))
    return r


def cancel(num, den):
    if not den or num.op not in ("mul", "cmul", "var", "add", "cadd", "mk"):
        return num, den
    changed = True
    den = dict(den)
    while changed and den:
        changed = False
        for k, (f, p) in list(den.items()):
            if num is f:
                num = T.const(1) if f.sort == "R" else T.cconst(1, 0)
                ok = True
            elif num.op in ("mul", "cmul"):
                q = _remove(num, f)
                ok = q is not None
                if ok:
                    num = q
            else:
                ok = False
            if ok:
                changed = True
                if p == 1:
                    del den[k]
                else:
                    den[k] = (f, p - 1)
                break
    return num, den


def _remove(n, f):
    if n is f:
        return T.const(1)
    if n.op in ("mul", "cmul"):
        for i in (0, 1):
            r = _remove(n.args[i], f)
            if r is not None:
                return T.mul(r, n.args[1 - i])
    return None


# ---------------------------------------------------------------- queries
def z3val(v):
    if v is None:
        return None
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(40).as_fraction()
    return None


def _run(zs, timeout, tactic=None, seed=0):
    """(result, model or None)"""
    t0 = time.time()
    STATS["queries"] += 1
    if any(z3.is_false(z) for z in zs):
        STATS["unsat"] += 1
        s = z3.Solver()
        s.add(*zs)
        s.check()
        STATS["time"] += time.time() - t0
        return "unsat", None
    try:
        s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.add(*zs)
        r = s.check()
        m = s.model() if r == z3.sat else None
    except z3.Z3Exception:
        r, m = z3.unknown, None
    STATS["time"] += time.time() - t0
    k = "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"
    STATS[k] += 1
    return k, m


def _cvc5(zs, timeout):
    import cvc5

    t0 = time.time()
    STATS["queries"] += 1
    s = z3.Solver()
    s.add(*zs)
    txt = s.to_smt2().replace("(check-sat)", "")
    try:
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption("tlimit-per", str(int(timeout * 1000)))
        slv.setOption("nl-cov", "true")
        slv.setLogic("QF_NRA")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            nm = c.getCommandName()
            if nm in ("set-logic", "set-info"):
                continue
            c.invoke(slv, sm)
        r = slv.checkSat()
        k = "unsat" if r.isUnsat() else ("sat" if r.isSat() else "unknown")
    except Exception:
        k = "unknown"
    STATS["time"] += time.time() - t0
    # a cvc5 'sat' is not used (no model transfer): treat as unknown
    if k == "sat":
        k = "unknown"
    STATS[k] += 1
    return k, None


def model_env(m, names):
    env = {}
    decls = {d.name(): d for d in m.decls()}
    for n, default in names.items():
        d = decls.get(n)
        v = z3val(m[d]) if d is not None else None
        env[n] = float(v) if v is not None else default
    return env


def feasible(conds, timeout=1.5):
    """'sat' / 'unsat' / 'unknown' of a conjunction of SBool nodes."""
    conds = [c for c in conds if c.op != "bconst" or not c.args[0]]
    if any(c.op == "bconst" for c in conds):
        return "unsat"
    if not conds:
        return "sat"
    enc = Encoder(level=2)
    zs = enc.encode(conds)
    r, _ = _run(zs, timeout)
    return r
