"""sympy facade: expressions that are linear in symbols.

Coefficients are exact/symbolic numbers.  Anything that is not linear is
reported as unsupported (inconclusive).  `as_coefficients_dict` drops zero
coefficients, like sympy does; whether a coefficient is zero is decided by the
solver, and only where the caller can tell the difference."""
from __future__ import annotations

import math
import types
from collections import defaultdict
from fractions import Fraction as F

import numpy as np

from . import core
from .core import ONE, ZERO, SymReal, ctx, lift


def _num(x):
    if isinstance(x, (Expr, str)):
        return None
    return lift(x)


class Expr:
    __slots__ = ("s", "c")
    __array_priority__ = 10000
    __array_ufunc__ = None

    def __init__(self, s, c):
        self.s = s  # {name: coefficient}
        self.c = c

    # used by core.lift: a constant expression is a number
    @property
    def _as_real(self):
        if self.s:
            return None
        return self.c

    @staticmethod
    def of(x):
        if isinstance(x, Expr):
            return x
        v = _num(x)
        if v is None:
            raise TypeError("cannot sympify %r" % (x,))
        return Expr({}, v)

    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        try:
            o = Expr.of(o)
        except TypeError:
            return NotImplemented
        s = dict(self.s)
        for k, v in o.s.items():
            w = s.get(k)
            if w is None:
                s[k] = v
            else:
                w = w + v
                if isinstance(w, SymReal) and not w.t:
                    del s[k]
                else:
                    s[k] = w
        return Expr(s, self.c + o.c)

    __radd__ = __add__

    def __neg__(self):
        return Expr({k: -v for k, v in self.s.items()}, -self.c)

    def __pos__(self):
        return self

    def __sub__(self, o):
        try:
            return self + (-Expr.of(o))
        except TypeError:
            return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        try:
            o = Expr.of(o)
        except TypeError:
            return NotImplemented
        if o.s and self.s:
            ctx().die(core.Unsupported("non-linear sympy expression"))
        a, k = (self, o.c) if not o.s else (o, self.c)
        if isinstance(k, SymReal) and not k.t:
            return Expr({}, ZERO)
        return Expr({n: v * k for n, v in a.s.items()}, a.c * k)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Expr.of(o)
        if o.s:
            ctx().die(core.Unsupported("division by a sympy symbol"))
        return Expr({n: v / o.c for n, v in self.s.items()}, self.c / o.c)

    def __rtruediv__(self, o):
        if self.s:
            ctx().die(core.Unsupported("division by a sympy symbol"))
        return Expr({}, Expr.of(o).c / self.c)

    def __pow__(self, o):
        if self.s:
            if o == 1:
                return self
            ctx().die(core.Unsupported("power of a sympy symbol"))
        return Expr({}, core.rpow(self.c, o))

    def __abs__(self):
        if self.s:
            ctx().die(core.Unsupported("abs of a sympy symbol"))
        return Expr({}, abs(self.c))

    def __eq__(self, o):
        """structural equality"""
        try:
            o = Expr.of(o)
        except TypeError:
            return False
        if set(self.s) != set(o.s):
            return False
        r = core.SymBool.of(self.c == o.c)
        for k in self.s:
            r = r & core.SymBool.of(self.s[k] == o.s[k])
        return bool(r)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if not self.s:
            return hash(self.c)
        return hash((frozenset(self.s), "lin"))

    def _cmp(self, o, op):
        d = self - o
        if d.s:
            ctx().die(core.Unsupported("inequality between sympy symbols"))
        return d.c._cmp(0, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __bool__(self):
        if self.s:
            return True
        return bool(self.c)

    def __float__(self):
        if self.s:
            raise TypeError("Cannot convert expression to float")
        return float(self.c)

    def __int__(self):
        return int(float(self))

    def __repr__(self):
        return " + ".join([f"{v}*{k}" for k, v in self.s.items()] + [str(self.c)])

    __str__ = __repr__

    # ---- queries
    def as_coefficients_dict(self, *syms):
        d = CoefDict()
        if not self.s or not (isinstance(self.c, SymReal) and not self.c.t):
            dict.__setitem__(d, 1, self.c)
        for k in sorted(self.s):
            dict.__setitem__(d, Symbol(k), self.s[k])
        return d

    def coeff(self, x, n=1):
        if n == 0:
            s = {k: v for k, v in self.s.items() if k != x.name}
            return Expr(s, self.c)
        if isinstance(x, Symbol):
            return Expr({}, self.s.get(x.name, ZERO))
        return Expr({}, self.c if x == 1 else ZERO)

    def as_coeff_Add(self):
        return Expr({}, self.c), Expr(dict(self.s), ZERO)

    def as_independent(self, *syms, as_Add=True):
        names = {x.name for x in syms}
        a = {k: v for k, v in self.s.items() if k not in names}
        b = {k: v for k, v in self.s.items() if k in names}
        return Expr(a, self.c), Expr(b, ZERO)

    def subs(self, *a, **k):
        m = dict(a[0]) if len(a) == 1 else {a[0]: a[1]}
        r = Expr({}, self.c)
        m = {(x.name if isinstance(x, Symbol) else str(x)): v for x, v in m.items()}
        for n, v in self.s.items():
            if n in m:
                r = r + Expr({}, v) * m[n]
            else:
                r = r + Expr({n: v}, ZERO)
        return r

    xreplace = subs

    def diff(self, x):
        return Expr({}, self.s.get(x.name, ZERO))

    def expand(self, *a, **k):
        return self

    simplify = evalf = n = doit = factor = cancel = together = expand

    def collect(self, *a, **k):
        return self

    @property
    def free_symbols(self):
        return {Symbol(k) for k in self.s}

    @property
    def args(self):
        out = [] if not self.c.t else [Expr({}, self.c)]
        return tuple(out + [Expr({k: v}, ZERO) for k, v in self.s.items()])

    @property
    def is_number(self):
        return not self.s

    is_Number = is_number

    @property
    def is_Add(self):
        return len(self.args) > 1

    @property
    def is_zero(self):
        return not self.s and bool(self.c == 0)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class Symbol(Expr):
    __slots__ = ("name",)

    def __init__(self, name, **k):
        self.name = str(name)
        Expr.__init__(self, {self.name: ONE}, ZERO)

    def __hash__(self):
        return hash((self.name, "sym"))

    def __eq__(self, o):
        if isinstance(o, Symbol):
            return self.name == o.name
        return Expr.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return self.name

    __str__ = __repr__


class CoefDict(defaultdict):
    """as_coefficients_dict result; entries whose zeroness is unknown are
    settled only when the difference can be observed"""

    def __init__(self, *a):
        super().__init__(int)
        for x in a:
            for k, v in dict(x).items():
                dict.__setitem__(self, k, v)

    def _settle(self):
        if dict.__len__(self) <= 1:
            return
        for k in list(dict.keys(self)):
            v = dict.__getitem__(self, k)
            if isinstance(v, SymReal) and not v.nonzero_or_fork():
                dict.__delitem__(self, k)
        if dict.__len__(self) == 0:
            dict.__setitem__(self, 1, ZERO)

    def __len__(self):
        self._settle()
        return dict.__len__(self)

    def __iter__(self):
        self._settle()
        return dict.__iter__(self)

    def keys(self):
        self._settle()
        return dict.keys(self)

    def values(self):
        self._settle()
        return dict.values(self)

    def items(self):
        self._settle()
        return dict.items(self)

    def __contains__(self, k):
        self._settle()
        return dict.__contains__(self, k)

    def pop(self, k, *d):
        if dict.__contains__(self, k):
            v = dict.pop(self, k)
            if d and not (isinstance(d[0], (int, float)) and d[0] == 0) and not v.nonzero_or_fork():
                return d[0]
            if not d and isinstance(v, SymReal) and not v.nonzero_or_fork():
                raise KeyError(k)
            return v
        return dict.pop(self, k, *d)

    def get(self, k, d=None):
        if dict.__contains__(self, k):
            v = dict.__getitem__(self, k)
            if not (isinstance(d, (int, float)) and d == 0) and isinstance(v, SymReal):
                if not v.nonzero_or_fork():
                    return d
            return v
        return d

    def copy(self):
        return CoefDict(self)


class Boolean:
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return self.v

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return hash(self.v)

    def simplify(self):
        return self

    def __repr__(self):
        return str(self.v)


true, false = Boolean(True), Boolean(False)


class Equality:
    def __init__(self, lhs, rhs):
        self.lhs, self.rhs = lhs, rhs

    @property
    def args(self):
        return (self.lhs, self.rhs)

    @property
    def free_symbols(self):
        return self.lhs.free_symbols | self.rhs.free_symbols

    def simplify(self, **k):
        e = self.lhs - self.rhs
        s = {}
        for n in sorted(e.s):
            v = e.s[n]
            if isinstance(v, SymReal) and v.nonzero_or_fork():
                s[n] = v
        if not s:
            return true if bool(e.c == 0) else false
        if len(s) == 1:
            (n, m), = s.items()
            return Equality(Symbol(n), Expr({}, -e.c / m))
        if bool(e.c == 0):
            ns = list(s)
            return Equality(
                Expr({ns[0]: s[ns[0]]}, ZERO), Expr({n: -s[n] for n in ns[1:]}, ZERO)
            )
        return Equality(Expr(s, ZERO), Expr({}, -e.c))

    def subs(self, *a):
        return Eq(self.lhs.subs(*a), self.rhs.subs(*a))

    def expand(self):
        return self

    def __bool__(self):
        raise TypeError("cannot determine truth value of Relational")

    def __repr__(self):
        return f"Eq({self.lhs}, {self.rhs})"


def Eq(lhs, rhs=0, **k):
    lhs, rhs = Expr.of(lhs), Expr.of(rhs)
    d = lhs - rhs
    if not d.s:
        return true if bool(d.c == 0) else false
    return Equality(lhs, rhs)


def sympify(x, **k):
    if isinstance(x, str):
        return Symbol(x)
    if isinstance(x, (Equality, Boolean)):
        return x
    return Expr.of(x)


def symbols(names, **k):
    if isinstance(names, (list, tuple)):
        return tuple(Symbol(n) for n in names)
    ns = [n for n in names.replace(",", " ").split() if n]
    if len(ns) == 1 and "," not in names:
        return Symbol(ns[0])
    return tuple(Symbol(n) for n in ns)


class _S:
    One, Zero = Expr({}, ONE), Expr({}, ZERO)
    true, false = true, false

    def __call__(self, x):
        return sympify(x)


class _M(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if core.Ctx.cur is not None:
            ctx().die(core.Unsupported("sympy." + n))
        raise AttributeError(n)


def _build():
    m = _M("sympy")
    for k, v in dict(
        Symbol=Symbol, symbols=symbols, Eq=Eq, Expr=Expr, sympify=sympify, S=_S(),
        Equality=Equality, Float=lambda x, *a: Expr.of(x), Integer=lambda x: Expr.of(x),
        Rational=lambda a, b=1: Expr.of(F(a, b)), Add=lambda *a: sum(a, Expr({}, ZERO)),
        Mul=lambda *a: math.prod(a, start=Expr({}, ONE)), simplify=lambda x, **k: x.simplify(),
        expand=lambda x, **k: x, true=true, false=false, nan=float("nan"),
    ).items():
        setattr(m, k, v)
    m.Function = None
    return m


facade = _build()
