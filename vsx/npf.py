"""numpy facade: real numpy on object arrays of exact/symbolic numbers."""
from __future__ import annotations

import builtins
import math
import types
from fractions import Fraction as F

import numpy as np

from . import core
from .core import NAN, ONE, ZERO, SymBool, SymInt, SymReal, ctx, ite, lift

_float_names = {
    "float", "double", "single", "float64", "float32", "float16", "half", "longdouble",
    "f", "d", "f8", "f4", "<f8", "<f4",
}


def is_float_dtype(dt):
    if dt is None:
        return False
    if isinstance(dt, type) and issubclass(dt, float):
        return True
    if isinstance(dt, str):
        return dt in _float_names
    try:
        return np.issubdtype(np.dtype(dt), np.floating)
    except TypeError:
        return False


def is_bool_dtype(dt):
    try:
        return dt is not None and np.dtype(dt) == np.bool_
    except TypeError:
        return False


def exact(x):
    """concrete float -> exact constant; everything else unchanged"""
    if isinstance(x, (float, np.floating)):
        if not math.isfinite(x):
            return float(x)
        return SymReal.const(x)
    return x


def is_sym(x):
    return isinstance(x, (SymReal, SymBool, SymInt))


def real_elem(x):
    """element of a float array"""
    if isinstance(x, SymReal):
        return x
    v = lift(x)
    if v is None:
        if x is None:
            return NAN
        if isinstance(x, str):
            return SymReal.const(F(x))
        raise TypeError("float() argument must be a string or a real number, not %r" % type(x).__name__)
    return v


def obj(a):
    """any ndarray -> SArr with exact elements"""
    if isinstance(a, SArr):
        return a
    if not isinstance(a, np.ndarray):
        return a
    if a.dtype == object:
        return a.view(SArr)
    if np.issubdtype(a.dtype, np.floating):
        out = np.empty(a.shape, dtype=object)
        of, af = out.reshape(-1), a.reshape(-1)
        for i in range(af.size):
            of[i] = exact(af[i])
        return out.view(SArr)
    return a


def to_obj(a):
    """any array as an SArr (integers stay integers)"""
    if isinstance(a, SArr):
        return a
    if a.dtype.kind == "f":
        return obj(a)
    return a.astype(object).view(SArr)


def to_float_arr(a):
    """values of an array as a float array (object elements)"""
    a = np.asarray(a)
    if isinstance(a, np.ndarray) and a.dtype == object or a.dtype != object:
        out = np.empty(a.shape, dtype=object)
        of = out.reshape(-1)
        for i, x in enumerate(a.reshape(-1)):
            of[i] = real_elem(x)
        return out.view(SArr)
    return a


def mk(shape, val):
    out = np.empty(shape, dtype=object)
    out.fill(val) if out.ndim or True else None
    return out.view(SArr)


def emap(f, *arrs):
    """elementwise python function over broadcast arrays"""
    bs = np.broadcast_arrays(*[_as_obj(a) for a in arrs])
    out = np.empty(bs[0].shape, dtype=object)
    if out.ndim == 0:
        return f(*[b.item() for b in bs])
    of = out.reshape(-1)
    fl = [b.reshape(-1) for b in bs]
    for i in range(of.size):
        of[i] = f(*[b[i] for b in fl])
    return out.view(SArr)


def _as_obj(a):
    if isinstance(a, np.ndarray):
        if isinstance(a, np.matrix):
            a = np.asarray(a)
        return np.ndarray.view(a, np.ndarray)
    if is_sym(a) or isinstance(a, F):
        out = np.empty((), dtype=object)
        out[()] = a
        return out
    if isinstance(a, (list, tuple)):
        return np.ndarray.view(arr_from(a), np.ndarray)
    return np.asarray(a)


def has_obj(x):
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if is_sym(x) or isinstance(x, F):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(has_obj(y) for y in x)
    return False


def arr_from(x, dtype=None, copy=True):
    """np.array with support for symbolic leaves"""
    if isinstance(x, np.ndarray):
        if is_float_dtype(dtype):
            if x.dtype == object and builtins.all(
                isinstance(e, (SymReal, float)) for e in x.reshape(-1)
            ):
                r = x.view(SArr) if not isinstance(x, np.matrix) else np.asarray(x).view(SArr)
                return r.copy() if copy else r
            return to_float_arr(x)
        if dtype is object:
            dtype = None
        r = obj(np.asarray(x) if isinstance(x, np.matrix) else x)
        if dtype is not None and r.dtype == object:
            r = cast(r, dtype)
            return r
        if dtype is not None:
            r = r.astype(dtype)
        return r.copy() if copy and r is x else (r.copy() if copy else r)
    if is_sym(x) or isinstance(x, F):
        out = np.empty((), dtype=object)
        out[()] = real_elem(x) if is_float_dtype(dtype) or isinstance(x, F) else x
        return out.view(SArr)
    if hasattr(x, "__array__") and not isinstance(x, (list, tuple)):
        return arr_from(np.asarray(x), dtype, copy)
    if isinstance(x, (range, types.GeneratorType)):
        x = list(x) if isinstance(x, range) else x
    if isinstance(x, (list, tuple)):
        if has_obj(x):
            shp = _shape(x)
            out = np.empty(shp, dtype=object)
            _fill(out, x, ())
            if is_float_dtype(dtype):
                return to_float_arr(out)
            if _any_real(out):
                out = to_float_arr(out)
            return out.view(SArr)
        x2 = _strip(x)
        if is_float_dtype(dtype):
            return to_float_arr(np.array(x2, dtype=float))
        if dtype is None:
            return obj(np.array(x2))
        return obj(np.array(x2, dtype=dtype))
    if is_float_dtype(dtype):
        return to_float_arr(np.array(x, dtype=float))
    return obj(np.array(x, dtype=dtype))


def _any_real(out):
    kinds = [isinstance(e, (SymReal, float)) for e in out.reshape(-1)]
    nums = [isinstance(e, (SymReal, SymInt, float, int, np.integer, F)) for e in out.reshape(-1)]
    return builtins.any(kinds) and builtins.all(nums)


def _strip(x):
    return x


def _shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return (0,)
        s = _shape(x[0])
        for y in x[1:]:
            if _shape(y) != s:
                raise ValueError(
                    "setting an array element with a sequence. The requested array has an inhomogeneous shape"
                )
        return (len(x),) + s
    return ()


def _fill(out, x, idx):
    if isinstance(x, np.ndarray):
        for i in np.ndindex(x.shape):
            out[idx + i] = x[i]
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            _fill(out, y, idx + (i,))
    else:
        out[idx] = x


def cast(r, dtype):
    """astype of an object array"""
    if dtype in (object, None, "object", "O"):
        return r.copy()
    if is_float_dtype(dtype):
        return to_float_arr(r)
    if is_bool_dtype(dtype):
        return emap(lambda e: SymBool.of(e), r)
    return np.array([int(e) for e in r.reshape(-1)], dtype=dtype).reshape(r.shape)


def _cmp(op):
    import operator

    f = getattr(operator, op)

    def g(a, b):
        r = f(a, b)
        if isinstance(r, (SymBool, bool, np.bool_)):
            return r
        return bool(r)

    return g


_UF = {}


def _uf(name, f):
    _UF[name] = f


for _n, _o in [
    ("less", "lt"), ("less_equal", "le"), ("greater", "gt"),
    ("greater_equal", "ge"), ("equal", "eq"), ("not_equal", "ne"),
]:
    _uf(_n, _cmp(_o))
_uf("true_divide", lambda a, b: sdiv(a, b))
_uf("divide", lambda a, b: sdiv(a, b))
_uf("power", lambda a, b: spow(a, b))
_uf("float_power", lambda a, b: spow(a, b))
_uf("sqrt", lambda a: core.rpow(a, F(1, 2)))
_uf("cbrt", lambda a: core.rpow(a, F(1, 3)))
_uf("square", lambda a: a * a)
_uf("log", core.flog)
_uf("log10", lambda a: core.flog(a) / core.flog(SymReal.const(10)))
_uf("log2", lambda a: core.flog(a) / core.flog(SymReal.const(2)))
_uf("log1p", lambda a: core.flog(lift(a) + 1))
_uf("exp", core.fexp)
_uf("sin", lambda a: core.ftrig("sin", a))
_uf("cos", lambda a: core.ftrig("cos", a))
_uf("reciprocal", lambda a: sdiv(1, a))
_uf("maximum", lambda a, b: _nanmm(a, b, False))
_uf("minimum", lambda a, b: _nanmm(a, b, True))
_uf("fmax", lambda a, b: b if _isnan(a) else (a if _isnan(b) else core.extremum([a, b], False)))
_uf("fmin", lambda a, b: b if _isnan(a) else (a if _isnan(b) else core.extremum([a, b], True)))
_uf("absolute", lambda a: sabs(a))
_uf("fabs", lambda a: sabs(a))
_uf("isnan", lambda a: _isnan(a))
_uf("isfinite", lambda a: not (isinstance(a, float) and not math.isfinite(a)))
_uf("isinf", lambda a: isinstance(a, float) and math.isinf(a))
_uf("logical_and", lambda a, b: SymBool.of(a) & SymBool.of(b))
_uf("logical_or", lambda a, b: SymBool.of(a) | SymBool.of(b))
_uf("logical_not", lambda a: ~SymBool.of(a))
_uf("logical_xor", lambda a, b: SymBool.of(a) ^ SymBool.of(b))
_uf("bitwise_and", lambda a, b: (SymBool.of(a) & SymBool.of(b)) if _b(a, b) else a & b)
_uf("bitwise_or", lambda a, b: (SymBool.of(a) | SymBool.of(b)) if _b(a, b) else a | b)
_uf("invert", lambda a: (~SymBool.of(a)) if _b(a, a) else ~a)
_uf("sign", lambda a: lift(a).sign())
_uf("floor", lambda a: lift(a).floor())
_uf("ceil", lambda a: lift(a).ceil())
_uf("rint", lambda a: round(lift(a)))
_uf("positive", lambda a: a)
_uf("floor_divide", lambda a, b: a // b)
_uf("heaviside", lambda a, b: ite(lift(a) > 0, ONE, ite(lift(a) < 0, ZERO, b)))


def _b(a, b):
    return isinstance(a, (SymBool, bool, np.bool_)) or isinstance(b, (SymBool, bool, np.bool_))


def _isnan(a):
    return isinstance(a, (float, np.floating)) and math.isnan(a)


def sabs(a):
    if isinstance(a, SymReal):
        s = core.poly_sign(a.t)
        if s in (1, 0, "z"):
            return a
        if s in (-1, -2):
            return -a
        return core.extremum([a, -a], False)
    return abs(a)


def _nanmm(a, b, low):
    if _isnan(a) or _isnan(b):
        return NAN
    return core.extremum([a, b], low)


def sdiv(a, b):
    """a / b keeping exactness"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if has_obj(a) or has_obj(b):
            return a / b
        if isinstance(a, np.matrix) or isinstance(b, np.matrix):
            return a / b
        if _numlike(a) and _numlike(b):
            return emap(sdiv, a, b)
        return a / b
    if isinstance(a, (bool, int, np.integer, float, np.floating, F)) and isinstance(
        b, (bool, int, np.integer, float, np.floating, F)
    ):
        if b == 0:
            if isinstance(a, np.generic) or isinstance(b, np.generic):
                return NAN if (a == 0 or _isnan(a)) else math.copysign(math.inf, a)
            raise ZeroDivisionError("division by zero")
        if core._special(a) or core._special(b):
            return float(a) / float(b)
        return SymReal.const(core.to_frac(a) / core.to_frac(b))
    return a / b


def _numlike(a):
    if isinstance(a, np.ndarray):
        return a.dtype.kind in "iufb"
    return isinstance(a, (int, float, np.number, F))


def spow(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if has_obj(a) or has_obj(b):
            return emap(spow, a, b)
        if _numlike(a) and _numlike(b):
            if (not isinstance(b, np.ndarray) and isinstance(b, (int, np.integer)) and b >= 0) or (
                isinstance(b, np.ndarray) and b.dtype.kind in "iu" and (b >= 0).all()
            ):
                if not (isinstance(a, np.ndarray) and a.dtype.kind == "f"):
                    return a**b
            return emap(spow, a, b)
        return a**b
    if isinstance(b, SymReal) and b.is_const and not isinstance(a, (SymReal, SymInt)):
        if isinstance(a, (int, np.integer)) and b.cval().denominator == 1:
            return SymReal.const(F(int(a)) ** int(b.cval()))
        return core.rpow(a, b)
    if isinstance(a, (SymReal,)) or isinstance(b, SymReal):
        return core.rpow(a, b)
    if isinstance(a, SymInt):
        return a**b if isinstance(b, int) else core.rpow(a, b)
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and not isinstance(a, bool):
        if b < 0:
            if a == 0:
                raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            return SymReal.const(F(int(a)) ** int(b))
        return a**b
    if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
        if core._special(a) or core._special(b):
            return a**b
        return core.rpow(a, b)
    return a**b


# --------------------------------------------------------------------------
class SArr(np.ndarray):
    """object ndarray of exact/symbolic numbers"""

    __array_priority__ = 100

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, where=True, dtype=None, casting=None, **kw):
        name = ufunc.__name__
        ins = [
            (np.asarray(x).view(np.ndarray) if isinstance(x, np.ndarray) else x) for x in inputs
        ]
        mat = builtins.any(isinstance(x, np.matrix) for x in inputs)
        if method == "__call__":
            f = _UF.get(name)
            if f is not None:
                res = emap(f, *ins)
            elif name == "matmul":
                res = matmul(*ins)
            else:
                objs = []
                for x in ins:
                    if isinstance(x, np.ndarray) and x.dtype.kind == "f":
                        x = obj(x).view(np.ndarray)
                    objs.append(x)
                if builtins.any(is_sym(x) for x in objs):
                    objs = [_as_obj(x) if is_sym(x) else x for x in objs]
                res = getattr(ufunc, method)(*objs, **kw)
            if where is not True:
                base = out[0] if out else mk(np.shape(res), ZERO)
                res = emap(lambda c, r, b: r if c else b, where, res, base)
            if out:
                o = out[0]
                o[...] = res
                return o
            if isinstance(res, np.ndarray):
                if mat:
                    return np.asmatrix(res.view(np.ndarray))
                return res.view(SArr) if res.dtype == object else res
            return res
        if method == "reduce":
            axis = kw.pop("axis", 0)
            keepdims = kw.pop("keepdims", False)
            init = kw.pop("initial", None)
            res = reduce(name, ins[0], axis, keepdims, init)
            if out:
                out[0][...] = res
                return out[0]
            return res
        if method == "accumulate":
            res = getattr(ufunc, method)(ins[0], **kw)
            if out:
                out[0][...] = res
                return out[0]
            return res.view(SArr)
        if method == "at":
            a, idx, *b = inputs
            np.ndarray.view(a, np.ndarray)
            f = _UF.get(name) or (lambda *z: getattr(ufunc, "__call__")(*z))
            idx_l = np.asarray(idx).reshape(-1)
            bb = np.broadcast_to(_as_obj(b[0]), idx_l.shape) if b else None
            for n_, i in enumerate(idx_l):
                a[i] = f(a[i], bb[n_]) if b else f(a[i])
            return None
        if method == "outer":
            a, b = [_as_obj(x) for x in ins]
            return self.__array_ufunc__(ufunc, "__call__", a.reshape(a.shape + (1,) * b.ndim).view(SArr), b)
        res = getattr(ufunc, method)(*ins, **kw)
        return res.view(SArr) if isinstance(res, np.ndarray) else res

    # in-place true division must not go through float casting
    def __itruediv__(self, o):
        self[...] = self / o
        return self

    def __ipow__(self, o):
        self[...] = spow(self, o)
        return self

    def __pow__(self, o):
        return spow(self, o)

    def __rpow__(self, o):
        return spow(o, self)

    def __getitem__(self, i):
        i = _index(i)
        r = np.ndarray.__getitem__(self, i)
        if isinstance(r, np.ndarray) and not isinstance(r, SArr) and r.dtype == object:
            r = r.view(SArr)
        return r

    def __setitem__(self, i, v):
        if isinstance(i, np.ndarray) and i.dtype == object:
            return set_mask(self, i, v)
        i = _index(i)
        if isinstance(v, (list, tuple)) and has_obj(v):
            v = arr_from(v)
        if isinstance(v, np.matrix):
            v = np.asarray(v)
        if isinstance(v, np.ndarray):
            if v.dtype.kind in "iuf" or (v.dtype == object):
                v = to_float_arr(v) if _holds_real(self) else v
        elif is_sym(v) or isinstance(v, F):
            if isinstance(v, F):
                v = SymReal.const(v)
            if isinstance(v, SymInt) and _holds_real(self):
                v = v.to_real()
        elif isinstance(v, (int, float, np.number)) and not isinstance(v, bool):
            v = exact(v) if not isinstance(v, (int, np.integer)) else (
                SymReal.const(v) if _holds_real(self) else v
            )
        elif isinstance(v, (list, tuple)):
            v = arr_from(v)
            if _holds_real(self):
                v = to_float_arr(v)
        elif v is None and _holds_real(self):
            v = NAN
        elif isinstance(v, str) and _holds_real(self):
            raise ValueError("could not convert string to float: %r" % v)
        np.ndarray.__setitem__(self, i, v)

    # reductions as methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce("add", self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce("multiply", self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce("minimum", self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce("maximum", self, axis, keepdims)

    def ptp(self, axis=None, out=None, keepdims=False):
        return self.max(axis, keepdims=keepdims) - self.min(axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce("logical_or", self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce("logical_and", self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else self.shape[axis]
        return reduce("add", self, axis, keepdims) / n

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        n = self.size if axis is None else self.shape[axis]
        m = self.mean(axis, keepdims=True)
        d = self - m
        return reduce("add", d * d, axis, keepdims) / (n - ddof)

    def std(self, *a, **k):
        v = self.var(*a, **k)
        return v ** F(1, 2) if isinstance(v, SymReal) else emap(lambda e: core.rpow(e, F(1, 2)), v)

    def cumsum(self, axis=None, dtype=None, out=None):
        r = np.ndarray.cumsum(self.view(np.ndarray), axis)
        return r.view(SArr)

    def cumprod(self, axis=None, dtype=None, out=None):
        return np.ndarray.cumprod(self.view(np.ndarray), axis).view(SArr)

    def dot(self, b, out=None):
        return matmul(self, b)

    def __matmul__(self, b):
        return matmul(self, b)

    def __rmatmul__(self, b):
        return matmul(b, self)

    def argmin(self, axis=None, out=None, **k):
        return _arg(self, axis, True)

    def argmax(self, axis=None, out=None, **k):
        return _arg(self, axis, False)

    def astype(self, dtype, *a, **k):
        return cast(self, dtype)

    def round(self, decimals=0, out=None):
        return emap(lambda e: round(lift(e), decimals), self)

    def clip(self, min=None, max=None, out=None, **k):
        return clip(self, min, max)

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def sort(self, axis=-1, **k):
        s = sort(self, axis)
        self[...] = s

    def nonzero(self):
        return nonzero(self)

    def repeat(self, n, axis=None):
        return np.repeat(self.view(np.ndarray), n, axis).view(SArr)

    def flatten(self, order="C"):
        return np.ndarray.flatten(self.view(np.ndarray), order).view(SArr)

    def tolist(self):
        return np.ndarray.tolist(self.view(np.ndarray))

    def __contains__(self, x):
        return bool(reduce("logical_or", emap(_UF["equal"], self, x).reshape(-1), None))

    def __bool__(self):
        if self.size != 1:
            raise ValueError(
                "The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()"
            )
        return bool(self.reshape(-1)[0])

    def __array_function__(self, func, types_, args, kwargs):
        over = FUNCS.get(func.__name__)
        if over is not None:
            return over(*args, **kwargs)
        args = _unwrap(args)
        kwargs = {k: _unwrap(v) for k, v in kwargs.items()}
        if "dtype" in kwargs and is_float_dtype(kwargs["dtype"]):
            kwargs["dtype"] = object
        r = func(*args, **kwargs)
        return _wrap(r)


def _holds_real(a):
    """object array used as a float array (not booleans / ids)"""
    if a.size == 0:
        return True
    x = a.reshape(-1)[0] if a.flags.c_contiguous else a.flat[0]
    return isinstance(x, (SymReal, float))


def _index(i):
    if isinstance(i, SymInt):
        return i.realize()
    if isinstance(i, tuple):
        return tuple(_index(x) for x in i)
    if isinstance(i, list) and builtins.any(isinstance(x, (SymInt, SymBool)) for x in i):
        if builtins.any(isinstance(x, SymBool) for x in i):
            return [bool(x) for x in i]
        return [x.realize() if isinstance(x, SymInt) else x for x in i]
    if isinstance(i, np.ndarray) and i.dtype == object:
        fl = list(i.reshape(-1))
        if builtins.any(isinstance(x, (SymBool, bool, np.bool_)) for x in fl):
            return np.array([bool(x) for x in fl], dtype=bool).reshape(i.shape)
        if builtins.any(isinstance(x, (SymReal, float)) for x in fl):
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        return np.array([int(x) for x in fl], dtype=int).reshape(i.shape)
    return i


def set_mask(a, m, v):
    fl = list(m.reshape(-1))
    if not builtins.any(isinstance(x, SymBool) for x in fl):
        np.ndarray.__setitem__(a, _index(m), v)
        return
    if m.shape != a.shape:
        np.ndarray.__setitem__(a, _index(m), v)
        return
    if isinstance(v, np.ndarray) and v.ndim:
        # length depends on the mask
        mm = _index(m)
        np.ndarray.__setitem__(a, mm, v)
        return
    v = exact(v) if not isinstance(v, (int, np.integer)) else SymReal.const(v)
    out = emap(lambda c, o: ite(c, v, o), m, a)
    np.ndarray.__setitem__(a, ..., out)


def _unwrap(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        t = [_unwrap(y) for y in x]
        return t if isinstance(x, list) else (type(x)(*t) if hasattr(x, "_fields") else tuple(t))
    return x


def _wrap(r):
    if isinstance(r, np.ndarray):
        if isinstance(r, np.matrix):
            return r
        return obj(r)
    if isinstance(r, tuple):
        return tuple(_wrap(x) for x in r)
    if isinstance(r, list):
        return [_wrap(x) for x in r]
    if isinstance(r, np.floating):
        return exact(r)
    return r


def reduce(name, a, axis=None, keepdims=False, init=None):
    a = np.asarray(a).view(np.ndarray)
    if isinstance(axis, tuple):
        axis = tuple(x % a.ndim for x in axis)
        if len(axis) == a.ndim:
            axis = None
        else:
            rest = [i for i in range(a.ndim) if i not in axis]
            b = np.transpose(a, rest + list(axis)).reshape([a.shape[i] for i in rest] + [-1])
            r = reduce(name, b, -1)
            if keepdims:
                r = r.reshape([1 if i in axis else s for i, s in enumerate(a.shape)])
            return r
    if axis is None:
        r = _red1(name, list(a.reshape(-1)), init)
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return o.view(SArr)
        return r
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    if out.ndim == 0:
        r = _red1(name, list(b), init)
        if keepdims:
            o = np.empty((1,), dtype=object)
            o[0] = r
            return o.view(SArr)
        return r
    for i in np.ndindex(out.shape):
        out[i] = _red1(name, list(b[i]), init)
    if keepdims:
        out = np.expand_dims(out, axis)
    return out.view(SArr)


def _red1(name, xs, init=None):
    if init is not None and not isinstance(init, np._globals._NoValueType):
        xs = [init] + xs
    if name == "add":
        s = ZERO
        for x in xs:
            s = (s + x) if s is not ZERO else (lift(x) if not isinstance(x, (int, np.integer, SymBool, SymInt)) else x)
        return s
    if name == "multiply":
        s = 1
        for x in xs:
            s = x * s
        return s
    if name in ("minimum", "maximum", "fmin", "fmax"):
        if not xs:
            raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
        if name[0] == "f":
            xs = [x for x in xs if not _isnan(x)] or xs
        if builtins.all(isinstance(x, (int, np.integer)) for x in xs):
            return min(xs) if "min" in name else max(xs)
        if builtins.any(isinstance(x, SymInt) for x in xs) and builtins.all(
            isinstance(x, (int, np.integer, SymInt)) for x in xs
        ):
            return builtins.min(xs) if "min" in name else builtins.max(xs)
        return core.extremum(xs, "min" in name)
    if name in ("logical_or", "bitwise_or"):
        return SymBool(core.nor([SymBool.of(x).n for x in xs])) if xs else core.FALSE
    if name in ("logical_and", "bitwise_and"):
        return SymBool(core.nand([SymBool.of(x).n for x in xs])) if xs else core.TRUE
    raise core.Unsupported("reduction " + name)


def matmul(a, b):
    if hasattr(b, "_sp_dense"):
        b = b._sp_dense()
    if hasattr(a, "_sp_dense"):
        a = a._sp_dense()
    a, b = _as_obj(a), _as_obj(b)
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a.reshape(1, -1)
    if b1:
        b = b.reshape(-1, 1)
    if a.ndim != 2 or b.ndim != 2:
        ctx().die(core.Unsupported("matmul of higher rank"))
    if a.shape[1] != b.shape[0]:
        raise ValueError("matmul: dimension mismatch")
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            s = ZERO
            for k in range(a.shape[1]):
                s = s + a[i, k] * b[k, j]
            out[i, j] = s
    if a1 and b1:
        return out[0, 0]
    if a1:
        out = out[0]
    elif b1:
        out = out[:, 0]
    return out.view(SArr)


def _arg(a, axis, low):
    a = np.asarray(a).view(np.ndarray)
    if axis is None:
        a = a.reshape(-1)
        best = 0
        for i in range(1, a.size):
            if bool(a[i] < a[best]) if low else bool(a[i] > a[best]):
                best = i
        return best
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=int)
    for i in np.ndindex(out.shape):
        out[i] = _arg(b[i], None, low)
    return out


def sort(a, axis=-1, **k):
    a = arr_from(a)
    if a.dtype != object:
        return np.sort(a, axis)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    b = np.moveaxis(a.view(np.ndarray), axis, -1).copy()
    for i in np.ndindex(b.shape[:-1]):
        v = builtins.sorted(list(b[i]))
        for j, x in enumerate(v):
            b[i + (j,)] = x
    return np.moveaxis(b, -1, axis).view(SArr)


def clip(a, a_min=None, a_max=None, out=None, **k):
    lo = k.get("min", a_min)
    hi = k.get("max", a_max)

    def f(e):
        if _isnan(e):
            return e
        if lo is not None:
            e = core.extremum([e, lo], False)
        if hi is not None:
            e = core.extremum([e, hi], True)
        return e

    r = emap(f, arr_from(a) if not is_sym(a) else a)
    if out is not None:
        out[...] = r
        return out
    return r


def nonzero(a):
    a = arr_from(a)
    if a.dtype != object:
        return np.nonzero(a)
    return np.nonzero(_index(emap(lambda e: SymBool.of(e), a)))


# --------------------------------------------------------------------------
FUNCS = {}


def override(*names):
    def d(f):
        for n in names:
            FUNCS[n] = f
        return f

    return d


def _shp(s):
    if isinstance(s, SymInt):
        return s.realize()
    if isinstance(s, (tuple, list)):
        return tuple(_shp(x) for x in s)
    if isinstance(s, SymReal):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return s


def _default(dtype):
    return dtype is None or is_float_dtype(dtype)


@override("zeros")
def zeros(shape, dtype=None, order="C", **k):
    shape = _shp(shape)
    if _default(dtype):
        return mk(shape, ZERO)
    return np.zeros(shape, dtype)


@override("ones")
def ones(shape, dtype=None, order="C", **k):
    shape = _shp(shape)
    if _default(dtype):
        return mk(shape, ONE)
    return np.ones(shape, dtype)


@override("empty")
def empty(shape, dtype=None, order="C", **k):
    shape = _shp(shape)
    if _default(dtype):
        return mk(shape, NAN)  # uninitialised: reading it is visible as nan
    if dtype is object:
        return np.empty(shape, object).view(SArr)
    return np.zeros(shape, dtype)


@override("full")
def full(shape, fill_value, dtype=None, **k):
    shape = _shp(shape)
    if dtype is None and isinstance(fill_value, (bool, int, np.integer, str)):
        return np.full(shape, fill_value)
    if dtype is not None and not is_float_dtype(dtype):
        return np.full(shape, fill_value, dtype)
    if isinstance(fill_value, (np.ndarray, list, tuple)):
        out = mk(shape, ZERO)
        out[...] = fill_value
        return out
    return mk(shape, real_elem(fill_value))


def _like_float(a, dtype):
    if dtype is not None:
        return is_float_dtype(dtype)
    a = np.asarray(a)
    return a.dtype == object or a.dtype.kind == "f"


@override("zeros_like")
def zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    shape = np.shape(a) if shape is None else shape
    return mk(shape, ZERO) if _like_float(a, dtype) else np.zeros(shape, dtype or np.asarray(a).dtype)


@override("ones_like")
def ones_like(a, dtype=None, order="K", subok=True, shape=None):
    shape = np.shape(a) if shape is None else shape
    return mk(shape, ONE) if _like_float(a, dtype) else np.ones(shape, dtype or np.asarray(a).dtype)


@override("empty_like")
def empty_like(a, dtype=None, order="K", subok=True, shape=None):
    shape = np.shape(a) if shape is None else shape
    return mk(shape, NAN) if _like_float(a, dtype) else np.zeros(shape, dtype or np.asarray(a).dtype)


@override("full_like")
def full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    shape = np.shape(a) if shape is None else shape
    return full(shape, fill_value, dtype or ("double" if _like_float(a, None) else np.asarray(a).dtype))


@override("eye", "identity")
def eye(N, M=None, k=0, dtype=None, **kw):
    e = np.eye(N, M, k, dtype=int)
    if _default(dtype):
        return to_float_arr(e)
    return e.astype(dtype)


@override("array")
def array(x, dtype=None, copy=True, ndmin=0, **k):
    r = arr_from(x, dtype, True)
    while r.ndim < ndmin:
        r = r[np.newaxis]
    return r


@override("asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "asarray_chkfinite")
def asarray(x, dtype=None, order=None, **k):
    return arr_from(x, dtype, False)


_OVER = {}


def fp_overshoot(n):
    """a step x for which the double n*x/x exceeds n, from z3's theory of floating
    point numbers (None if there is none)"""
    if n & (n - 1) == 0:  # the product is exact
        return None
    if n not in _OVER:
        z3 = core.z3
        D = z3.Float64()
        x, N, rm = z3.FP("x", D), z3.FPVal(n, D), z3.RNE()
        sv = z3.Solver()
        sv.set("timeout", 60000)
        sv.add(z3.fpGT(z3.fpDiv(rm, z3.fpMul(rm, N, x), x), N))
        sv.add(z3.fpGEQ(x, z3.FPVal(0.05, D)), z3.fpLEQ(x, z3.FPVal(20, D)))
        r = sv.check()
        if r == z3.unknown:
            ctx().die(core.Inconclusive("length of arange in floating point"))
        _OVER[n] = None if r == z3.unsat else F(*(float(eval(str(sv.model()[x]), {})).as_integer_ratio()))
    return _OVER[n]


@override("arange")
def arange(*a, dtype=None, **k):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a[:3]
    start = k.get("start", start)
    stop = k.get("stop", stop)
    step = k.get("step", step)
    vals = [start, stop, step]
    if builtins.all(isinstance(v, (int, np.integer)) for v in vals):
        r = np.arange(start, stop, step)
        return to_float_arr(r) if is_float_dtype(dtype) else (r if dtype is None else r.astype(dtype))
    if builtins.any(isinstance(v, SymInt) for v in vals) and builtins.all(
        isinstance(v, (int, np.integer, SymInt)) for v in vals
    ):
        vals = [v.realize() if isinstance(v, SymInt) else v for v in vals]
        return np.arange(*vals)
    s, e, d = [lift(v) for v in vals]
    n = (e - s) / d
    if n.is_const:
        cnt = max(0, math.ceil(n.cval()))
    else:
        cnt = 0
        while bool(n > cnt):
            cnt += 1
            if cnt > 64:
                ctx().die(core.Inconclusive("arange length"))
    if cnt > 1 and isinstance(s, SymReal) and s.is_const and s.cval() == 0 and bool(n == cnt):
        # stop is cnt * step: rounded as doubles, the ratio may exceed cnt
        if d.is_const:
            cnt += math.ceil((cnt * float(d)) / float(d)) > cnt
        else:
            w = fp_overshoot(cnt)
            if w is not None and bool(d == w):
                cnt += 1
    out = np.empty(cnt, dtype=object)
    for i in range(cnt):
        out[i] = s + d * i
    return out.view(SArr)


@override("linspace")
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    s, e = lift(start), lift(stop)
    num = int(num)
    div = num - 1 if endpoint else num
    out = np.empty(num, dtype=object)
    step = (e - s) / div if div > 0 else NAN
    for i in range(num):
        out[i] = s + (e - s) * F(i, div) if div > 0 else s
    out = out.view(SArr)
    return (out, step) if retstep else out


def _via(name):
    real = getattr(np, name)

    def f(*a, **k):
        k.pop("dtype", None) if is_float_dtype(k.get("dtype")) else None
        return _wrap(real(*[_unwrap(_prep(x)) for x in a], **{n: _unwrap(_prep(v)) for n, v in k.items()}))

    return f


def _prep(x):
    if isinstance(x, (list, tuple)) and has_obj(x) and not builtins.any(
        isinstance(y, np.ndarray) for y in x
    ):
        return arr_from(x)
    if isinstance(x, SymInt):
        return x
    return x


@override("vstack")
def vstack(tup, **k):
    return _wrap(np.vstack([_unwrap(arr_from(x)) for x in tup]))


@override("hstack")
def hstack(tup, **k):
    return _wrap(np.hstack([_unwrap(arr_from(x)) for x in tup]))


@override("column_stack")
def column_stack(tup):
    return _wrap(np.column_stack([_unwrap(arr_from(x)) for x in tup]))


@override("dstack")
def dstack(tup):
    return _wrap(np.dstack([_unwrap(arr_from(x)) for x in tup]))


@override("concatenate", "concat")
def concatenate(tup, axis=0, out=None, dtype=None, **k):
    return _wrap(np.concatenate([_unwrap(arr_from(x)) for x in tup], axis=axis))


@override("stack")
def stack(tup, axis=0, **k):
    return _wrap(np.stack([_unwrap(arr_from(x)) for x in tup], axis=axis))


@override("append")
def append(a, v, axis=None):
    a, v = arr_from(a), arr_from(v)
    if axis is None:
        a, v = a.reshape(-1), v.reshape(-1)
        axis = 0
    return concatenate([a, v], axis)


@override("insert")
def insert(a, i, v, axis=None):
    a = arr_from(a)
    if a.dtype == object:
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        if isinstance(v, (int, np.integer)):
            v = SymReal.const(v)
        if is_sym(v):
            w = np.empty((), dtype=object)
            w[()] = v
            v = w
        elif isinstance(v, (list, tuple, np.ndarray)):
            v = _unwrap(to_float_arr(arr_from(v)))
        return _wrap(np.insert(a.view(np.ndarray), i, v, axis))
    if has_obj(v) or isinstance(v, (float, np.floating)):
        return insert(to_float_arr(a), i, v, axis)
    return np.insert(a, i, v, axis)


@override("full_diag_dummy")
def _none():
    pass


@override("diag")
def diag(v, k=0):
    v = arr_from(v)
    if v.dtype == object and v.ndim == 1:
        n = len(v) + abs(k)
        out = mk((n, n), ZERO)
        for i in range(len(v)):
            out[(i + max(0, -k)), (i + max(0, k))] = v[i]
        return out
    return _wrap(np.diag(_unwrap(v), k))


@override("fill_diagonal")
def fill_diagonal(a, val, wrap=False):
    v = arr_from(val) if isinstance(val, (list, tuple, np.ndarray)) else val
    for i in range(min(a.shape)):
        a[i, i] = v[i % len(v)] if isinstance(v, np.ndarray) and v.ndim else v


@override("isnan")
def isnan(x, **k):
    if isinstance(x, SymReal) or isinstance(x, SymInt):
        return False
    if isinstance(x, (np.ndarray, list, tuple)):
        x = arr_from(x)
        if x.dtype == object:
            return np.array([_isnan(e) for e in x.reshape(-1)], dtype=bool).reshape(x.shape)
    return np.isnan(x)


@override("isfinite")
def isfinite(x, **k):
    if is_sym(x):
        return True
    x = arr_from(x) if not isinstance(x, (float, int)) else x
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array(
            [not (isinstance(e, float) and not math.isfinite(e)) for e in x.reshape(-1)], dtype=bool
        ).reshape(x.shape)
    return np.isfinite(x)


@override("isinf")
def isinf(x, **k):
    if is_sym(x):
        return False
    x = arr_from(x) if not isinstance(x, (float, int)) else x
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array([isinstance(e, float) and math.isinf(e) for e in x.reshape(-1)], dtype=bool).reshape(x.shape)
    return np.isinf(x)


@override("nan_to_num")
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    z = real_elem(nan)
    if is_sym(x):
        return x
    if isinstance(x, np.ndarray) and x.dtype == object or has_obj(x):
        a = arr_from(x)
        r = emap(lambda e: z if _isnan(e) else e, a)
        if not copy:
            x[...] = r
            return x
        return r
    return _wrap(np.nan_to_num(x, copy, nan, posinf, neginf))


def _red_func(name):
    def f(a, axis=None, *args, keepdims=False, where=None, initial=None, out=None, dtype=None, **k):
        if isinstance(a, types.GeneratorType):
            a = list(a)
        if not has_obj(a):
            if is_sym(a):
                return a
            fn = {"add": "sum", "multiply": "prod", "minimum": "min", "maximum": "max",
                  "logical_or": "any", "logical_and": "all"}[name]
            a2 = np.asarray(a)
            if a2.dtype.kind == "f":
                return reduce(name, obj(a2), axis, keepdims)
            return getattr(np, fn)(a, axis=axis, keepdims=keepdims)
        if isinstance(a, (SymReal, SymInt, SymBool)):
            if name in ("logical_or", "logical_and"):
                return SymBool.of(a)
            return a
        if isinstance(a, np.matrix):
            r = reduce(name, np.asarray(a), axis, keepdims=axis is not None)
            return np.asmatrix(r.view(np.ndarray)) if isinstance(r, np.ndarray) else r
        return reduce(name, arr_from(a), axis, keepdims)

    return f


FUNCS["sum"] = _red_func("add")
FUNCS["prod"] = FUNCS["product"] = _red_func("multiply")
FUNCS["min"] = FUNCS["amin"] = _red_func("minimum")
FUNCS["max"] = FUNCS["amax"] = _red_func("maximum")
FUNCS["any"] = _red_func("logical_or")
FUNCS["all"] = _red_func("logical_and")


@override("nansum")
def nansum(a, axis=None, **k):
    return FUNCS["sum"](nan_to_num(arr_from(a)), axis)


@override("nanmin")
def nanmin(a, axis=None, **k):
    return reduce("fmin", arr_from(a), axis)


@override("nanmax")
def nanmax(a, axis=None, **k):
    return reduce("fmax", arr_from(a), axis)


@override("nanmean")
def nanmean(a, axis=None, **k):
    a = arr_from(a)
    if axis is not None:
        raise Unsupported("nanmean with axis")
    v = [x for x in a.reshape(-1) if not (isinstance(x, float) and x != x)]
    return sum(v, core.ZERO) / len(v) if v else math.nan


@override("mean", "average")
def mean(a, axis=None, *args, keepdims=False, **k):
    if "weights" in k and k["weights"] is not None:
        w = arr_from(k["weights"])
        a = arr_from(a)
        return FUNCS["sum"](a * w, axis) / FUNCS["sum"](w, axis)
    a = to_float_arr(arr_from(a))
    return a.mean(axis, keepdims=keepdims)


@override("median")
def median(a, axis=None, **k):
    a = sort(to_float_arr(arr_from(a)).reshape(-1))
    n = len(a)
    return a[n // 2] if n % 2 else (a[n // 2 - 1] + a[n // 2]) / 2


@override("std")
def std(a, axis=None, **k):
    return to_float_arr(arr_from(a)).std(axis)


@override("var")
def var(a, axis=None, **k):
    return to_float_arr(arr_from(a)).var(axis)


@override("ptp")
def ptp(a, axis=None, **k):
    return to_float_arr(arr_from(a)).ptp(axis)


@override("where")
def where(c, *xy):
    if not xy:
        return nonzero(c)
    x, y = xy
    if not (has_obj(c) or has_obj(x) or has_obj(y)):
        return _wrap(np.where(c, x, y))
    if isinstance(c, (SymBool, bool)) and not isinstance(x, np.ndarray) and not isinstance(y, np.ndarray):
        return ite(c, x, y)
    return emap(lambda cc, a, b: ite(cc, a, b), c, x, y)


@override("select")
def select(conds, choices, default=0):
    out = default
    for c, v in zip(reversed(list(conds)), reversed(list(choices))):
        out = where(c, v, out)
    return out


@override("argmin")
def argmin(a, axis=None, **k):
    return _arg(arr_from(a), axis, True) if has_obj(a) else np.argmin(a, axis)


@override("argmax")
def argmax(a, axis=None, **k):
    return _arg(arr_from(a), axis, False) if has_obj(a) else np.argmax(a, axis)


@override("argsort")
def argsort(a, axis=-1, **k):
    a = arr_from(a)
    if a.dtype != object:
        return np.argsort(a, axis, **k)
    return np.array(sorted(range(len(a)), key=lambda i: _Key(a[i])))


class _Key:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


FUNCS["sort"] = sort
FUNCS["clip"] = clip
FUNCS["nonzero"] = nonzero


@override("argwhere")
def argwhere(a):
    return np.transpose(np.array(nonzero(a)))


@override("flatnonzero")
def flatnonzero(a):
    return nonzero(arr_from(a).reshape(-1))[0]


@override("count_nonzero")
def count_nonzero(a, axis=None, **k):
    return len(nonzero(a)[0])


@override("dot", "matmul")
def dot(a, b, out=None, **k):
    if has_obj(a) or has_obj(b) or hasattr(a, "_sp_dense") or hasattr(b, "_sp_dense"):
        if not isinstance(a, (np.ndarray, list, tuple)) and not hasattr(a, "_sp_dense"):
            return a * b
        return matmul(a, b)
    return _wrap(np.dot(a, b))


@override("inner")
def inner(a, b):
    return matmul(a, b)


@override("vdot")
def vdot(a, b):
    return matmul(arr_from(a).reshape(-1), arr_from(b).reshape(-1))


@override("outer")
def outer(a, b, out=None):
    a, b = arr_from(a).reshape(-1), arr_from(b).reshape(-1)
    return a.reshape(-1, 1) * b.reshape(1, -1)


@override("cumsum")
def cumsum(a, axis=None, **k):
    a = arr_from(a)
    return a.cumsum(axis)


@override("diff")
def diff(a, n=1, axis=-1, **k):
    a = arr_from(a)
    for _ in range(n):
        a = np.moveaxis(a, axis, -1)
        a = np.moveaxis(a[..., 1:] - a[..., :-1], -1, axis)
    return a


@override("allclose")
def allclose(a, b, *x, **k):
    if not (has_obj(a) or has_obj(b)):
        return np.allclose(a, b, *x, **k)
    return _red1("logical_and", list(np.ravel(_as_obj(isclose(a, b, *x, **k)))))


def _within(x, y, t):
    """|x - y| <= t"""
    return SymBool.of(x - y <= t) & SymBool.of(y - x <= t)


def _absle(x, y, rel, tol):
    """|x - y| <= tol + rel*|y|"""
    if rel == 0:
        return _within(x, y, tol)
    return (SymBool.of(y >= 0) & _within(x, y, tol + rel * y)) | (SymBool.of(y < 0) & _within(x, y, tol - rel * y))


def _finite(*vs):
    return not any(isinstance(v, (float, np.floating)) and not np.isfinite(v) for v in vs)


@override("isclose")
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not (has_obj(a) or has_obj(b)):
        return np.isclose(a, b, rtol, atol, equal_nan)
    rtol, atol = core.lift(rtol), core.lift(atol)

    def one(x, y):
        if not _finite(x, y):
            both = all(isinstance(v, (float, np.floating)) for v in (x, y))
            return bool(both and np.isclose(x, y, equal_nan=equal_nan))
        return _absle(x, y, rtol, atol)

    return emap(one, a, b)


def misclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    """math.isclose"""
    if not _finite(a, b):
        return bool(a == b)
    r, t = core.lift(rel_tol), core.lift(abs_tol)
    return _absle(a, b, r, 0) | _absle(b, a, r, 0) | _within(a, b, t)


@override("array_equal")
def array_equal(a, b, equal_nan=False):
    a, b = arr_from(a), arr_from(b)
    if a.shape != b.shape:
        return False
    return _red1("logical_and", list(np.ravel(_as_obj(emap(_UF["equal"], a, b)))))


@override("unique")
def unique(a, **k):
    a = arr_from(a)
    if a.dtype != object:
        return np.unique(a, **k)
    out = []
    for x in builtins.sorted(list(a.reshape(-1))):
        if not out or not bool(out[-1] == x):
            out.append(x)
    return arr_from(out)


@override("isin", "in1d")
def isin(a, b, **k):
    if not (has_obj(a) or has_obj(b)):
        return np.isin(a, b, **k)
    bl = list(np.ravel(_as_obj(b)))
    inv = k.get("invert", False)

    def f(x):
        r = _red1("logical_or", [_UF["equal"](x, y) for y in bl])
        return ~r if inv else r

    return emap(f, a)


@override("interp")
def interp(*a, **k):
    ctx().die(core.Unsupported("np.interp"))


@override("round", "around")
def np_round(a, decimals=0, out=None):
    if isinstance(a, SymReal):
        return round(a, decimals)
    a = arr_from(a)
    return a.round(decimals)


@override("shape")
def shape(a):
    if is_sym(a):
        return ()
    return a.shape if isinstance(a, np.ndarray) else np.asarray(a, dtype=object).shape


@override("isscalar")
def isscalar(x):
    return is_sym(x) or np.isscalar(x)


@override("copy")
def copy(a, **k):
    return arr_from(a)


@override("meshgrid")
def meshgrid(*xs, copy=True, sparse=False, indexing="xy"):
    r = np.meshgrid(*[_unwrap(arr_from(x)) for x in xs], copy=copy, sparse=sparse, indexing=indexing)
    return [_wrap(x) for x in r]


@override("tile")
def tile(a, reps):
    return _wrap(np.tile(_unwrap(arr_from(a)), _shp(reps) if not isinstance(reps, np.ndarray) else reps))


@override("repeat")
def repeat(a, n, axis=None):
    return _wrap(np.repeat(_unwrap(arr_from(a)), _shp(n) if not isinstance(n, np.ndarray) else n, axis))


@override("vectorize")
class vectorize:
    def __init__(self, f, **k):
        self.f = f

    def __call__(self, *a):
        return emap(self.f, *a)


@override("apply_along_axis")
def apply_along_axis(f, axis, a, *x, **k):
    a = arr_from(a)
    b = np.moveaxis(a, axis, -1)
    rows = [f(b[i], *x, **k) for i in np.ndindex(b.shape[:-1])]
    r = arr_from(rows)
    return r.reshape(b.shape[:-1] + r.shape[1:])


@override("fromiter")
def fromiter(it, dtype=None, count=-1, **k):
    return arr_from(list(it), dtype)


@override("savetxt", "save")
def _nosave(*a, **k):
    return None


def _ufunc_wrapper(name, real):
    def f(*a, **k):
        k.pop("dtype", None)
        if builtins.any(isinstance(x, SArr) for x in a):
            return real(*a, **k)
        if builtins.any(has_obj(x) for x in a):
            g = _UF.get(name)
            if g is None:
                if builtins.all(not isinstance(x, (np.ndarray, list, tuple)) for x in a):
                    return _PYOP[name](*a) if name in _PYOP else getattr(a[0], name)(*a[1:])
                return real(*[arr_from(x) if isinstance(x, (list, tuple, np.ndarray)) else x for x in a], **k)
            out = k.pop("out", None)
            r = emap(g, *a)
            if out is not None:
                out = out[0] if isinstance(out, tuple) else out
                out[...] = r
                return out
            return r
        g = _UF.get(name)
        if g is not None and name in ("sqrt", "log", "exp", "sin", "cos", "true_divide", "divide", "power", "cbrt",
                                      "log10", "log2", "log1p", "reciprocal"):
            if builtins.all(_numlike(x) or isinstance(x, (list, tuple)) for x in a):
                return emap(g, *[exact(x) if not isinstance(x, (list, tuple, np.ndarray)) else arr_from(x) for x in a])
        return _wrap(real(*a, **k))

    f.reduce = lambda x, axis=0, **k: reduce(name, arr_from(x), axis, **k) if has_obj(x) else real.reduce(x, axis, **k)
    f.at = real.at
    f.accumulate = real.accumulate
    f.outer = real.outer
    f.__name__ = name
    return f


import operator as _op

_PYOP = {
    "add": _op.add, "subtract": _op.sub, "multiply": _op.mul, "negative": _op.neg,
    "remainder": _op.mod, "mod": _op.mod,
}


class _R_:
    def __init__(self, real):
        self.real = real

    def __getitem__(self, k):
        items = k if isinstance(k, tuple) else (k,)
        if not builtins.any(has_obj(x) for x in items):
            return _wrap(self.real[k])
        parts = [arr_from(x).reshape(-1) if not is_sym(x) else arr_from([x]) for x in items]
        return concatenate(parts)


class LinAlg(types.ModuleType):
    LinAlgError = np.linalg.LinAlgError

    def __init__(self):
        super().__init__("numpy.linalg")

    @staticmethod
    def solve(A, b):
        return dense_solve(A, b)

    @staticmethod
    def inv(A):
        A = to_float_arr(arr_from(A))
        n = len(A)
        cols = [dense_solve(A, to_float_arr(np.eye(n, dtype=int)[:, i])) for i in range(n)]
        return stack(cols, 1)

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        x = to_float_arr(arr_from(x))
        if ord in (None, 2) and (x.ndim == 1 or ord is None):
            return core.rpow(FUNCS["sum"](x * x), F(1, 2))
        if ord == np.inf:
            return FUNCS["max"](emap(sabs, x))
        if ord == 1:
            return FUNCS["sum"](emap(sabs, x))
        ctx().die(core.Unsupported("norm"))

    @staticmethod
    def det(A):
        A = to_float_arr(arr_from(A))
        n = len(A)
        if n == 1:
            return A[0, 0]
        s = ZERO
        for j in range(n):
            if isinstance(A[0, j], SymReal) and not A[0, j].t:
                continue
            M = FUNCS["concatenate"]([A[1:, :j], A[1:, j + 1:]], 1)
            s = s + A[0, j] * LinAlg.det(M) * (-1) ** j
        return s

    def __getattr__(self, n):
        def f(*a, **k):
            ctx().die(core.Unsupported("np.linalg." + n))

        if n.startswith("__"):
            raise AttributeError(n)
        return f


def dense_solve(A, b):
    if hasattr(A, "_sp_dense"):
        A = A._sp_dense()
    if hasattr(b, "_sp_dense"):
        b = b._sp_dense()
    A, b = to_float_arr(arr_from(A)), to_float_arr(arr_from(b))
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise ValueError("expected square matrix")
    if A.shape[0] != b.shape[0]:
        raise ValueError("incompatible dimensions")
    if b.ndim == 2 and b.shape[1] != 1:
        return stack([dense_solve(A, b[:, i]) for i in range(b.shape[1])], 1)
    x = core.linear_solve([list(r) for r in A], list(b.reshape(-1)))
    if x is None:
        raise np.linalg.LinAlgError("Matrix is singular.")
    return arr_from(x, "double").reshape(b.shape)


class NP(types.ModuleType):
    """what instrumented code sees as numpy"""

    def __init__(self):
        super().__init__("numpy")
        self.linalg = LinAlg()
        self.pi = SymReal.const(np.pi)
        self.e = SymReal.const(np.e)
        self.nan = NAN
        self.NaN = NAN
        self.inf = math.inf
        self.r_ = _R_(np.r_)
        self.__version__ = np.__version__
        self.__path__ = []

    def __getattr__(self, name):
        if name in FUNCS:
            v = FUNCS[name]
        else:
            real = getattr(np, name)
            if isinstance(real, np.ufunc):
                v = _ufunc_wrapper(name, real)
            elif isinstance(real, type) or not callable(real):
                v = real
            elif isinstance(real, types.ModuleType):
                v = real
            else:
                v = _via(name)
        setattr(self, name, v)
        return v


facade = NP()
