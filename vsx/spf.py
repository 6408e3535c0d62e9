"""scipy facade: sparse containers over dense object arrays; linear solvers
are stubs with the contract A x = b."""
from __future__ import annotations

import types

import numpy as np

from . import core, npf
from .core import NAN, ZERO, SymBool, SymInt, SymReal, ctx
from .npf import SArr, arr_from, mk, to_float_arr


def dense_of(x):
    if isinstance(x, Sparse):
        return x.a
    return to_float_arr(arr_from(x))


def _zero(e):
    return (isinstance(e, SymReal) and not e.t) or (isinstance(e, (int, float)) and e == 0)


class Sparse:
    _sp = True
    __array_priority__ = 10000
    __array_ufunc__ = None

    def __init__(self, a, fmt="lil", ismatrix=True):
        self._a = a
        self._live = None
        self.format = fmt

    @property
    def a(self):
        """the entries; what was written through .data is taken over first"""
        if self._live is not None:
            keys, d, seen = self._live
            for i, k in enumerate(keys):
                if d[i] is not seen[i]:
                    self._a[k] = seen[i] = d[i]
        return self._a

    def _stored(self):
        """positions of the stored entries in storage order"""
        if self.format not in ("csr", "csc", "coo"):
            raise core.Unsupported(f"storage of a {self.format} array")
        n, m = self.a.shape
        order = [(i, j) for j in range(m) for i in range(n)] if self.format == "csc" else [(i, j) for i in range(n) for j in range(m)]
        return [k for k in order if not _zero(self._a[k])]

    @property
    def data(self):
        keys = self._stored()
        if self._live is not None and self._live[0] == keys:
            for i, k in enumerate(keys):
                self._live[1][i] = self._live[2][i] = self._a[k]
            return self._live[1]
        d = to_float_arr(arr_from([self._a[k] for k in keys]))
        self._live = (keys, d, [d[i] for i in range(len(keys))])
        return d

    @data.setter
    def data(self, v):
        keys = self._stored()
        v = to_float_arr(arr_from(v)).reshape(-1)
        if len(v) != len(keys):
            raise ValueError("number of stored entries")
        for i, k in enumerate(keys):
            self._a[k] = v[i]
        self._live = (keys, v, [v[i] for i in range(len(keys))])

    @property
    def indices(self):
        j = 0 if self.format == "csc" else 1
        if self.format == "coo":
            raise AttributeError("indices")
        return np.array([k[j] for k in self._stored()], dtype=np.int32)

    @property
    def indptr(self):
        if self.format == "coo":
            raise AttributeError("indptr")
        j = 1 if self.format == "csc" else 0
        n = np.bincount([k[j] for k in self._stored()], minlength=self.a.shape[j])
        return np.concatenate([[0], np.cumsum(n)]).astype(np.int32)

    @property
    def row(self):
        return np.array([k[0] for k in self._coo()], dtype=np.int32)

    @property
    def col(self):
        return np.array([k[1] for k in self._coo()], dtype=np.int32)

    def _coo(self):
        if self.format != "coo":
            raise AttributeError("row")
        return self._stored()

    def getnnz(self, axis=None):
        return self.nnz

    def _sp_dense(self):
        return self.a

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return 2

    @property
    def dtype(self):
        return np.dtype("float64")

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *a, **k):
        return Sparse(self.a.T.copy(), self.format)

    def toarray(self, *a, **k):
        return self.a.copy()

    @property
    def A(self):
        return self.a.copy()

    def todense(self, *a, **k):
        return np.asmatrix(self.a.copy().view(np.ndarray))

    def copy(self):
        return Sparse(self.a.copy(), self.format)

    def _as(self, fmt, copy=False):
        if fmt == self.format and not copy:
            return self
        return Sparse(self.a.copy(), fmt)

    def tocsc(self, copy=False):
        return self._as("csc", copy)

    def tocsr(self, copy=False):
        return self._as("csr", copy)

    def tolil(self, copy=False):
        return self._as("lil", copy)

    def tocoo(self, copy=False):
        return self._as("coo", copy)

    def todia(self, copy=False):
        return self._as("dia", copy)

    def asformat(self, fmt, copy=False):
        return self._as(fmt, copy)

    def asfptype(self):
        return self

    def astype(self, *a, **k):
        return self.copy()

    def sum(self, axis=None, dtype=None, out=None):
        if axis is None:
            return npf.reduce("add", self.a)
        r = npf.reduce("add", self.a, axis, keepdims=True)
        return np.asmatrix(r.view(np.ndarray))

    def diagonal(self, k=0):
        return npf._wrap(np.diagonal(self.a.view(np.ndarray), k).copy())

    def setdiag(self, v, k=0):
        n = self.a.shape[0]
        v = arr_from(v) if not npf.is_sym(v) and not isinstance(v, (int, float)) else v
        for c, i in enumerate(range(max(0, -k), min(n, self.a.shape[1] - k))):
            self.a[i, i + k] = v[c] if isinstance(v, np.ndarray) and v.ndim else v

    def reshape(self, *s, **k):
        if len(s) == 1:
            s = s[0]
        return Sparse(self.a.reshape(s).copy(), self.format)

    def getrow(self, i):
        return Sparse(self.a[i : i + 1].copy(), "csr")

    def getcol(self, i):
        return Sparse(self.a[:, i : i + 1].copy(), "csr")

    def nonzero(self):
        return np.nonzero(npf._index(npf.emap(lambda e: SymBool.of(e), self.a)))

    @property
    def nnz(self):
        return sum(not _zero(e) for e in self.a.reshape(-1))

    def eliminate_zeros(self):
        pass

    def sort_indices(self):
        pass

    # -- arithmetic
    def _wrap(self, a):
        return Sparse(a, "csr" if self.format in ("lil", "dia", "coo") else self.format)

    def __add__(self, o):
        if isinstance(o, Sparse):
            return self._wrap(self.a + o.a)
        if isinstance(o, (int, float)) and o == 0:
            return self.copy()
        if isinstance(o, np.ndarray):
            return np.asmatrix((self.a + o).view(np.ndarray))
        raise NotImplementedError("adding a nonzero scalar to a sparse array is not supported")

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Sparse):
            return self._wrap(self.a - o.a)
        if isinstance(o, np.ndarray):
            return np.asmatrix((self.a - o).view(np.ndarray))
        if isinstance(o, (int, float)) and o == 0:
            return self.copy()
        raise NotImplementedError("subtracting a nonzero scalar from a sparse array is not supported")

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return np.asmatrix((o - self.a).view(np.ndarray))
        return NotImplemented

    def __neg__(self):
        return self._wrap(-self.a)

    def __abs__(self):
        return self._wrap(npf.emap(npf.sabs, self.a))

    def __mul__(self, o):
        if isinstance(o, Sparse):
            return self._wrap(npf.matmul(self.a, o.a))
        if isinstance(o, np.ndarray) and o.ndim:
            return npf.matmul(self.a, o)
        return self._wrap(self.a * o)

    def __rmul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return npf.matmul(o, self.a)
        return self._wrap(self.a * o)

    def __matmul__(self, o):
        if isinstance(o, Sparse):
            return self._wrap(npf.matmul(self.a, o.a))
        return npf.matmul(self.a, o)

    def __rmatmul__(self, o):
        return npf.matmul(o, self.a)

    def dot(self, o):
        return self @ o

    def multiply(self, o):
        o = o.a if isinstance(o, Sparse) else o
        if isinstance(o, np.matrix):
            o = np.asarray(o)
        return self._wrap(self.a * o)

    def __truediv__(self, o):
        if isinstance(o, Sparse):
            return np.asmatrix((self.a / o.a).view(np.ndarray))
        return self._wrap(self.a / o)

    def power(self, n):
        return self._wrap(npf.spow(self.a, n))

    def _inplace(self, r):
        if self.format == "lil" and r is not NotImplemented:
            self[:, :] = r
            return self
        return r

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        r = self * o
        return self._inplace(r) if not isinstance(o, (Sparse, np.ndarray)) else r

    def __itruediv__(self, o):
        r = self / o
        return self._inplace(r) if not isinstance(o, (Sparse, np.ndarray)) else r

    # -- indexing
    def _key(self, k):
        k = npf._index(k)
        if not isinstance(k, tuple):
            if isinstance(k, Sparse):
                k = npf._index(k.a)
            return (k, slice(None))
        if len(k) == 1:
            return (k[0], slice(None))
        out = []
        for x in k:
            if x is Ellipsis:
                x = slice(None)
            if isinstance(x, np.matrix):
                x = np.asarray(x).reshape(-1)
            out.append(x)
        return tuple(out)

    def __getitem__(self, k):
        if isinstance(k, np.ndarray) and k.dtype != object and k.dtype == bool and k.ndim == 2:
            r = self.a[k]
            return np.asmatrix(r.reshape(1, -1).view(np.ndarray))
        i, j = self._key(k)
        int_i = isinstance(i, (int, np.integer))
        int_j = isinstance(j, (int, np.integer))
        if int_i and int_j:
            return self.a[i, j]
        if int_i:
            i = slice(i, i + 1 if i != -1 else None) if not isinstance(j, (list, np.ndarray)) else np.array([[i]])
            if isinstance(i, np.ndarray):
                return Sparse(self.a[i, np.asarray(j).reshape(1, -1)].copy(), self.format)
        if int_j:
            j = slice(j, j + 1 if j != -1 else None) if not isinstance(i, (list, np.ndarray)) else np.array([[j]])
            if isinstance(j, np.ndarray):
                return Sparse(self.a[np.asarray(i).reshape(-1, 1), j].copy(), self.format)
        r = self.a[i, j]
        if r.ndim == 1:
            r = r.reshape(1, -1)
        return Sparse(r.copy(), self.format)

    def __setitem__(self, k, v):
        if isinstance(v, Sparse):
            v = v.a
        if isinstance(v, np.matrix):
            v = np.asarray(v)
        if isinstance(k, np.ndarray) and k.dtype == object:
            self.a[k] = v
            return
        i, j = self._key(k)
        if isinstance(v, (list, tuple)):
            v = arr_from(v, "double")
        if isinstance(v, np.ndarray):
            v = to_float_arr(v)
            tgt = np.empty(self.a.shape, dtype=bool)[i, j]
            shp = np.shape(tgt)
            if v.shape != shp:
                if v.size == int(np.prod(shp)) if shp else v.size == 1:
                    vv = v.reshape(shp) if shp else v.reshape(-1)[0]
                    # lil assignment broadcasts rows; a column given for a row
                    # target (or the reverse) is rejected by scipy
                    if shp and v.ndim == 2 and len(shp) == 2 and v.shape != shp:
                        raise ValueError("shape mismatch in assignment")
                    v = vv
        self.a[i, j] = v

    def __len__(self):
        raise TypeError("sparse array length is ambiguous; use getnnz()")

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def _c(self, o, name):
        o = o.a if isinstance(o, Sparse) else o
        return Sparse(npf.emap(npf._UF[name], self.a, o), "csr")

    def __ne__(self, o):
        return self._c(o, "not_equal")

    def __eq__(self, o):
        return self._c(o, "equal")

    def __gt__(self, o):
        return self._c(o, "greater")

    def __lt__(self, o):
        return self._c(o, "less")

    __hash__ = None

    def max(self, axis=None, **k):
        return npf.reduce("maximum", self.a, axis)

    def min(self, axis=None, **k):
        return npf.reduce("minimum", self.a, axis)

    def mean(self, axis=None, **k):
        return self.a.mean(axis)


def _ctor(fmt):
    class C(Sparse):
        def __new__(cls, arg, shape=None, dtype=None, copy=False):
            return make(arg, shape, fmt)

        def __init__(self, *a, **k):
            pass

    C.__name__ = fmt + "_matrix"
    return C


def make(arg, shape=None, fmt="lil"):
    if isinstance(arg, Sparse):
        return Sparse(arg.a.copy(), fmt)
    if isinstance(arg, (int, np.integer)):
        raise TypeError("invalid input format")
    if isinstance(arg, tuple):
        if len(arg) == 2 and all(isinstance(x, (int, np.integer, SymInt)) for x in arg):
            return Sparse(mk(npf._shp(arg), ZERO), fmt)
        if len(arg) == 2 and isinstance(arg[1], tuple):
            data, (r, c) = arg
            r = [int(x) for x in r]
            c = [int(x) for x in c]
            if shape is None:
                shape = (max(r) + 1, max(c) + 1)
            out = mk(npf._shp(shape), ZERO)
            data = arr_from(data)
            for v, i, j in zip(data, r, c):
                out[i, j] = out[i, j] + v
            return Sparse(out, fmt)
        if len(arg) == 2 and fmt == "dia":
            data, offs = arg
            return diags(list(arr_from(data)), [int(o) for o in np.atleast_1d(offs)], shape, _dia=True)
        if len(arg) == 3:
            data, idx, ptr = arg
            data = arr_from(data)
            n = len(ptr) - 1
            if shape is None:
                m = max([int(x) for x in idx] + [-1]) + 1
                shape = (n, m) if fmt == "csr" else (m, n)
            out = mk(npf._shp(shape), ZERO)
            for i in range(n):
                for p in range(int(ptr[i]), int(ptr[i + 1])):
                    if fmt == "csr":
                        out[i, int(idx[p])] = out[i, int(idx[p])] + data[p]
                    else:
                        out[int(idx[p]), i] = out[int(idx[p]), i] + data[p]
            return Sparse(out, fmt)
        if len(arg) == 1:
            return Sparse(mk((1,) + npf._shp(arg), ZERO), fmt)
    a = to_float_arr(arr_from(arg))
    if a.ndim == 1:
        a = a.reshape(1, -1)
    return Sparse(a.copy(), fmt)


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None, _dia=False):
    if not isinstance(offsets, (list, tuple, np.ndarray)):
        offsets = [offsets]
        if not (isinstance(diagonals, (list, tuple)) and len(diagonals) == 1 and hasattr(diagonals[0], "__len__")):
            diagonals = [diagonals]
    ds = []
    for d in diagonals:
        if npf.is_sym(d) or isinstance(d, (int, float, np.number)):
            d = [d]
        ds.append(to_float_arr(arr_from(d)))
    if shape is None:
        n = len(ds[0]) + abs(int(offsets[0]))
        shape = (n, n)
    out = mk(shape, ZERO)
    n, m = shape
    for d, k in zip(ds, offsets):
        k = int(k)
        r0, c0 = max(0, -k), max(0, k)
        L = max(0, min(n - r0, m - c0))
        if _dia:
            for t in range(L):
                out[r0 + t, c0 + t] = d[c0 + t]
            continue
        if len(d) != L and len(d) != 1:
            raise ValueError(
                "Diagonal length (index 0: %d at offset %d) does not agree with array size (%d, %d)."
                % (len(d), k, n, m)
            )
        for t in range(L):
            out[r0 + t, c0 + t] = out[r0 + t, c0 + t] + (d[t] if len(d) > 1 else d[0])
    return Sparse(out, format or "dia")


def spdiags(data, offs, m, n=None, format=None):
    if n is None:
        m, n = m
    data = to_float_arr(arr_from(data))
    if data.ndim == 1:
        data = data.reshape(1, -1)
    return diags(list(data), [int(o) for o in np.atleast_1d(offs)], (m, n), format, _dia=True)


def eye(m, n=None, k=0, dtype=None, format=None):
    return Sparse(to_float_arr(np.eye(m, n or m, k, dtype=int)), format or "dia")


def _stack(axis):
    def f(blocks, format=None, dtype=None):
        return Sparse(npf.FUNCS["concatenate"]([dense_of(b) for b in blocks], axis), format or "csr")

    return f


sparse = types.ModuleType("scipy.sparse")
sparse.__path__ = []
for _f in ("lil", "csc", "csr", "coo", "dia", "dok", "bsr"):
    _C = _ctor(_f)
    setattr(sparse, _f + "_matrix", _C)
    setattr(sparse, _f + "_array", _C)
sparse.diags = sparse.diags_array = diags
sparse.spdiags = spdiags
sparse.eye = sparse.identity = sparse.eye_array = eye
sparse.vstack = _stack(0)
sparse.hstack = _stack(1)
sparse.issparse = sparse.isspmatrix = lambda x: isinstance(x, Sparse)
sparse.spmatrix = sparse.sparray = Sparse
sparse.SparseEfficiencyWarning = type("SparseEfficiencyWarning", (Warning,), {})


def spsolve(A, b, *a, **k):
    x = _direct(A, b)
    return x.reshape(-1) if x.ndim == 2 and x.shape[1] == 1 else x


class _Fault:
    """exit code of iterative solvers: decided by the harness (0 = converged)"""

    hook = None
    direct = None  # called before every direct solve; may raise


def _direct(A, b):
    if _Fault.direct is not None:
        _Fault.direct()
    return npf.dense_solve(A, b)


# keywords of the iterative solvers of scipy 1.13 (`tol` is the former `rtol`)
_KW = {n: {"tol", "rtol", "maxiter", "M", "callback", "atol"} for n in ("bicg", "bicgstab", "cg", "cgs")}
_KW["gmres"] = _KW["cg"] | {"restart", "restrt", "callback_type"}
_KW["lgmres"] = _KW["cg"] | {"inner_m", "outer_k", "outer_v", "store_outer_Av", "prepend_outer_v"}
_KW["minres"] = (_KW["cg"] - {"atol"}) | {"shift", "show", "check"}
_KW["qmr"] = (_KW["cg"] - {"M"}) | {"M1", "M2"}
_KW["gcrotmk"] = _KW["cg"] | {"m", "k", "CU", "discard_C", "truncate"}
_KW["tfqmr"] = _KW["cg"] | {"show"}


def _num(v):
    if isinstance(v, SymReal):
        return core.F(v.cval())
    return core.F(str(v)) if isinstance(v, (int, float, core.F)) else core.F(0)


def _tolerances(kw):
    """(atol, rtol) where they are looser than scipy's own (0 and 1e-5), else 0"""
    atol = _num(kw.get("atol"))
    rtol = max(_num(kw.get("rtol")), _num(kw.get("tol")))
    return (atol if atol > 0 else 0), (rtol if rtol > core.F(1, 100000) else 0)


def _iter(name):
    def solver(A, b, x0=None, **kw):
        for k in kw:
            if k not in _KW[name]:
                raise TypeError("%s() got an unexpected keyword argument '%s'" % (name, k))
        bb = dense_of(b)
        if bb.ndim == 2 and bb.shape[1] != 1:
            raise ValueError("A and b have incompatible dimensions")
        code = 0
        if _Fault.hook is not None:
            code = _Fault.hook(name)
        if code != 0:
            # not converged: the iterate is arbitrary
            c = ctx()
            n = bb.shape[0]
            out = []
            for i in range(n):
                c.fresh += 1
                at = c.var("junk!%d" % c.fresh, "?", "def")
                out.append(SymReal({((at.i, 1),): core.F(1)}))
            return arr_from(out, "double"), code
        x = npf.dense_solve(A, bb.reshape(-1))
        atol, rtol = _tolerances(kw)
        if atol or rtol:
            # loose tolerances: any x with a residual below them is a result
            nb = sum((v * v for v in bb.reshape(-1)), SymReal.const(0))
            if atol and x0 is None and nb < atol * atol:
                return x * 0, 0
            if rtol:
                return x * (1 - rtol), 0
        return x, 0

    solver.__name__ = name
    return solver


ssl = types.ModuleType("scipy.sparse.linalg")
ssl.spsolve = spsolve
for _n in ("bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "minres", "qmr", "gcrotmk", "tfqmr"):
    setattr(ssl, _n, _iter(_n))


def splu(A, **k):
    o = types.SimpleNamespace()
    o.solve = lambda b: _direct(A, b)
    return o


ssl.splu = ssl.spilu = splu
ssl.factorized = lambda A: (lambda b: _direct(A, b))
ssl.MatrixRankWarning = type("MatrixRankWarning", (UserWarning,), {})
ssl.use_solver = lambda **k: None
sparse.linalg = ssl

sl = types.ModuleType("scipy.linalg")
sl.solve = lambda A, b, *a, **k: _direct(A, b)
sl.inv = lambda A, *a, **k: npf.LinAlg.inv(A)
sl.lu_factor = lambda A, *a, **k: (A, None)
sl.lu_solve = lambda lu, b, *a, **k: _direct(lu[0], b)
sl.LinAlgError = np.linalg.LinAlgError
sl.LinAlgWarning = type("LinAlgWarning", (RuntimeWarning,), {})
sl.norm = npf.LinAlg.norm
sl.det = npf.LinAlg.det


def _sl_getattr(n):
    raise AttributeError("module 'scipy.linalg' has no attribute %r (facade)" % n)


scipy = types.ModuleType("scipy")
scipy.__path__ = []
scipy.sparse = sparse
scipy.linalg = sl
scipy.__version__ = "1.13.1"
