"""pandas, with frames that hold symbolic values (as objects)."""
import types

import numpy as np
import pandas as _pd

from . import core, npf


def _out(v):
    if isinstance(v, np.ndarray) and v.dtype == object:
        return v.view(npf.SArr)
    return v


def _reduce(x, axis, conj):
    """any/all of symbolic masks, one decision per result"""
    v = np.asarray(x, dtype=object)
    if v.ndim == 1:
        return _one(v, conj)
    if axis in (None,):
        return _one(v.reshape(-1), conj)
    if axis in (1, "columns"):
        return Series([_one(r, conj) for r in v], index=x.index)
    return Series([_one(c, conj) for c in v.T], index=x.columns, dtype=bool)


def _one(vs, conj):
    ns = [core.SymBool.of(a).n for a in vs]
    return bool(core.SymBool(core.nand(ns) if conj else core.nnot(core.nand([core.nnot(n) for n in ns]))))


def _sym(x):
    return any(d == object for d in (x.dtypes if isinstance(x, _pd.DataFrame) else [x.dtype]))


def _cmp(name):
    def f(self, o):
        if _sym(self) and not isinstance(o, (_pd.DataFrame, _pd.Series)):
            v = np.asarray(self, dtype=object)
            out = np.empty(v.shape, dtype=object)
            for i in np.ndindex(v.shape):
                out[i] = getattr(_lift(v[i]), name)(o)
                if out[i] is NotImplemented:
                    out[i] = name == "__ne__"
            if isinstance(self, _pd.DataFrame):
                return DataFrame(out, index=self.index, columns=self.columns)
            return Series(out, index=self.index, name=self.name)
        return getattr(super(type(self), self), name)(o)

    return f


def _lift(v):
    r = core.lift(v)
    return v if r is None else r


class _Mixin:
    @property
    def _constructor(self):
        return DataFrame if isinstance(self, _pd.DataFrame) else Series

    @property
    def values(self):
        return _out(super().values)

    def to_numpy(self, *a, **k):
        return _out(super().to_numpy(*a, **k))

    def any(self, axis=0, **k):
        return _reduce(self, axis, False) if _sym(self) else super().any(axis=axis, **k)

    def all(self, axis=0, **k):
        return _reduce(self, axis, True) if _sym(self) else super().all(axis=axis, **k)


class Series(_Mixin, _pd.Series):
    @property
    def _constructor_expanddim(self):
        return DataFrame


# tables written to files: {name: (column names, columns)}
FILES = {}


def _write(df, args, kw):
    """what a reader finds in the file"""
    import inspect
    import os

    b = inspect.signature(_pd.DataFrame.to_csv).bind(df, *args, **kw)
    b.apply_defaults()
    k = b.arguments
    if not isinstance(k["path_or_buf"], (str, os.PathLike)):
        raise NotImplementedError("to_csv without a file name")
    name = os.path.basename(os.fspath(k["path_or_buf"]))
    cols = list(range(df.shape[1]))
    if k["columns"] is not None:
        cols = [list(df.columns).index(c) for c in k["columns"]]
    names = [str(df.columns[i]) for i in cols]
    vals = [list(df.iloc[:, i]) for i in cols]
    if isinstance(k["header"], (list, tuple)):
        names = [str(c) for c in k["header"]]
    if k["index"]:
        label = k["index_label"] if k["index_label"] is not None else df.index.name
        names.insert(0, "" if label is None or label is False else str(label))
        vals.insert(0, list(df.index))
    f = k["float_format"]
    if f is not None:
        form = f if callable(f) else lambda v: f % v
        lossless = all(float(form(v)) == v for v in (0.1, 1 / 3, 12345.678901234567, 1e-9 / 7, -2e7 / 3))
        if not lossless:  # numbers are not what they were
            vals = [[v if isinstance(v, (str, int, np.integer)) else "rounded" for v in c] for c in vals]
    if k["na_rep"] != "":
        vals = [[k["na_rep"] if isinstance(v, float) and v != v else v for v in c] for c in vals]
    if k["header"] is False:  # the first row is taken for the names
        names, vals = [str(c[0]) if c else "" for c in vals], [c[1:] for c in vals]
    if k["sep"] != ",":
        names, vals = [k["sep"].join(names)], [["joined"] * len(df)]
    if k["mode"] != "w" and name in FILES:
        old = FILES[name]
        names, vals = old[0], [a + [n] + b for a, n, b in zip(old[1], names, vals)]
    FILES[name] = (names, vals)


class DataFrame(_Mixin, _pd.DataFrame):
    @property
    def _constructor_sliced(self):
        return Series

    def to_csv(self, *a, **k):
        return _write(self, a, k)


for _n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
    setattr(Series, _n, _cmp(_n))
    setattr(DataFrame, _n, _cmp(_n))


class _Facade(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(_pd, n)


facade = _Facade("pandas")
facade.DataFrame = DataFrame
facade.Series = Series
