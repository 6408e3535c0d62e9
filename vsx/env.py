"""The interface harnesses are written against.

The same harness runs symbolically (SymEnv, instrumented package) and
concretely (ConEnv, the real package imported as a user would)."""
from __future__ import annotations

import contextlib
import inspect
import math
import random
import re
import zlib
from decimal import Decimal
from fractions import Fraction as F

import numpy as np


class Skip(Exception):
    """the harness stops here on purpose"""


class ConEnv:
    sym = False

    def __init__(self, val):
        import reservoirflow as rf

        self.rf = rf
        self.np = np
        self.val = val
        self.fails = []
        self.obs = {}
        self.assumed = True
        self.reached = set()
        self.order = None

    @contextlib.contextmanager
    def pristine(self):
        """inside: a copy of the package nothing has been done with yet"""
        import importlib
        import sys

        mine = lambda: [n for n in sys.modules if n.split(".")[0] == "reservoirflow"]
        old = {n: sys.modules.pop(n) for n in mine()}
        rf = self.rf
        try:
            self.rf = importlib.import_module("reservoirflow")
            yield
        finally:
            self.rf = rf
            for n in mine():
                del sys.modules[n]
            sys.modules.update(old)

    # inputs
    def _get(self, name, default):
        v = self.val.get(name)
        return default if v is None else v

    def real(self, name, sign="?", lo=None, hi=None, nice=None):
        v = self._get(name, None)
        if v is None:
            a, b = nice or ((0.5, 2.0) if sign in ("+", "0+") else (-2.0, 2.0))
            lo_, hi_ = (a if lo is None else lo), (b if hi is None else hi)
            u = (zlib.crc32(name.encode()) % 997) / 997  # any value will do
            return float(lo_) + (0.1 + 0.8 * u) * (float(hi_) - float(lo_))
        return float(v)

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def f(self, s):
        return float(s)

    def zero(self):
        return 0.0

    def arr(self, xs):
        return np.array(xs)

    def assume(self, c):
        if not _truth(c):
            self.assumed = False
            raise Skip()

    # outputs
    def observe(self, name, v):
        self.obs[name] = _plain(v)

    def _fail(self, label, info=""):
        self.fails.append([label, str(info)[:600]])

    def check(self, label, c):
        self.reached.add(label)
        if not _truth(c):
            self._fail(label, "condition is false")

    def eq(self, label, a, b, rtol=1e-6, scale=0.0, atol=0.0):
        self.reached.add(label)
        try:
            ok, info = _close(a, b, rtol, scale, atol)
        except Exception as e:  # noqa: BLE001
            ok, info = False, repr(e)
        if not ok:
            self._fail(label, info)

    def le(self, label, a, b, rtol=1e-6, scale=0.0):
        self.reached.add(label)
        a, b = np.asarray(_den(a), dtype=float), np.asarray(_den(b), dtype=float)
        tol = rtol * np.maximum(np.maximum(abs(a), abs(b)), scale) + 1e-12
        if not np.all(a <= b + tol):
            self._fail(label, f"{a} <= {b} does not hold")

    lt = le

    def near(self, label, a, b, tol):
        self.eq(label, a, b, scale=float(tol) * 1e6)

    def fold(self):
        pass

    def raises(self, fn, *exc):
        try:
            fn()
        except exc or (Exception,):
            return True
        return False

    def same(self, label, a, b):
        self.reached.add(label)
        if not _same(a, b):
            self._fail(label, f"{a!r} != {b!r}")

    def fault(self, code, at=None):
        """make the iterative solvers report `code` (only in call number `at`,
        counted from 0, if given); they solve exactly"""
        self._unpatch()
        calls = []
        import reservoirflow.solutions.numerical.solvers as sv
        import scipy.sparse.linalg as ssl

        self._unfault = getattr(self, "_unfault", [])
        names = "cg cgs bicg bicgstab gmres lgmres qmr minres gcrotmk tfqmr".split()
        reals = {}
        for n in names:
            real = getattr(ssl, n)
            reals[n] = real

            def f(A, b, *a, _real=real, _sig=inspect.signature(real), **k):
                _sig.bind(A, b, *a, **k)
                if k.get("atol") or max(k.get("rtol") or 0, k.get("tol") or 0) > 1e-5:
                    calls.append(1)
                    x, c = _real(A, b, *a, **k)
                    return x, (code if at is None or len(calls) - 1 == at else c)
                A = A.toarray() if hasattr(A, "toarray") else np.asarray(A)
                x = np.linalg.solve(A, np.asarray(b, dtype=float).reshape(-1))
                calls.append(1)
                return x, (code if at is None or len(calls) - 1 == at else 0)

            setattr(ssl, n, f)
            self._unfault.append((ssl, n, real))
        for n, v in list(vars(sv).items()):
            if hasattr(v, "cache_clear"):
                v.cache_clear()
            for nn in names:
                if v is reals[nn]:
                    self._unfault.append((sv, n, v))
                    setattr(sv, n, getattr(ssl, nn))

    @contextlib.contextmanager
    def files(self):
        """tables written meanwhile: {name: (column names, columns)}; whatever is
        written goes to a scratch directory"""
        import os
        import tempfile

        import pandas as pd

        real, tables = pd.DataFrame.to_csv, {}
        with tempfile.TemporaryDirectory() as d:

            def write(df, path_or_buf=None, *a, **k):
                if not isinstance(path_or_buf, (str, os.PathLike)):
                    return real(df, path_or_buf, *a, **k)
                n = os.path.basename(os.fspath(path_or_buf))
                out = real(df, os.path.join(d, n), *a, **k)
                t = pd.read_csv(os.path.join(d, n), float_precision="round_trip")
                tables[n] = (["" if str(c).startswith("Unnamed") else str(c) for c in t.columns], [list(t.iloc[:, i]) for i in range(t.shape[1])])
                return out

            pd.DataFrame.to_csv = write
            try:
                yield tables
            finally:
                pd.DataFrame.to_csv = real

    def fault_direct(self, at):
        """direct solvers raise LinAlgError in call number `at`"""
        import scipy.linalg as sl
        import scipy.sparse.linalg as ssl

        self._unpatch()
        self._unfault = []
        calls = []
        for m, n in ((sl, "solve"), (ssl, "spsolve")):
            real = getattr(m, n)

            def f(*a, _real=real, **k):
                calls.append(1)
                if len(calls) - 1 == at:
                    raise np.linalg.LinAlgError("Matrix is singular.")
                return _real(*a, **k)

            self._unfault.append((m, n, real))
            setattr(m, n, f)

    def exact_solvers(self):
        """iterative solvers converge exactly"""
        self.fault(0)

    def thread_order(self, how):
        self._real_pool = None
        if how == "fifo":
            return
        import concurrent.futures as cf

        from . import conpool

        self._real_pool = cf.ThreadPoolExecutor
        conpool.Pool.order = how
        cf.ThreadPoolExecutor = conpool.Pool

    def _unpatch(self):
        for m, n, v in reversed(getattr(self, "_unfault", [])):
            setattr(m, n, v)
        if getattr(self, "_unfault", None):
            self._unfault = []
            import reservoirflow.solutions.numerical.solvers as sv

            for v in vars(sv).values():
                if hasattr(v, "cache_clear"):
                    v.cache_clear()

    def figures(self):
        """record figures; the list of them"""
        import pyvista as pv

        from . import figures as fg

        fg.Figure.log = []
        self._unpatch()
        self._unfault = []
        for n, v in (("Plotter", fg.Figure), ("Cylinder", fg.Cylinder), ("set_jupyter_backend", lambda *a, **k: None)):
            self._unfault.append((pv, n, getattr(pv, n)))
            setattr(pv, n, v)
        return fg.Figure.log

    def plots(self):
        """record matplotlib figures"""
        import matplotlib.pyplot as plt

        from . import figures as fg

        self._unpatch()
        self._unfault = []
        rec = fg.Plots()
        for n in rec.names:
            self._unfault.append((plt, n, getattr(plt, n)))
            setattr(plt, n, getattr(rec, n))
        return rec

    def text(self, label, text, prefix, value):
        """the text is the prefix and the value rounded to a whole number"""
        self.reached.add(label)
        try:
            ok = text.startswith(prefix) and abs(float(text[len(prefix):]) - float(value)) <= 0.5 + 1e-6 * abs(float(value))
        except ValueError:
            ok = False
        if not ok:
            self._fail(label, f"{text!r} for {prefix!r} {value}")

    def close(self):
        self._unpatch()
        if getattr(self, "_real_pool", None) is not None:
            import concurrent.futures as cf

            cf.ThreadPoolExecutor = self._real_pool


def _truth(c):
    if isinstance(c, np.ndarray):
        return bool(c.all())
    return bool(c)


def _den(x):
    if hasattr(x, "toarray"):
        return x.toarray()
    if isinstance(x, np.matrix):
        return np.asarray(x)
    return x


def _plain(v):
    v = _den(v)
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return str(v)


def _close(a, b, rtol, scale, atol=0.0):
    a, b = _den(a), _den(b)
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return False, f"keys differ: {a!r} vs {b!r}"
        for k in a:
            r = _close(a[k], b[k], rtol, scale, atol)
            if not r[0]:
                return False, f"[{k}] {r[1]}"
        return True, ""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False, f"shapes differ: {a.shape} vs {b.shape}"
    if a.size == 0:
        return True, ""
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False, f"nan in one side only: {a} vs {b}"
    m = ~na
    x, y = a[m], b[m]
    inf = np.isinf(x) | np.isinf(y)
    if inf.any():
        if not (x[inf] == y[inf]).all():
            return False, f"inf differs: {a} vs {b}"
        x, y = x[~inf], y[~inf]
    if x.size == 0:
        return True, ""
    big = max(np.abs(x).max(), np.abs(y).max(), scale)
    tol = rtol * np.maximum(np.abs(x), np.abs(y)) + 1e-9 * big + rtol * scale + atol
    bad = np.abs(x - y) > tol
    if bad.any():
        i = int(np.argmax(np.abs(x - y)))
        return False, f"{x[i]!r} vs {y[i]!r} (of {a.shape})"
    return True, ""


def _same(a, b):
    a, b = _den(a), _den(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and type(a) is type(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(_same(a[k], b[k]) for k in a)
    return bool(a == b)


# --------------------------------------------------------------------------
class SymEnv:
    sym = True

    def __init__(self, c, res):
        from . import core, loader, npf

        self.core = core
        self.c = c
        self.res = res
        self.npf = npf
        self.loader = loader
        self.rf = loader.fresh_package()
        self.np = npf.facade
        self.obs = {}
        self.labels = {}
        self.goals = []

    @contextlib.contextmanager
    def pristine(self):
        rf = self.rf
        try:
            self.rf = self.loader.Loader().load(self.loader.PKG)
            yield
        finally:
            self.rf = rf

    # inputs
    def real(self, name, sign="?", lo=None, hi=None, nice=None):
        core, c = self.core, self.c
        if name in c.inputs:
            a = c.inputs[name]
            return core.SymReal({((a.i, 1),): F(1)})
        if lo is not None and lo > 0 and sign == "?":
            sign = "+"
        elif lo is not None and lo >= 0 and sign == "?":
            sign = "0+"
        a = c.var(name, sign)
        c.inputs[name] = a
        v = core.SymReal({((a.i, 1),): F(1)})
        if lo is not None:
            c.add(core.cmp_node(v - _q(lo), "<=")) if False else c.add(core.cmp_node(core.lift(_q(lo)) - v, "<="))
        if hi is not None:
            c.add(core.cmp_node(v - core.lift(_q(hi)), "<="))
        if nice is None and (lo is not None or hi is not None):
            nice = (lo if lo is not None else hi - 20, hi if hi is not None else lo + 20)
        if nice is not None:
            a.nice = nice
        return v

    def int(self, name, lo, hi):
        core, c = self.core, self.c
        z = c.int_inputs.get(name)
        if z is None:
            z = core.z3.Int(name)
            c.int_inputs[name] = z
            c.int_range[name] = (lo, hi)
            c.raw(z >= lo)
            c.raw(z <= hi)
        return core.SymInt(z)

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1).realize()]

    def f(self, s):
        return self.core.SymReal.const(F(Decimal(str(s))))

    def zero(self):
        return self.core.ZERO

    def arr(self, xs):
        return self.np.array(xs)

    def assume(self, c):
        self.c.assume(self._node(c))

    def _node(self, c):
        core = self.core
        if isinstance(c, np.ndarray):
            return core.nand([core.SymBool.of(x).n for x in c.reshape(-1)])
        return core.SymBool.of(c).n

    # outputs
    def observe(self, name, v):
        if isinstance(v, self.loader.spf.Sparse):
            v = v.a
        if isinstance(v, np.ndarray):
            v = np.array(v, copy=True).view(type(v)) if v.dtype == object else v.copy()
        self.obs[name] = v

    def _prove(self, label, node, what=""):
        c = self.c
        self.res.reached.add(label)
        self.res.nchecks += 1
        how, m = c.prove(node)
        if how == "proved":
            self.res.how[m] = self.res.how.get(m, 0) + 1
            return True
        if callable(what):
            what = what()
        if how == "unknown":
            self.res.unknown.append((label, what))
            self.res.candidate(self, label, self.core.nconst(True), what, hard=False)
            return False
        self.res.candidate(self, label, node, what, hard=True)
        return False

    def check(self, label, c):
        self._prove(label, self._node(c))

    def eq(self, label, a, b, rtol=None, scale=None, atol=None):
        core = self.core
        a, b = _sden(a), _sden(b)
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
                return self._prove(label, core.nconst(False), f"keys {a!r} vs {b!r}")
            for k in a:
                self.eq(label, a[k], b[k])
            if not a:
                self._prove(label, core.nconst(True))
            return
        a, b = _sarr(self, a), _sarr(self, b)
        if a.shape != b.shape:
            return self._prove(label, core.nconst(False), f"shape {a.shape} vs {b.shape}")
        if a.size == 0:
            return self._prove(label, core.nconst(True))
        for i, (x, y) in enumerate(zip(a.reshape(-1), b.reshape(-1))):
            x, y = core.lift(x), core.lift(y)
            fx, fy = isinstance(x, float), isinstance(y, float)
            if x is None or y is None:
                n = core.nconst(False)
            elif fx or fy:
                n = core.nconst(fx and fy and (x == y or (math.isnan(x) and math.isnan(y))))
            else:
                n = core.cmp_node(x - y, "==")
            if n == ("const", True) and isinstance(x, core.SymReal) and (x.t or y.t) and len(self.goals) < 60:
                self.goals.append((label, x, y))
            if not self._prove(label, n, (lambda i=i, x=x, y=y: f"element {i}: {_short(x)} vs {_short(y)}")):
                return

    def _ord(self, label, a, b, strict):
        core = self.core
        a, b = np.broadcast_arrays(_sarr(self, _sden(a)), _sarr(self, _sden(b)))
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            x, y = core.lift(x), core.lift(y)
            if isinstance(x, float) or isinstance(y, float):
                n = core.SymBool.of((x < y) if strict else (x <= y)).n
            else:
                n = core.cmp_node(x - y, "<" if strict else "<=")
            if not self._prove(label, n, (lambda x=x, y=y: f"{_short(x)} vs {_short(y)}")):
                return

    def le(self, label, a, b, rtol=None, scale=None):
        self._ord(label, a, b, False)

    def lt(self, label, a, b, rtol=None, scale=None):
        self._ord(label, a, b, True)

    def figures(self):
        from . import figures as fg, pvf

        fg.Figure.log = []
        self.c.tokens = []
        pvf.facade.Plotter = fg.Figure
        pvf.facade.Cylinder = fg.Cylinder
        return fg.Figure.log

    def plots(self):
        from . import figures as fg, loader

        rec = fg.Plots()
        plt = loader.redirect("matplotlib.pyplot")
        for n in rec.names:
            setattr(plt, n, getattr(rec, n))
        return rec

    def text(self, label, text, prefix, value):
        m = re.fullmatch(re.escape(prefix) + "\x01(\\d+)\x02", text)
        if m is None:
            if isinstance(value, float) and math.isnan(value) and text == prefix + "nan":
                return self._prove(label, self.core.nconst(True))
            return self._prove(label, self.core.nconst(False), f"{text!r} for {prefix!r} {value}")
        v, spec = self.c.tokens[int(m.group(1))]
        self.check(label, spec in ("", ".0f"))
        self.eq(label, v, value)

    def near(self, label, a, b, tol):
        """|a - b| <= tol"""
        d = _sarr(self, a) - _sarr(self, b)
        self._ord(label, d, tol, False)
        self._ord(label, -d, tol, False)

    def fold(self):
        """functions of constants become rationals (24 decimals) at once"""
        self.c.early = True

    def raises(self, fn, *exc):
        try:
            fn()
        except exc or (Exception,):
            return True
        return False

    def same(self, label, a, b):
        core = self.core
        try:
            n = self._same(a, b)
        except Exception as e:  # noqa: BLE001
            return self._prove(label, core.nconst(False), repr(e))
        self._prove(label, n, f"{str(a)[:300]} vs {str(b)[:300]}")

    def _same(self, a, b):
        core = self.core
        a, b = _sden(a), _sden(b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                return core.nconst(False)
            return core.nand([self._same(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))])
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b) or type(a) is not type(b):
                return core.nconst(False)
            return core.nand([self._same(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return core.nconst(False)
            return core.nand([self._same(a[k], b[k]) for k in a])
        return core.SymBool.of(a == b).n

    def fault(self, code, at=None):
        calls = []

        def hook(name):
            calls.append(1)
            return code if at is None or len(calls) - 1 == at else 0

        self.loader.spf._Fault.hook = staticmethod(hook)
        self.loader.spf._Fault.direct = None

    @contextlib.contextmanager
    def files(self):
        from . import pdf

        pdf.FILES.clear()
        yield pdf.FILES
        pdf.FILES.clear()

    def fault_direct(self, at):
        calls = []
        self.loader.spf._Fault.hook = staticmethod(lambda name: 0)

        def hook():
            calls.append(1)
            if len(calls) - 1 == at:
                raise np.linalg.LinAlgError("Matrix is singular.")

        self.loader.spf._Fault.direct = staticmethod(hook)

    def exact_solvers(self):
        pass

    def thread_order(self, how):
        self.loader.Pool.order = how

    def close(self):
        pass


def _short(x):
    p = getattr(x, "p", None)
    if isinstance(p, dict) and len(p) > 40:
        return f"<{len(p)} terms>"
    return str(x)[:200]


def _q(x):
    return F(Decimal(str(x))) if isinstance(x, float) else F(x)


def _sden(x):
    if getattr(x, "_sp", False):
        return x.a
    return x


def _sarr(env, x):
    if isinstance(x, np.ndarray):
        return np.asarray(x).view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return env.npf.arr_from(x).view(np.ndarray)
    out = np.empty((), dtype=object)
    out[()] = x
    return out
