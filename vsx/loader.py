"""Loads the package under test from /repo's current source with symbolic
semantics for numbers.

The source is parsed on every run; float literals become exact rationals, `/`
and `**` become exact operations, and the numeric libraries are replaced by
the facades in this package.  Nothing else about the code is changed."""
from __future__ import annotations

import ast
import builtins
import contextlib
import importlib
import math
import os
import sys
import types
import warnings
from decimal import Decimal
from fractions import Fraction as F

import numpy as np

from . import core, npf, pvf, spf, symf
from .core import NAN, SymBool, SymInt, SymReal, lift

REPO = os.environ.get("VSX_REPO", "/repo")
PKG = "reservoirflow"


# --------------------------------------------------------------------------
# runtime support
# --------------------------------------------------------------------------
_LIT = {}


def lit(s):
    v = _LIT.get(s)
    if v is None:
        f = float(s)
        if not math.isfinite(f):
            v = f
        else:
            v = SymReal.const(F(Decimal(s)))
        _LIT[s] = v
    return v


def idiv(a, b):
    if isinstance(a, np.ndarray):
        a /= b
        return a
    return npf.sdiv(a, b)


def ipow(a, b):
    if isinstance(a, np.ndarray):
        a **= b
        return a
    return npf.spow(a, b)


class Trace:
    funcs = set()


def enter(name):
    Trace.funcs.add(name)
    c = core.Ctx.cur
    if c is not None and c.dead is not None:
        raise c.dead


RT = types.SimpleNamespace(
    lit=lit, div=npf.sdiv, pow=npf.spow, idiv=idiv, ipow=ipow, enter=enter
)


class Rewrite(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.scope = []

    def _call(self, fn, args, node):
        f = ast.Attribute(ast.Name("__vsx__", ast.Load()), fn, ast.Load())
        return ast.copy_location(ast.fix_missing_locations(ast.copy_location(ast.Call(f, args, []), node)), node)

    def visit_Constant(self, n):
        if type(n.value) is float:
            return self._call("lit", [ast.Constant(repr(n.value))], n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return self._call("div", [n.left, n.right], n)
        if isinstance(n.op, ast.Pow):
            return self._call("pow", [n.left, n.right], n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        fn = {ast.Div: "idiv", ast.Pow: "ipow"}.get(type(n.op))
        if fn:
            load = ast.parse(ast.unparse(n.target), mode="eval").body
            load = self._relit(load)
            r = ast.Assign([n.target], self._call(fn, [load, n.value], n))
            return ast.fix_missing_locations(ast.copy_location(r, n))
        return n

    def _relit(self, e):
        return e

    def visit_JoinedStr(self, n):
        # literals inside format specs must stay strings
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_FunctionDef(self, n):
        self.scope.append(n.name)
        # annotations keep their literals
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        body = [self.visit(b) for b in n.body]
        flat = []
        for b in body:
            flat.extend(b if isinstance(b, list) else [b])
        doc = []
        if flat and isinstance(flat[0], ast.Expr) and isinstance(flat[0].value, ast.Constant):
            doc, flat = flat[:1], flat[1:]
        call = ast.Expr(
            ast.Call(
                ast.Attribute(ast.Name("__vsx__", ast.Load()), "enter", ast.Load()),
                [ast.Constant(self.mod + ":" + ".".join(self.scope))],
                [],
            )
        )
        ast.copy_location(call, n)
        n.body = doc + [ast.fix_missing_locations(call)] + flat
        self.scope.pop()
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.scope.append(n.name)
        self.generic_visit(n)
        self.scope.pop()
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n


_CODE = {}


def code_of(path, name):
    c = _CODE.get(path)
    if c is None:
        src = open(path, encoding="utf-8").read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, path)
        tree = Rewrite(name).visit(tree)
        ast.fix_missing_locations(tree)
        c = compile(tree, path, "exec")
        _CODE[path] = c
    return c


# --------------------------------------------------------------------------
# builtins
# --------------------------------------------------------------------------
_REAL_T = (float, np.floating)
_INT_T = (int, np.integer)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymReal, float))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, SymReal))

    def __eq__(cls, o):
        return o is float or o is cls or o is SymReal

    def __hash__(cls):
        return hash(float)

    def __call__(cls, x=0):
        if isinstance(x, str):
            f = float(x)
            return SymReal.const(F(Decimal(x.strip()))) if math.isfinite(f) else f
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.reshape(-1)[0]
        v = lift(x)
        if v is None:
            return npf.exact(float(x))
        return v


class sfloat(float, metaclass=_FloatMeta):
    __name__ = "float"

    @staticmethod
    def is_integer(x):
        return x.is_integer()


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymInt, int))

    def __subclasscheck__(cls, c):
        return issubclass(c, (int, SymInt))

    def __eq__(cls, o):
        return o is int or o is cls or o is SymInt

    def __hash__(cls):
        return hash(int)

    def __call__(cls, x=0, *a):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymReal):
            return int(x)
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.reshape(-1)[0])
        if isinstance(x, symf.Expr):
            return int(x)
        return int(x, *a)


class sint(int, metaclass=_IntMeta):
    pass


def s_isinstance(x, t):
    if isinstance(x, (SymReal, SymInt, SymBool)):
        ts = t if isinstance(t, tuple) else (t,)
        for u in ts:
            if isinstance(u, tuple):
                if s_isinstance(x, u):
                    return True
                continue
            if isinstance(u, types.UnionType):
                if s_isinstance(x, u.__args__):
                    return True
                continue
            if not isinstance(u, type):
                raise TypeError("isinstance() arg 2 must be a type, a tuple of types, or a union")
            if u is object:
                return True
            if isinstance(x, SymReal) and u in (float, sfloat, np.floating, np.float64, np.number, np.generic):
                return u in (float, sfloat) or u is not np.generic
            if isinstance(x, SymInt) and u in (int, sint, np.integer, np.number):
                return True
            if isinstance(x, SymBool) and u in (bool, np.bool_, int, sint):
                return True
            import numbers

            if u in (numbers.Number, numbers.Real, numbers.Complex):
                return True
            if u is numbers.Integral:
                return isinstance(x, (SymInt, SymBool))
            if isinstance(x, u):
                return True
        return False
    return isinstance(x, t)


def s_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymReal):
            return sfloat
        if isinstance(x, SymInt):
            return sint
        if isinstance(x, SymBool):
            return bool
        if isinstance(x, npf.SArr):
            return np.ndarray
    return type(*a)


def s_round(x, n=None):
    if isinstance(x, (float, np.floating)) and math.isfinite(x):
        x = SymReal.const(x)
    if isinstance(x, SymReal):
        r = x.__round__(n)
        if n is None and r.is_const:
            return int(r.cval())
        return r
    return round(x) if n is None else round(x, n)


def s_abs(x):
    if isinstance(x, SymReal):
        return npf.sabs(x)
    return abs(x)


def _mm(low, real):
    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not k and xs and all(isinstance(x, (SymReal, float, int, np.floating, np.integer)) for x in xs) and any(
            isinstance(x, SymReal) and not x.is_const for x in xs
        ):
            return core.extremum(xs, low)
        return real(xs, **k)

    return f


def s_pow(a, b, *m):
    return pow(a, b, *m) if m else npf.spow(a, b)


def s_print(*a, **k):
    pass


def s_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def s_vars(*a):
    if not a:
        return sys._getframe(1).f_locals
    return vars(*a)


def s_hash(x):
    return hash(x)


def s_bool(x=False):
    return bool(x)


class _NoFile:
    pass


def s_open(*a, **k):
    core.ctx().die(core.Unsupported("file access"))


# --------------------------------------------------------------------------
# stub modules
# --------------------------------------------------------------------------
def _mod(name, **k):
    m = types.ModuleType(name)
    for a, b in k.items():
        setattr(m, a, b)
    return m


class Pbar:
    def __init__(self, it=None, *a, **k):
        self.it = it if it is not None else range(k.get("total") or 0)

    def __iter__(self):
        return iter(self.it)

    def __len__(self):
        return len(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


class Future:
    def __init__(self, pool, fn, a, k):
        self.pool, self.job, self.done_, self.exc, self.val = pool, (fn, a, k), False, None, None

    def run(self):
        if self.done_:
            return
        self.done_ = True
        fn, a, k = self.job
        try:
            self.val = fn(*a, **k)
        except Exception as e:  # noqa: BLE001 - a worker's exception is kept by the future
            self.exc = e

    def result(self, timeout=None):
        self.pool.drain()
        if self.exc is not None:
            raise self.exc
        return self.val

    def exception(self, timeout=None):
        self.pool.drain()
        return self.exc

    def done(self):
        return self.done_

    def cancel(self):
        return False

    def add_done_callback(self, f):
        self.pool.drain()
        f(self)


class Pool:
    """runs tasks one after another in an order chosen by the harness

    order: 'fifo', 'lifo' or 'any' (every permutation is a solver choice).
    Only whole-task interleavings are modelled."""

    order = "fifo"

    def __init__(self, max_workers=None, *a, **k):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.queue = []
        self.shut = False

    def submit(self, fn, *a, **k):
        if self.shut:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = Future(self, fn, a, k)
        self.queue.append(f)
        return f

    def drain(self):
        q, self.queue = self.queue, []
        if Pool.order == "lifo":
            q = q[::-1]
        elif Pool.order == "any" and core.Ctx.cur is not None:
            q = choose_order(q)
        for f in q:
            f.run()

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]

        def gen():
            for f in fs:
                yield f.result()

        return gen()

    def shutdown(self, wait=True, **k):
        self.drain()
        self.shut = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False


def choose_order(q):
    """permutation picked by the solver through symbolic keys"""
    c = core.Ctx.cur
    out = []
    rest = list(q)
    z3 = core.z3
    while len(rest) > 1:
        c.fresh += 1
        v = z3.Int("ord!%d" % c.fresh)
        c.raw(v >= 0)
        c.raw(v < len(rest))
        i = core.SymInt(v).realize()
        out.append(rest.pop(i))
    return out + rest


def as_completed(fs, timeout=None):
    fs = list(fs)
    for f in fs:
        f.pool.drain()
    return iter(fs)


class _Clock:
    t = 0.0


def fake_time():
    # arbitrary non-decreasing clock; only differences are reported
    _Clock.t += 1.0
    return npf.exact(_Clock.t)


_lock = lambda *a, **k: contextlib.nullcontext()  # noqa: E731

futures = _mod(
    "concurrent.futures", ThreadPoolExecutor=Pool, as_completed=as_completed, Future=Future,
    wait=lambda fs, **k: (set(as_completed(fs)), set()), ProcessPoolExecutor=Pool,
)


class _MathMod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = npf._UF.get({"fabs": "absolute", "pow": "power"}.get(n, n))
        if f is not None:
            def g(*a):
                r = f(*a)
                if isinstance(r, (SymReal,)) and n in ("floor", "ceil", "trunc"):
                    return int(r)
                return r
            return g
        v = getattr(math, n)
        if isinstance(v, float):
            return npf.exact(v)
        return v


mathf = _MathMod("math")
mathf.isclose = lambda a, b, **k: npf.misclose(a, b, **k)
mathf.prod = lambda xs, start=1: __import__("functools").reduce(lambda a, b: a * b, xs, start)
mathf.sqrt = lambda x: core.rpow(x, F(1, 2))
mathf.pow = npf.spow
mathf.pi = None
mathf.fsum = lambda xs: s_sum(xs)


def _exact_pi():
    return npf.facade.pi


REDIRECT = {
    "numpy": lambda: npf.facade,
    "scipy": lambda: spf.scipy,
    "scipy.sparse": lambda: spf.sparse,
    "scipy.sparse.linalg": lambda: spf.ssl,
    "scipy.linalg": lambda: spf.sl,
    "sympy": lambda: symf.facade,
    "pyvista": lambda: pvf.facade,
    "pandas": lambda: importlib.import_module("vsx.pdf").facade,
    "tqdm": lambda: _mod("tqdm", tqdm=Pbar, trange=lambda *a, **k: Pbar(range(*a)), auto=_mod("tqdm.auto", tqdm=Pbar)),
    "tqdm.auto": lambda: _mod("tqdm.auto", tqdm=Pbar),
    "math": lambda: mathf,
    "concurrent": lambda: _mod("concurrent", futures=futures),
    "concurrent.futures": lambda: futures,
    "time": lambda: _mod("time", time=fake_time, perf_counter=fake_time, sleep=lambda *a: None, process_time=fake_time, monotonic=fake_time),
    "threading": lambda: _mod("threading", Lock=_lock, RLock=_lock),
    "matplotlib": lambda: pvf.dummy_module("matplotlib"),
    "matplotlib.pyplot": lambda: pvf.dummy_module("matplotlib.pyplot"),
    "line_profiler": lambda: pvf.dummy_module("line_profiler"),
    "imageio": lambda: pvf.dummy_module("imageio"),
    "vtk": lambda: pvf.dummy_module("vtk"),
    "PIL": lambda: pvf.dummy_module("PIL"),
    "IPython": lambda: pvf.dummy_module("IPython"),
}
_RCACHE = {}


def redirect(name):
    m = _RCACHE.get(name)
    if m is None:
        m = REDIRECT[name]()
        _RCACHE[name] = m
    return m


class Loader:
    """one fresh copy of the package"""

    def __init__(self):
        self.mods = {}
        b = dict(vars(builtins))
        b.update(
            __import__=self.imp, float=sfloat, int=sint, isinstance=s_isinstance, type=s_type, round=s_round,
            abs=s_abs, min=_mm(True, min), max=_mm(False, max), pow=s_pow, print=s_print, sum=s_sum,
            open=s_open,
        )
        b["type"] = _TypeProxy
        self.b = b

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            base = pkg.rsplit(".", level - 1)[0] if level > 1 else pkg
            name = base + ("." + name if name else "")
        top = name.split(".")[0]
        if top == PKG:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(top)
        if name in REDIRECT or top in REDIRECT:
            if fromlist:
                if name in REDIRECT:
                    return redirect(name)
                m = redirect(top)
                for p in name.split(".")[1:]:
                    m = getattr(m, p)
                return m
            m = redirect(top)
            if name in REDIRECT and name != top:
                sub = redirect(name)
                if not hasattr(m, name.split(".")[1]) or isinstance(getattr(m, name.split(".")[1]), pvf.Dummy):
                    setattr(m, name.split(".")[1], sub)
            return m
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        rel = os.path.join(REPO, *name.split("."))
        if os.path.isdir(rel) and os.path.exists(os.path.join(rel, "__init__.py")):
            path, ispkg = os.path.join(rel, "__init__.py"), True
        elif os.path.exists(rel + ".py"):
            path, ispkg = rel + ".py", False
        else:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rsplit(".", 1)[0]
        if ispkg:
            m.__path__ = [rel]
        m.__builtins__ = self.b
        m.__dict__["__vsx__"] = RT
        self.mods[name] = m
        try:
            exec(code_of(path, name), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if "." in name:
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m


class _TypeMeta(type):
    def __call__(cls, *a, **k):
        return s_type(*a) if len(a) == 1 else type(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, type)


class _TypeProxy(metaclass=_TypeMeta):
    pass


def fresh_package():
    mathf.pi = npf.facade.pi
    spf._Fault.hook = staticmethod(lambda name: 0)
    spf._Fault.direct = None
    Pool.order = "fifo"
    return Loader().load(PKG)
