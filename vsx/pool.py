"""Witness pool of a path: random valuations of the inputs, evaluated in bulk.

A valuation that satisfies the path and a further condition (clear of rounding)
shows that the condition is feasible without a solver call.  The pool never
decides an assertion and never declares anything infeasible."""
from __future__ import annotations

import random

import numpy as np

from . import core

N = 192
BAD = (core.NoValue, ArithmeticError, ValueError, TypeError, KeyError, np.linalg.LinAlgError, core.z3.Z3Exception)


T = np.concatenate([[0.0], np.logspace(-5, 0, N - 1)])


class Pool:
    def __init__(self, c):
        self.c = c
        self.alive = np.ones(N, dtype=bool)
        self.memo = {}
        self.base = {}
        self.iover = {}
        self.zmemo = {}
        self.off = False
        self.done = 0
        self.nsub = 0
        self.model = {}
        self.refills = 0
        self.pinned = 0

    # -- values --------------------------------------------------------------
    def input(self, a):
        v = self.base.get(a.name)
        if v is None:
            lo, hi = a.nice or ((0.5, 20.0) if a.sign in ("+", "0+") else ((-20.0, -0.5) if a.sign == "-" else (-20.0, 20.0)))
            r = random.Random("v:" + a.name)
            lo, hi = float(lo), float(hi)
            v = np.array([lo + (hi - lo) * r.randrange(1, 256) / 256 for _ in range(N)])
            if a.name in self.model:  # spread around a solver model
                m = self.model[a.name]
                v = m + T * (v - m)
            self.base[a.name] = v
        return v

    def int_val(self, name):
        if name in self.iover:
            return np.full(N, self.iover[name])
        v = self.base.get(("int", name))
        if v is None:
            lo, hi = self.c.int_range[name]
            if name in self.model:
                return np.full(N, self.model[name])
            r = random.Random("i:" + name)
            v = np.array([r.randint(lo, hi) for _ in range(N)])
            self.base[("int", name)] = v
        return v

    def zexpr(self, e):
        """z3 expression over the integer inputs, per valuation"""
        c = self.c
        names = list(c.int_inputs)
        vals = np.stack([self.int_val(n) for n in names]) if names else np.zeros((0, N), dtype=int)
        uniq, inv = np.unique(vals, axis=1, return_inverse=True) if names else (np.zeros((0, 1), dtype=int), np.zeros(N, dtype=int))
        out = []
        for k in range(uniq.shape[1]):
            key = (e.get_id(), tuple(int(x) for x in uniq[:, k]))
            r = self.zmemo.get(key)
            if r is None:
                s = core.z3.simplify(core.z3.substitute(e, *[(c.int_inputs[n], core.z3.IntVal(x)) for n, x in zip(names, key[1])])) if names else core.z3.simplify(e)
                if core.z3.is_int_value(s):
                    r = s.as_long()
                elif core.z3.is_true(s):
                    r = True
                elif core.z3.is_false(s):
                    r = False
                else:
                    raise core.NoValue("z3")
                self.zmemo[key] = r
                self.zmemo[("keep", e.get_id())] = e
            out.append(r)
        return np.array(out)[np.asarray(inv).reshape(-1)]

    def poly(self, t, mag=False):
        s = np.zeros(N)
        g = np.zeros(N)
        for m, cf in t.items():
            p = float(cf)
            for a, e in m:
                x = self.atom(a)
                p = p * (x ** e if isinstance(e, int) and e > 0 else x ** float(e))
            s = s + p
            if mag:
                g = g + abs(p)
        return (s, g) if mag else s

    def real(self, x):
        if isinstance(x, core.SymReal):
            return self.poly(x.t)
        if isinstance(x, core.SymInt):
            return self.zexpr(x.e).astype(float)
        return np.full(N, float(x))

    def atom(self, i):
        v = self.memo.get(i)
        if v is not None:
            return v
        a = self.c.atoms[i]
        if a.kind == "var":
            v = self.input(a)
            for j, q in self.c.subst:
                if j == i:
                    v = self.poly(q.t)
                    s = a.sign
                    self.alive &= {"+": v > 0, "0+": v >= 0, "-": v < 0, "!": v != 0}.get(s, np.ones(N, dtype=bool))
                    break
        elif a.kind == "pow":
            v = self.poly(a.poly.t)
        elif a.kind == "fun":
            v = getattr(np, a.name)(*[self.real(y) for y in a.args])
        elif a.dfn is None:
            raise core.NoValue(a.name)
        else:
            d = a.dfn
            if d[0] == "ite":
                v = np.where(self.cond(d[1]), self.real(d[2]), self.real(d[3]))
            elif d[0] == "ext":
                xs = np.stack([self.real(u) for u in d[2]])
                v = xs.min(axis=0) if d[1] else xs.max(axis=0)
            elif d[0] == "lin":
                g = d[1]
                key = ("lin", id(g))
                if key not in self.memo:
                    n = len(g["b"])
                    A = np.empty((N, n, n))
                    b = np.empty((N, n, 1))
                    for r in range(n):
                        b[:, r, 0] = self.real(g["b"][r])
                        for k in range(n):
                            A[:, r, k] = self.real(g["A"][r][k])
                    self.memo[key] = np.linalg.solve(A, b)[:, :, 0]
                v = self.memo[key][:, d[2]]
            elif d[0] == "fl":
                v = np.floor(self.real(d[1]))
            elif d[0] == "int":
                v = self.zexpr(d[1]).astype(float)
            elif d[0] == "c":
                v = np.full(N, float(d[1]))
            else:
                raise core.NoValue(d[0])
        self.memo[i] = v
        return v

    # -- conditions ----------------------------------------------------------
    def cond(self, n):
        """plain truth"""
        k = n[0]
        if k == "const":
            return np.full(N, bool(n[1]))
        if k == "cmp":
            v = self.poly(n[2])
            return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[n[1]]
        if k == "not":
            return ~self.cond(n[1])
        if k == "and":
            out = np.ones(N, dtype=bool)
            for x in n[1]:
                out &= self.cond(x)
            return out
        return self.zexpr(n[1]).astype(bool)

    def holds(self, n):
        """true, clear of rounding"""
        k = n[0]
        if k == "const":
            return np.full(N, bool(n[1]))
        if k == "cmp":
            v, g = self.poly(n[2], True)
            eps = 1e-7 * g
            ok = np.isfinite(v)
            return ok & {"<": v < -eps, "<=": (v < -eps) | (g == 0), "==": abs(v) <= eps, "!=": abs(v) > eps}[n[1]]
        if k == "not":
            m = n[1]
            if m[0] == "and":
                out = np.zeros(N, dtype=bool)
                for x in m[1]:
                    out |= self.holds(core.nnot(x))
                return out
            if m[0] == "z3":
                return ~self.zexpr(m[1]).astype(bool)
            return self.holds(core.nnot(m))
        if k == "and":
            out = np.ones(N, dtype=bool)
            for x in n[1]:
                out &= self.holds(x)
            return out
        return self.zexpr(n[1]).astype(bool)

    # -- the path --------------------------------------------------------------
    def pins(self):
        added = self.c.added
        for n in added[self.pinned:]:
            if n[0] == "z3" and core.z3.is_eq(n[1]):
                l, r = n[1].children()
                if core.z3.is_int_value(r) and l.decl().kind() == core.z3.Z3_OP_UNINTERPRETED and str(l) in self.c.int_inputs:
                    self.iover[str(l)] = r.as_long()
                    self.nsub = -1
        self.pinned = len(added)

    def sync(self):
        self.pins()
        c = self.c
        added = c.added
        if len(c.subst) != self.nsub or c.subst_gen != getattr(self, "gen", 0):
            self.gen = c.subst_gen
            self.nsub = len(c.subst)
            self.memo = {}
            self.alive = np.ones(N, dtype=bool)
            self.done = 0
        while self.done < len(added):
            n = added[self.done]
            self.done += 1
            if self.alive.any():
                h = self.holds(n)
                self.alive &= h
        return self.alive

    def refill(self, m):
        """restart from a model of the path"""
        if self.off or self.refills >= 12:
            return
        self.pins()
        if len(self.iover) < len(self.c.int_inputs) or not self.mixed():
            return
        with np.errstate(all="ignore"):
            try:
                if self.sync().any():
                    return
            except BAD:
                self.off = True
                return
        self.refills += 1
        c = self.c
        self.model = {}
        for nm, a in c.inputs.items():
            try:
                self.model[nm] = float(core.z3_num(m, a.z))
            except (OverflowError, ValueError, core.z3.Z3Exception):
                return
        for nm, e in c.int_inputs.items():
            v = m.eval(e, model_completion=True)
            self.model[nm] = v.as_long()
        self.base = {}
        self.memo = {}
        self.alive = np.ones(N, dtype=bool)
        self.done = 0

    def witness(self, n):
        """a valuation of the path satisfies n"""
        if self.off or n[0] != "cmp" and not self.mixed():
            return False
        if self.c.int_inputs:  # used once the integers are fixed
            self.pins()
            if len(self.iover) < len(self.c.int_inputs):
                return False
        with np.errstate(all="ignore"):
            try:
                if not self.sync().any():
                    return False
                return bool((self.holds(n) & self.alive).any())
            except BAD:
                self.off = True
                return False

    def mixed(self):
        """conditions on reals are present (integer queries alone are cheap)"""
        return any(n[0] != "z3" for n in self.c.cons)

    def int_of(self, e):
        """value of an integer expression in some valuation of the path"""
        if not self.mixed() or not self.witness(("const", True)):
            return None
        try:
            return int(min(self.zexpr(e)[self.alive]))
        except (core.NoValue, core.z3.Z3Exception):
            return None

    def valuations(self, n, want=1):
        if not self.witness(n):
            return []
        with np.errstate(all="ignore"):
            ok = np.nonzero(self.holds(n) & self.alive)[0][:want]
            out = []
            for k in ok:
                v = {}
                for nm, a in self.c.inputs.items():
                    v[nm] = core.F(float(self.atom(a.i)[k]))
                for nm in self.c.int_inputs:
                    v[nm] = int(self.int_val(nm)[k])
                out.append(v)
        return out
