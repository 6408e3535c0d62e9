"""Symbolic values and path exploration.

SymReal  exact real number: Laurent polynomial (rational coefficients) over
         atoms.  Atoms are inputs, canonical polynomials raised to a rational
         power below one (this covers division and roots), uninterpreted
         functions of canonical arguments (log, exp, sin, cos) and defined
         values (if-then-else, minimum, solutions of a linear system).
SymInt   integer term.
SymBool  condition; `bool()` of it is a path decision taken by the solver.

Floating point numbers are treated as exact reals; nan and inf stay Python
floats.
"""
from __future__ import annotations

import math
import random
import time
from fractions import Fraction

import mpmath as _mpm
import numpy as _np

from .z3load import z3

F = Fraction
NAN = float("nan")


MP = _mpm.mp.clone()
MP.dps = 60


class PathAbort(BaseException):
    """Path is infeasible or ended deliberately."""


class Unsupported(BaseException):
    """The engine cannot represent an operation (inconclusive)."""


class Inconclusive(BaseException):
    """Budget exhausted (inconclusive)."""


# --------------------------------------------------------------------------
# Context
# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.by_nf = 0
        self.by_lin = 0
        self.by_smt = 0
        self.by_nlsat = 0
        self.feas = 0
        self.forced = 0
        self.branches = 0
        self.witnessed = 0
        self.cross = 0


class Atom:
    __slots__ = ("i", "name", "kind", "sign", "poly", "args", "z", "roots", "nice", "lz", "dfn", "cv")

    def __init__(self, i, name, kind, sign):
        self.i, self.name, self.kind, self.sign = i, name, kind, sign
        self.poly = None
        self.args = None
        self.z = None
        self.roots = {}
        self.nice = None
        self.dfn = None
        self.cv = None


class Ctx:
    """State of one path."""

    cur: "Ctx" = None

    def __init__(self, prefix=(), stats=None, timeout_ms=3000, check_timeout_ms=20000):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []  # (value, has_alternative)
        self.cons = []  # nodes
        self.atoms = []
        self.atom_by_key = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.check_timeout_ms = check_timeout_ms
        self.known = {}
        self.stats = stats or Stats()
        self.dead = None
        self.tokens = None  # values formatted into texts
        self.early = False  # functions of constants become rationals
        self.inputs = {}  # name -> atom / z3 int
        self.int_inputs = {}
        self.subst = []  # (atom index, SymReal)
        self.fresh = 0
        self.pending = []  # definitional nodes
        self.trail = []
        self.added = []  # assumptions and decisions
        self.int_range = {}
        self.subst_gen = 0
        self._pool = None

    @property
    def pool(self):
        if self._pool is None:
            from .pool import Pool

            self._pool = Pool(self)
        return self._pool

    # ---- control -----------------------------------------------------------
    def die(self, exc):
        if self.dead is None:
            self.dead = exc
        raise exc

    def alive(self):
        if self.dead is not None:
            raise self.dead

    # ---- atoms -------------------------------------------------------------
    def new_atom(self, name, kind, sign, key=None):
        a = Atom(len(self.atoms), name, kind, sign)
        self.atoms.append(a)
        if key is not None:
            self.atom_by_key[key] = a
        return a

    def var(self, name, sign="?", kind="var"):
        a = self.new_atom(name, kind, sign)
        a.z = z3.Real(name)
        if sign == "+":
            self.raw(a.z > 0)
        elif sign == "0+":
            self.raw(a.z >= 0)
        elif sign == "-":
            self.raw(a.z < 0)
        elif sign == "!":
            self.raw(a.z != 0)
        return a

    def raw(self, e):
        """definitional z3 fact (always true given the definitions)"""
        self.solver.add(e)

    # ---- constraints -------------------------------------------------------
    def add(self, node):
        self.cons.append(node)
        self.added.append(node)
        self.solver.add(node_z3(node))
        self._learn(node)

    def _learn(self, node):
        k = node[0]
        if k == "and":
            for c in node[1]:
                self._learn(c)
        elif k == "cmp":
            if node[1] == "==":
                self._learn_eq(node[2])
        elif k == "not" and node[1][0] == "or":
            for c in node[1][1]:
                self._learn(nnot(c))

    def _learn_eq(self, p):
        """remember x = q for an input x that occurs linearly in p == 0"""
        p = SymReal(p)
        for i, q in self.subst:
            p = substitute(p, i, q)
        cand = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1:
                a = self.atoms[m[0][0]]
                if a.kind in ("var", "def") and not any(
                    mm != m and any(x == m[0][0] for x, _ in mm) for mm in p.t
                ) and not self._in_pow(p, m[0][0]):
                    if cand is None or m[0][0] > cand[0]:
                        cand = (m[0][0], c, m)
        if cand is None:
            return
        i, c, m = cand
        q = SymReal({mm: -cc / c for mm, cc in p.t.items() if mm != m})
        self.subst = [(j, substitute(r, i, q)) for j, r in self.subst]
        self.subst.append((i, q))
        self.subst_gen += 1

    def _in_pow(self, p, i):
        for m in p.t:
            for x, _ in m:
                a = self.atoms[x]
                if a.kind in ("pow", "fun") and i in atom_vars(a):
                    return True
        return False

    def check_z3(self, extra, timeout=None, refill=False):
        st = self.stats
        st.queries += 1
        t0 = time.time()
        self.solver.push()
        try:
            self.solver.set("timeout", timeout or self.timeout_ms)
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
        st.solver_s += time.time() - t0
        if m is not None and refill:
            self.pool.refill(m)
        return r, m

    def nlsat(self, extra, timeout):
        st = self.stats
        st.queries += 1
        t0 = time.time()
        try:
            s = z3.TryFor(z3.Then("simplify", "solve-eqs", "qfnra-nlsat"), timeout).solver()
            s.add(*self.solver.assertions())
            s.add(*extra)
            r = s.check()
            m = s.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        st.solver_s += time.time() - t0
        return r, m

    def linear(self, nodes, timeout):
        """sound abstraction: every monomial is an independent real"""
        st = self.stats
        st.queries += 1
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", timeout)
        lin = Linear(self)
        for n in self.cons:
            s.add(lin.node(n))
        for n in nodes:
            s.add(lin.node(n))
        for e in lin.facts:
            s.add(e)
        r = s.check()
        st.solver_s += time.time() - t0
        return r

    def feasible(self, e):
        self.stats.feas += 1
        r, _ = self.check_z3([e], refill=True)
        if r == z3.unknown:
            r, _ = self.nlsat([e], self.timeout_ms)
        if r == z3.unknown:
            self.stats.unknown += 1
            return True
        return r == z3.sat

    # ---- decisions ---------------------------------------------------------
    def decide(self, node):
        self.alive()
        if node[0] == "const":
            return node[1]
        key = node_key(node)
        if key in self.known:
            return self.known[key]
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            v, alt = self.prefix[self.pos]
        else:
            node_s = self.simplify_node(node)
            if node_s[0] == "const":
                v, alt = node_s[1], False
            else:
                e = node_z3(node)
                ne = z3.Not(e)
                if not (self.pool.witness(node) or self.feasible(e)):
                    v, alt = False, False
                elif not (self.pool.witness(nnot(node)) or self.feasible(ne)):
                    v, alt = True, False
                else:
                    v, alt = True, True
        self.pos += 1
        self.decisions.append((v, alt))
        n = node if v else nnot(node)
        self.add(n)
        self.known[key] = v
        self.known[node_key(nnot(node))] = not v
        return v

    def simplify_node(self, node):
        if not self.subst:
            return node
        return node_subst(self, node)

    def assume(self, node):
        self.alive()
        if node[0] == "const":
            if not node[1]:
                self.die(PathAbort("assumption is false"))
            return
        self.add(node)
        if self.pool.witness(nconst(True)):
            self.stats.witnessed += 1
            return
        r, _ = self.check_z3([], refill=True)
        if r == z3.unsat:
            self.die(PathAbort("assumption is infeasible"))
        if r == z3.unknown:
            r, _ = self.nlsat([], self.timeout_ms)
            if r == z3.unsat:
                self.die(PathAbort("assumption is infeasible"))

    # ---- obligations -------------------------------------------------------
    def prove(self, node):
        """('proved', how) | ('sat', model) | ('unknown', None)"""
        self.alive()
        st = self.stats
        node = self.simplify_node(node)
        if node[0] == "const" and node[1]:
            st.by_nf += 1
            return "proved", "nf"
        if node[0] == "const" and self.pool.witness(nconst(True)):
            return "sat", None
        neg = nnot(node)
        ne = node_z3(neg)
        if self.linear([neg], self.check_timeout_ms) == z3.unsat:
            st.by_lin += 1
            return "proved", "lin"
        r, m = self.check_z3([ne], self.check_timeout_ms // 2)
        if r == z3.unsat:
            st.by_smt += 1
            return "proved", "smt"
        if r == z3.sat:
            return "sat", m
        r, m = self.nlsat([ne], self.check_timeout_ms)
        if r == z3.unsat:
            st.by_nlsat += 1
            return "proved", "nlsat"
        if r == z3.sat:
            return "sat", m
        r, m = self.check_z3([ne], self.check_timeout_ms)
        if r == z3.unsat:
            st.by_smt += 1
            return "proved", "smt"
        if r == z3.sat:
            return "sat", m
        st.unknown += 1
        return "unknown", None

    # ---- models ------------------------------------------------------------
    def sample(self, node, want=1):
        """valuations of the path (and node) from the witness pool"""
        return self.pool.valuations(node if node is not None else nconst(True), want)

    def models(self, extra, rng, tries=3):
        """yield concrete input valuations of the path (plus extra z3 facts)"""
        s = z3.Solver()
        s.set("timeout", self.check_timeout_ms // 2)
        s.add(*self.solver.assertions())
        s.add(*extra)
        r = s.check()
        base = s.model() if r == z3.sat else None
        if base is None:
            r, base = self.nlsat(extra, self.check_timeout_ms)
            if base is None:
                return
        fallback = self.read(base)
        names = list(self.inputs)
        yielded = 0
        t_end = time.time() + 12
        for _ in range(tries):
            if time.time() > t_end:
                break
            s.push()
            s.set("timeout", 300)
            m = None
            order = names[:]
            rng.shuffle(order)
            budget = 0
            for nm in order:
                a = self.inputs[nm]
                lo, hi = a.nice or ((0.5, 20.0) if a.sign in ("+", "0+") else (-20.0, 20.0))
                lo, hi = F(lo), F(hi)
                ok = False
                for k in range(2):
                    v = lo + (hi - lo) * F(rng.randrange(1, 64), 64)
                    s.push()
                    s.add(a.z == q(v))
                    r = s.check()
                    if r == z3.sat:
                        m = s.model()
                        ok = True
                        break
                    s.pop()
                    budget += r == z3.unknown
                    if budget > 4:
                        break
                if not ok and budget <= 4:
                    s.push()
                    s.add(a.z >= q(lo), a.z <= q(hi))
                    r = s.check()
                    if r == z3.sat:
                        m = s.model()
                    else:
                        s.pop()
                if time.time() > t_end:
                    break
            if m is None:
                r = s.check()
                m = s.model() if r == z3.sat else None
            # drop all nested scopes
            while s.num_scopes() > 0:
                s.pop()
            if m is not None:
                yielded += 1
                yield self.read(m)
        yield fallback

    def read(self, m):
        out = {}
        for nm, a in self.inputs.items():
            out[nm] = z3_num(m, a.z)
        for nm, e in self.int_inputs.items():
            v = m.eval(e, model_completion=True)
            out[nm] = v.as_long()
        return out


def z3_num(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_rational_value(v):
        return F(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return F(v.as_long())
    return F(0)


def q(fr):
    fr = F(fr)
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}" if fr.denominator != 1 else str(fr.numerator))


def ctx() -> Ctx:
    c = Ctx.cur
    if c is None:
        raise RuntimeError("no symbolic context")
    return c


# --------------------------------------------------------------------------
# Conditions (structured, so that both an exact and a linear encoding exist)
# --------------------------------------------------------------------------
def nconst(b):
    return ("const", bool(b))


def nnot(n):
    k = n[0]
    if k == "const":
        return nconst(not n[1])
    if k == "not":
        return n[1]
    if k == "cmp":
        op, p = n[1], n[2]
        if op == "==":
            return ("cmp", "!=", p)
        if op == "!=":
            return ("cmp", "==", p)
        # not p < 0  <=> -p <= 0
        np_ = {m: -c for m, c in p.items()}
        return ("cmp", "<=" if op == "<" else "<", np_)
    return ("not", n)


def nand(ns):
    out = []
    for n in ns:
        if n[0] == "const":
            if not n[1]:
                return nconst(False)
        elif n[0] == "and":
            out.extend(n[1])
        else:
            out.append(n)
    if not out:
        return nconst(True)
    if len(out) == 1:
        return out[0]
    return ("and", out)


def nor(ns):
    return nnot(nand([nnot(n) for n in ns])) if ns else nconst(False)


def _pkey(p):
    return tuple(sorted(p.items()))


def node_key(n):
    k = n[0]
    if k == "const":
        return n
    if k == "cmp":
        return ("cmp", n[1], _pkey(n[2]))
    if k == "not":
        return ("not", node_key(n[1]))
    if k == "and":
        return ("and", tuple(node_key(c) for c in n[1]))
    return ("z3", n[1].get_id(), n[1].sexpr() if n[1].num_args() < 6 else n[1].hash())


def node_z3(n):
    k = n[0]
    if k == "const":
        return z3.BoolVal(n[1])
    if k == "cmp":
        e = poly_z3(n[2])
        return {"<": e < 0, "<=": e <= 0, "==": e == 0, "!=": e != 0}[n[1]]
    if k == "not":
        return z3.Not(node_z3(n[1]))
    if k == "and":
        return z3.And([node_z3(c) for c in n[1]])
    return n[1]


def node_subst(c, n):
    k = n[0]
    if k == "cmp":
        p = SymReal(n[2])
        ch = False
        for i, r in c.subst:
            p2 = substitute(p, i, r)
            if p2 is not p:
                p, ch = p2, True
        if not ch:
            return n
        return cmp_node(p, n[1])
    if k == "not":
        return nnot(node_subst(c, n[1]))
    if k == "and":
        return nand([node_subst(c, x) for x in n[1]])
    return n


class Linear:
    """renders conditions with one fresh real per monomial"""

    def __init__(self, c):
        self.c = c
        self.seen = {}
        self.facts = []

    def mono(self, m):
        v = self.seen.get(m)
        if v is None:
            v = z3.Real("m!%d" % len(self.seen))
            self.seen[m] = v
            s = mono_sign(m)
            if s == 1:
                self.facts.append(v > 0)
            elif s == 0:
                self.facts.append(v >= 0)
        return v

    def node(self, n):
        k = n[0]
        if k == "const":
            return z3.BoolVal(n[1])
        if k == "cmp":
            e = z3.Sum([q(0)] + [q(cf) * self.mono(m) if m else q(cf) for m, cf in n[2].items()])
            return {"<": e < 0, "<=": e <= 0, "==": e == 0, "!=": e != 0}[n[1]]
        if k == "not":
            return z3.Not(self.node(n[1]))
        if k == "and":
            return z3.And([self.node(c) for c in n[1]])
        return n[1]


# --------------------------------------------------------------------------
# Polynomials
# --------------------------------------------------------------------------
def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e != 0:
                out.append((a[0], e))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def _needs_expand(m):
    at = Ctx.cur.atoms
    for a, e in m:
        if e >= 1 and at[a].kind == "pow":
            return True
    return False


def atom_sign(i):
    s = Ctx.cur.atoms[i].sign
    return {"+": 1, "0+": 0, "-": -1}.get(s)


def mono_sign(m):
    """1 positive, 0 nonnegative, -1 negative, None unknown"""
    s = 1
    at = Ctx.cur.atoms
    for a, e in m:
        x = at[a].sign
        if x == "+":
            continue
        if isinstance(e, int) or e.denominator == 1:
            if int(e) % 2 == 0:
                if x not in ("!", "-"):
                    s = 0 if s == 1 else (None if s != 0 else 0)
                    if s is None:
                        return None
                continue
            if x == "-":
                if s == 0:
                    return None
                s = -s
                continue
            if x == "0+":
                if s == -1:
                    return None
                s = 0
                continue
            return None
        if x == "0+":
            if s == -1:
                return None
            s = 0
            continue
        return None
    return s


def poly_sign(t):
    """1: >0, 0: >=0, -1: <0, -2: <=0, 'z': ==0, None unknown"""
    if not t:
        return "z"
    pos = neg = False
    strict = False
    for m, c in t.items():
        s = mono_sign(m)
        if s is None:
            return None
        if (s >= 0) == (c > 0):
            pos = True
        else:
            neg = True
        if s != 0:
            strict = True
        if pos and neg:
            return None
    if pos:
        return 1 if strict else 0
    return -1 if strict else -2


def const_atom(a):
    """value of an atom that depends on no input (mpf with 50 digits) or False"""
    v = a.cv
    if v is None:
        v = False
        try:
            if a.kind == "def" and a.dfn is not None and a.dfn[0] == "c":
                v = _mp(a.dfn[1])
            elif a.kind == "pow":
                v = const_poly(a.poly.t)
            elif a.kind == "fun" and a.name in ("log", "exp", "sin", "cos"):
                xs = [const_poly(x.t) for x in a.args]
                if all(x is not False for x in xs):
                    v = getattr(MP, a.name)(*xs)
        except (ValueError, ArithmeticError):
            v = False
        if v is not False and not isinstance(v, MP.mpf):
            v = False
        a.cv = v
    return v


def _mp(fr):
    return MP.mpf(fr.numerator) / fr.denominator


def const_poly(t):
    at = Ctx.cur.atoms
    s = MP.mpf(0)
    for m, c in t.items():
        p = _mp(F(c))
        for a, e in m:
            v = const_atom(at[a])
            if v is False:
                return False
            p = p * v ** (e if isinstance(e, int) else _mp(e))
        s = s + p
    return s


def round_long(c):
    c = F(c)
    if c.denominator < 10**30:
        return c
    return F(round(c * 10**24), 10**24)


def fold(t):
    """irrational constants replaced by rationals correct to about 1e-40;
    sums that cancel to below 1e-30 of their terms are zero"""
    at = Ctx.cur.atoms
    if Ctx.cur.early:  # long coefficients come from rounded functions
        t = {m: round_long(c) for m, c in t.items()}
        t = {m: c for m, c in t.items() if c}
    if not any(const_atom(at[a]) is not False for m in t for a, _ in m):
        return t
    acc = {}
    for m, c in t.items():
        p = _mp(F(c))
        rest = []
        for a, e in m:
            v = const_atom(at[a])
            if v is False:
                rest.append((a, e))
            else:
                p = p * v ** (e if isinstance(e, int) else _mp(e))
        k = tuple(rest)
        x, mag = acc.get(k, (MP.mpf(0), MP.mpf(0)))
        acc[k] = (x + p, mag + abs(p))
    out = {}
    for m, (x, mag) in acc.items():
        if abs(x) > mag * MP.mpf(10) ** -30:
            out[m] = F(MP.nstr(x, 42))
    return out


def poly_z3(t):
    """polynomial without negative exponents -> z3"""
    t = fold(t)
    if not t:
        return q(0)
    terms = []
    at = Ctx.cur.atoms
    # denominators of fractional exponents
    dens = {}
    for m in t:
        for a, e in m:
            d = 1 if isinstance(e, int) else e.denominator
            dens[a] = math.lcm(dens.get(a, 1), d)
    for m, c in t.items():
        fs = [q(c)] if (c != 1 or not m) else []
        for a, e in m:
            at_ = at[a]
            d = dens[a]
            if d == 1:
                z = atom_z3(at_)
                n = int(e)
            else:
                z = atom_root(at_, d)
                n = int(e * d)
            assert n >= 0, "negative exponent in z3 polynomial"
            for _ in range(n):
                fs.append(z)
        terms.append(fs[0] if len(fs) == 1 else z3.Product(fs))
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def atom_z3(a):
    if a.z is None:
        c = Ctx.cur
        if a.kind == "pow":
            # only ever used with a positive integer power after clearing
            a.z = z3.Real("pw!%d" % a.i)
            num, den = clear_den(a.poly.t)
            c.raw(a.z * poly_z3(den) == poly_z3(num))
        elif a.kind == "fun":
            zs = []
            for x in a.args:
                zs.append(real_z3(x))
            f = z3.Function("fn_" + a.name, *([z3.RealSort()] * (len(zs) + 1)))
            a.z = f(*zs)
            if a.sign == "+":
                c.raw(a.z > 0)
        else:
            raise Unsupported("atom without z3 term")
    return a.z


def atom_root(a, d):
    r = a.roots.get(d)
    if r is None:
        c = Ctx.cur
        r = z3.Real("rt!%d!%d" % (a.i, d))
        a.roots[d] = r
        e = r
        for _ in range(d - 1):
            e = e * r
        if a.kind == "pow":
            num, den = clear_den(a.poly.t)
            c.raw(e * poly_z3(den) == poly_z3(num))
        else:
            c.raw(e == atom_z3(a))
        c.raw(r > 0 if a.sign == "+" else r >= 0)
    return r


def real_z3(x):
    """z3 term of an arbitrary SymReal (introduces a quotient variable)"""
    num, den = clear_den(x.t)
    if len(den) == 1 and () in den:
        return poly_z3({m: cf / den[()] for m, cf in num.items()})
    c = Ctx.cur
    key = ("quot", _pkey(x.t))
    z = c.atom_by_key.get(key)
    if z is None:
        z = z3.Real("qt!%d" % len(c.atom_by_key))
        c.atom_by_key[key] = z
        c.raw(z * poly_z3(den) == poly_z3(num))
        c.raw(poly_z3(den) != 0)
    return z


def clear_den(t, keep_sign=False):
    """(num, den) with num/den == t and no negative exponents.

    With keep_sign, den is positive on the path (even powers where the sign
    of an atom is unknown)."""
    at = Ctx.cur.atoms
    num = dict(t)
    den = {(): F(1)}
    while True:
        mins = {}
        for m in num:
            for a, e in m:
                if e < 0 and e < mins.get(a, 0):
                    mins[a] = e
        if not mins:
            return num, den
        # plain atoms first: one monomial multiplier
        mono = []
        pows = []
        for a, e in sorted(mins.items()):
            k = -math.floor(e)
            if keep_sign and at[a].sign != "+" and k % 2:
                k += 1
            if at[a].kind == "pow":
                pows.append((a, k))
            else:
                mono.append((a, k))
        if mono:
            mm = tuple(mono)
            num = {mono_mul(m, mm): c for m, c in num.items()}
            den = {mono_mul(m, mm): c for m, c in den.items()}
        for a, k in pows:
            P = at[a].poly.t
            # multiply each term by P^k, using a^-j * P^k = P^(k-j)
            powers = [{(): F(1)}]
            for _ in range(k):
                powers.append(pmul(powers[-1], P))
            out = {}
            for m, c in num.items():
                e = 0
                rest = []
                for x in m:
                    if x[0] == a:
                        e = x[1]
                    else:
                        rest.append(x)
                tot = e + k
                ip = math.floor(tot)
                fp = tot - ip
                if fp:
                    rest.append((a, fp))
                    rest.sort()
                padd_into(out, pmul(powers_get(powers, P, ip), {tuple(rest): c}))
            num = out
            den = pmul(den, powers[k])


def powers_get(powers, P, n):
    while len(powers) <= n:
        powers.append(pmul(powers[-1], P))
    return powers[n]


def padd_into(out, t):
    for m, c in t.items():
        v = out.get(m)
        if v is None:
            out[m] = c
        else:
            v = v + c
            if v == 0:
                del out[m]
            else:
                out[m] = v


def pmul(t1, t2):
    out = {}
    exp = None
    for m1, c1 in t1.items():
        for m2, c2 in t2.items():
            m = mono_mul(m1, m2)
            if m and _needs_expand(m):
                if exp is None:
                    exp = []
                exp.append((m, c1 * c2))
                continue
            v = out.get(m)
            if v is None:
                out[m] = c1 * c2
            else:
                v = v + c1 * c2
                if v == 0:
                    del out[m]
                else:
                    out[m] = v
    if exp:
        at = Ctx.cur.atoms
        for m, c in exp:
            rest, fac = [], []
            for a, e in m:
                if e >= 1 and at[a].kind == "pow":
                    n = math.floor(e)
                    fac.append((a, n))
                    if e - n:
                        rest.append((a, e - n))
                else:
                    rest.append((a, e))
            t = {tuple(rest): c}
            for a, n in fac:
                for _ in range(n):
                    t = pmul(t, at[a].poly.t)
            padd_into(out, t)
    if len(out) > 60000:
        ctx().die(Inconclusive("polynomial too large"))
    return out


def atom_vars(a, _memo=None):
    s = set()
    if a.kind == "pow":
        for m in a.poly.t:
            for x, _ in m:
                s.add(x)
                s |= atom_vars(Ctx.cur.atoms[x])
    elif a.kind == "fun":
        for y in a.args:
            for m in y.t:
                for x, _ in m:
                    s.add(x)
                    s |= atom_vars(Ctx.cur.atoms[x])
    return s


def substitute(p, i, r):
    """replace atom i by r in p"""
    at = Ctx.cur.atoms
    hit = False
    for m in p.t:
        for x, _ in m:
            if x == i or (at[x].kind in ("pow", "fun") and i in atom_vars(at[x])):
                hit = True
                break
        if hit:
            break
    if not hit:
        return p
    try:
        out = SymReal({})
        for m, c in p.t.items():
            acc = SymReal({(): c})
            for x, e in m:
                if x == i:
                    b = r
                elif at[x].kind == "pow" and i in atom_vars(at[x]):
                    b = substitute(at[x].poly, i, r)
                elif at[x].kind == "fun" and i in atom_vars(at[x]):
                    b = fun_atom(at[x].name, [substitute(y, i, r) for y in at[x].args], at[x].sign)
                else:
                    acc = acc * SymReal({((x, e),): F(1)})
                    continue
                if e != 1 and not b.t:
                    return p
                f = b.pow_q(e, nofork=True)
                if f is None:
                    return p
                acc = acc * f
            out = out + acc
        return out
    except ZeroDivisionError:
        return p


def fun_atom(name, args, sign="?"):
    c = ctx()
    key = ("fun", name, tuple(_pkey(x.t) for x in args))
    a = c.atom_by_key.get(key)
    if a is None:
        a = c.new_atom(name, "fun", sign, key)
        a.args = list(args)
    return SymReal({((a.i, 1),): F(1)})


def to_frac(x):
    if isinstance(x, F):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return F(int(x))
    if isinstance(x, (int, _np.integer)):
        return F(int(x))
    return F(float(x))


def _special(x):
    """nan/inf python or numpy floats"""
    return isinstance(x, (float, _np.floating)) and not math.isfinite(x)


def lift(x):
    """number -> SymReal, or None when x is not a number"""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return x.to_real()
    if isinstance(x, SymBool):
        return SymReal.const(1 if bool(x) else 0)
    if isinstance(x, (int, float, F, _np.integer, _np.floating, _np.bool_)):
        if _special(x):
            return float(x)
        return SymReal.const(x)
    if isinstance(x, _np.ndarray) and x.shape == ():
        return lift(x.item())
    r = getattr(x, "_as_real", None)
    if r is not None:
        return r
    return None


class SymReal:
    __slots__ = ("t", "_h")
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    @staticmethod
    def const(x):
        f = to_frac(x)
        return SymReal({(): f} if f else {})

    # -- basics
    @property
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def cval(self):
        return self.t.get((), F(0))

    def _bin(self, o):
        if isinstance(o, SymReal):
            return o
        if isinstance(o, _np.ndarray) and o.shape != ():
            return None
        return lift(o)

    def __add__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        if not o.t:
            return self
        if not self.t:
            return o
        out = dict(self.t)
        padd_into(out, o.t)
        return SymReal(out)

    __radd__ = __add__

    def __neg__(self):
        return SymReal({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return -o
        if not o.t:
            return self
        out = dict(self.t)
        padd_into(out, {m: -c for m, c in o.t.items()})
        return SymReal(out)

    def __rsub__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        return o - self

    def __mul__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return _inf_mul(self, o)
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(b) == 1 and () in b:
            c = b[()]
            if c == 1:
                return self
            return SymReal({m: x * c for m, x in a.items()})
        if len(a) == 1 and () in a:
            c = a[()]
            if c == 1:
                return o
            return SymReal({m: x * c for m, x in b.items()})
        return SymReal(pmul(a, b))

    __rmul__ = __mul__

    def nonzero_or_fork(self):
        """True when the value is non-zero on this path (may fork)"""
        if not self.t:
            return False
        n = cmp_node(self, "!=")
        return ctx().decide(n) if n[0] != "const" else n[1]

    def inv(self):
        return self.pow_q(-1)

    def pow_q(self, e, nofork=False):
        """self ** e for rational e; value is assumed to be in the domain"""
        e = F(e)
        if e == 0:
            return ONE
        if e.denominator == 1:
            e = int(e)
            if e > 0:
                out = self
                for _ in range(e - 1):
                    out = out * self
                return out
        if not self.t:
            if e > 0:
                return ZERO
            raise ZeroDivisionError
        if self.is_const:
            c = self.cval()
            if isinstance(e, int):
                return SymReal.const(c**e)
            r = _rat_root(c, e)
            if r is not None:
                return SymReal.const(r)
            return _const_pow(c, e)
        t = self.t
        at = Ctx.cur.atoms
        if len(t) == 1:
            (m, c), = t.items()
            if isinstance(e, int) or all(at[a].sign in ("+", "0+") for a, _ in m):
                cc = SymReal.const(c)
                cp = cc.pow_q(e) if c != 1 else ONE
                mm = tuple((a, _n(x * e)) for a, x in m)
                return cp * SymReal(pmul({mm: F(1)}, {(): F(1)}))
        # content
        mins = None
        for m in t:
            d = dict(m)
            if mins is None:
                mins = d
            else:
                for a in list(mins):
                    if a in d:
                        if d[a] < mins[a]:
                            mins[a] = d[a]
                    elif mins[a] > 0:
                        del mins[a]
                for a, x in d.items():
                    if a not in mins and x < 0:
                        mins[a] = x
        content = tuple(sorted((a, x) for a, x in mins.items() if x != 0))
        if content and not isinstance(e, int):
            content = tuple((a, x) for a, x in content if at[a].sign == "+")
        if content:
            ic = tuple((a, -x) for a, x in content)
            P = SymReal(pmul(t, {ic: F(1)}))
            return SymReal({content: F(1)}).pow_q(e, nofork) * P.pow_q(e, nofork)
        lead = max(t)
        lc = t[lead]
        if not isinstance(e, int):
            lc = abs(lc)
        if lc != 1:
            P = SymReal({m: c / lc for m, c in t.items()})
            return SymReal.const(lc).pow_q(e) * P.pow_q(e, nofork)
        key = ("pow", _pkey(t))
        a = Ctx.cur.atom_by_key.get(key)
        if a is None:
            s = poly_sign(t)
            a = ctx().new_atom("pow", "pow", {1: "+", -1: "-", 0: "0+"}.get(s, "?"), key)
            a.poly = self
        if not isinstance(e, int) and a.sign == "?":
            a.sign = "+" if e < 0 else "0+"
        elif e < 0 and a.sign == "0+":
            a.sign = "+"
        elif e < 0 and a.sign == "?":
            a.sign = "!"
        return SymReal({((a.i, _n(e)),): F(1)})

    def __truediv__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return NAN if math.isnan(o) else ZERO
        return rdiv(self, o)

    def __rtruediv__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return _inf_mul(self, o)
        return rdiv(o, self)

    def __pow__(self, o):
        return rpow(self, o)

    def __rpow__(self, o):
        return rpow(lift(o), self)

    def __floordiv__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        d = self / o
        return d.floor()

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        d = self // o
        return self - d * o

    def __rmod__(self, o):
        return lift(o) % self

    def __divmod__(self, o):
        d = self // o
        return d, self - d * o

    def floor(self):
        if self.is_const:
            return SymReal.const(math.floor(self.cval()))
        return self._round("floor")

    def ceil(self):
        if self.is_const:
            return SymReal.const(math.ceil(self.cval()))
        return -((-self).floor())

    def _round(self, how):
        c = ctx()
        key = (how, _pkey(self.t))
        a = c.atom_by_key.get(key)
        if a is None:
            c.fresh += 1
            zi = z3.Int("fl!%d" % c.fresh)
            a = c.new_atom("fl%d" % c.fresh, "def", "?", key)
            a.z = z3.ToReal(zi)
            a.dfn = ("fl", self)
            v = real_z3(self)
            c.raw(a.z <= v)
            c.raw(v < a.z + 1)
        return SymReal({((a.i, 1),): F(1)})

    def __round__(self, n=None):
        if self.is_const:
            return SymReal.const(round(self.cval(), n) if n is not None else round(self.cval()))
        s = F(10) ** (n or 0)
        return (self * s + F(1, 2)).floor() / s

    def __floor__(self):
        return int(self.floor())

    def __ceil__(self):
        return int(self.ceil())

    def __trunc__(self):
        return int(self)

    def __abs__(self):
        s = poly_sign(self.t)
        if s in (1, 0, "z"):
            return self
        if s in (-1, -2):
            return -self
        if ctx().decide(cmp_node(self, "<")):
            return -self
        return self

    def fabs(self):
        return abs(self)

    # -- comparisons
    def _cmp(self, o, op):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if math.isnan(o):
                return SymBool(nconst(op == "!="))
            big = o > 0
            return SymBool(nconst({"<": big, "<=": big, "==": False, "!=": True, ">": not big, ">=": not big}[op]))
        if op in ("<", "<=", "==", "!="):
            return SymBool(cmp_node(self - o, op))
        return SymBool(cmp_node(o - self, "<" if op == ">" else "<="))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented and not isinstance(o, _np.ndarray) else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented and not isinstance(o, _np.ndarray) else r

    def __hash__(self):
        if self.is_const:
            c = self.cval()
            return hash(c)
        return hash(frozenset(self.t.items()))

    def __bool__(self):
        if self.is_const:
            return bool(self.t)
        return bool(SymBool(cmp_node(self, "!=")))

    # -- conversions
    def __float__(self):
        if self.is_const:
            return float(self.cval())
        ctx().die(Unsupported("float() of a symbolic value"))

    def __int__(self):
        if self.is_const:
            return int(self.cval())
        ctx().die(Unsupported("int() of a symbolic value"))

    def __index__(self):
        if self.is_const and self.cval().denominator == 1:
            # floats are not indices; mirror Python
            raise TypeError("'float' object cannot be interpreted as an integer")
        raise TypeError("'float' object cannot be interpreted as an integer")

    def is_integer(self):
        if self.is_const:
            return self.cval().denominator == 1
        ctx().die(Unsupported("is_integer"))

    def item(self):
        return self

    def astype(self, *a, **k):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def flatten(self):
        return _np.array([self], dtype=object)

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    @property
    def dtype(self):
        return _np.dtype("float64")

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def max(self, *a, **k):
        return self

    min = sum = mean = max

    def any(self, *a, **k):
        return bool(self)

    all = any

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (SymReal, (self.t,))

    def __repr__(self):
        return poly_str(self.t)

    def __str__(self):
        if self.is_const and self.cval().denominator != 1:
            return repr(float(self.cval()))
        return poly_str(self.t)

    def __format__(self, spec):
        c = Ctx.cur
        if c is not None and c.tokens is not None:
            c.tokens.append((self, spec))
            return "\x01%d\x02" % (len(c.tokens) - 1)
        return str(self)

    # -- functions (numpy object ufuncs call these by name)
    def sqrt(self):
        return rpow(self, F(1, 2))

    def square(self):
        return self * self

    def cbrt(self):
        return rpow(self, F(1, 3))

    def log(self):
        return flog(self)

    def log10(self):
        return flog(self) / flog(SymReal.const(10))

    def log2(self):
        return flog(self) / flog(SymReal.const(2))

    def log1p(self):
        return flog(self + 1)

    def exp(self):
        return fexp(self)

    def expm1(self):
        return fexp(self) - 1

    def sin(self):
        return ftrig("sin", self)

    def cos(self):
        return ftrig("cos", self)

    def tan(self):
        return ftrig("sin", self) / ftrig("cos", self)

    def reciprocal(self):
        return ONE / self

    def rint(self):
        return round(self)

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def sign(self):
        if self > 0:
            return ONE
        if self < 0:
            return -ONE
        return ZERO


def _n(e):
    if isinstance(e, F) and e.denominator == 1:
        return int(e)
    return e


ZERO = SymReal({})
ONE = SymReal({(): F(1)})


def poly_str(t):
    if not t:
        return "0"
    at = Ctx.cur.atoms if Ctx.cur else []
    parts = []
    for m, c in sorted(t.items()):
        s = []
        if c != 1 or not m:
            s.append(str(c) if c.denominator < 10**6 else repr(float(c)))
        for a, e in m:
            nm = at[a].name if a < len(at) else "a%d" % a
            if a < len(at) and at[a].kind == "pow":
                nm = "(" + poly_str(at[a].poly.t) + ")"
            elif a < len(at) and at[a].kind == "fun":
                nm = at[a].name + "(" + ", ".join(poly_str(x.t) for x in at[a].args) + ")"
            s.append(nm if e == 1 else f"{nm}^{e}")
        parts.append("*".join(s))
    r = " + ".join(parts)
    return r if len(r) < 400 else r[:400] + "..."


def _inf_mul(x, o):
    if math.isnan(o):
        return NAN
    s = poly_sign(x.t)
    if s == 1:
        return o
    if s == -1:
        return -o
    ctx().die(Unsupported("infinity times symbolic value"))


def rdiv(a, b):
    """float division (numpy semantics on a zero divisor)"""
    if not b.nonzero_or_fork():
        if not a.t:
            return NAN
        if a.is_const:
            return math.copysign(math.inf, a.cval())
        if ctx().decide(cmp_node(a, "==")):
            return NAN
        return math.inf if ctx().decide(nnot(cmp_node(a, "<="))) else -math.inf
    if not a.t:
        return ZERO
    if len(a.t) == len(b.t) > 1:
        m = next(iter(b.t))
        r = a.t.get(m)
        if r is not None:
            r = r / b.t[m]
            if all(a.t.get(k) == r * v for k, v in b.t.items()):
                return SymReal.const(r)
    return a * b.inv()


def _rat_root(c, e):
    """c ** e when rational"""
    if c < 0:
        return None
    n, d = e.numerator, e.denominator

    def iroot(x):
        r = round(x ** (1.0 / d)) if x < 2**52 else int(round(x ** (1.0 / d)))
        for k in (r - 1, r, r + 1):
            if k >= 0 and k**d == x:
                return k
        return None

    a, b = iroot(c.numerator), iroot(c.denominator)
    if a is None or b is None:
        return None
    return F(a, b) ** n


def _const_pow(c, e):
    """positive irrational constant power: product of prime-free pow atoms"""
    x = ctx()
    key = ("cpow", c)
    a = x.atom_by_key.get(key)
    if a is None:
        a = x.new_atom("c%s" % c, "def", "+", key)
        a.dfn = ("c", c)
        a.z = q(c)
    ip = math.floor(e)
    fp = e - ip
    base = SymReal({((a.i, _n(fp)),): F(1)}) if fp else ONE
    return base * SymReal.const(c**ip)


def rpow(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, SymReal) and b.is_const:
            return a ** float(b.cval())
        return NAN
    if not b.is_const:
        ctx().die(Unsupported("symbolic exponent"))
    e = b.cval()
    if e.denominator > 64:
        # decimal exponents such as 0.333 are kept as they are up to this size
        ctx().die(Unsupported("exponent %s" % e))
    if e.denominator == 1:
        if e < 0:
            return rdiv(ONE, a.pow_q(-e))
        return a.pow_q(e)
    if e < 0:
        if not a.nonzero_or_fork():
            return math.inf
    # negative base of a fractional power is nan
    s = poly_sign(a.t)
    if s in (-1,):
        return NAN
    if s is None and ctx().decide(cmp_node(a, "<")):
        return NAN
    if s == -2:
        if ctx().decide(cmp_node(a, "!=")):
            return NAN
        return ZERO
    if len(a.t) == 1 and not a.is_const:
        # sqrt(x**2) is |x|
        (m, c), = a.t.items()
        at = Ctx.cur.atoms
        if any(at[i].sign not in ("+", "0+") for i, _ in m):
            acc = SymReal.const(c).pow_q(e)
            for i, x in m:
                if at[i].sign in ("+", "0+"):
                    acc = acc * SymReal({((i, 1),): F(1)}).pow_q(F(x) * e)
                elif F(x).denominator == 1 and int(x) % 2 == 0:
                    acc = acc * abs(SymReal({((i, 1),): F(1)})).pow_q(F(x) * e)
                else:
                    acc = None
                    break
            if acc is not None:
                return acc
    return a.pow_q(e)


def flog(x):
    x = lift(x)
    if isinstance(x, float):
        return math.log(x) if x > 0 else NAN
    if not x.t:
        return -math.inf
    if x.is_const and x.cval() == 1:
        return ZERO
    s = poly_sign(x.t)
    if s != 1:
        if s in (-1,) or not ctx().decide(nnot(cmp_node(x, "<="))):
            return NAN
    c = ctx()
    n0 = len(c.atoms)
    r = fun_atom("log", [x])
    if len(c.atoms) > n0:
        a = c.atoms[-1]
        v = const_atom(a)
        if v is not False and v != 0:
            a.sign = "+" if v > 0 else "-"
    return r


def fexp(x):
    x = lift(x)
    if isinstance(x, float):
        return x if x > 0 or math.isnan(x) else ZERO
    if not x.t:
        return ONE
    if ctx().early and x.is_const:
        return early_value("exp", x)
    return fun_atom("exp", [x], "+")


def early_value(name, x):
    """function of a constant as a rational correct to 1e-24 (on request)"""
    with MP.workdps(90):
        v = getattr(MP, name)(_mp(F(x.cval())))
        return lift(F(int(MP.nint(v * MP.mpf(10) ** 24)), 10**24))


_PI = F(math.pi)


def ftrig(name, x):
    x = lift(x)
    if isinstance(x, float):
        return NAN
    if not x.t:
        return ZERO if name == "sin" else ONE
    if x.is_const:  # np.pi stands for the number
        q = x.cval() / _PI
        if q.denominator == 1 and name == "sin":
            return ZERO
        if q.denominator == 1:
            return ONE if q.numerator % 2 == 0 else -ONE
    c = ctx()
    if c.early and x.is_const:
        return early_value(name, x)
    n0 = len(c.atoms)
    r = fun_atom(name, [x])
    if len(c.atoms) > n0:
        z = atom_z3(c.atoms[-1])
        c.raw(z <= 1)
        c.raw(z >= -1)
    return r


def cmp_node(p, op):
    """structured condition  p op 0  for op in < <= == !="""
    t = p.t
    s = poly_sign(t)
    if s is not None:
        r = _decide_sign(s, op)
        if r is not None:
            return nconst(r)
    t = fold(t)
    num, _ = clear_den(t, keep_sign=True)
    if not num:
        return nconst(op in ("==", "<="))
    # drop common factors of known sign
    at = Ctx.cur.atoms
    common = None
    for m in num:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
        if not common:
            break
    if common:
        drop = []
        for a, e in common.items():
            sg = at[a].sign
            if sg == "+" or (sg in ("!", "-") and op in ("==", "!=")):
                drop.append((a, -e))
            elif sg in ("!", "-") and F(e).denominator == 1 and e >= 2:
                drop.append((a, -(int(e) - int(e) % 2)))
        if drop:
            mm = tuple(sorted(drop))
            num = {mono_mul(m, mm): c for m, c in num.items()}
    lead = abs(num[max(num)])
    if op in ("==", "!="):
        lead = num[max(num)]
    if lead != 1:
        num = {m: c / lead for m, c in num.items()}
    s = poly_sign(num)
    if s is not None:
        r = _decide_sign(s, op)
        if r is not None:
            return nconst(r)
    return ("cmp", op, num)


def _decide_sign(s, op):
    if s == "z":
        return op in ("==", "<=")
    if s == 1:
        return op == "!="
    if s == -1:
        return op in ("<", "<=", "!=")
    if s == 0:
        if op == "<":
            return False
    if s == -2:
        if op == "<=":
            return True
    return None


# --------------------------------------------------------------------------
class SymBool:
    __slots__ = ("n",)
    __array_priority__ = 1000

    def __init__(self, n):
        self.n = n

    @staticmethod
    def of(x):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, (SymReal, SymInt)):
            return x != 0
        if isinstance(x, float) and math.isnan(x):
            return SymBool(nconst(True))
        return SymBool(nconst(bool(x)))

    def __bool__(self):
        n = self.n
        if n[0] == "const":
            return n[1]
        return ctx().decide(n)

    def __and__(self, o):
        return SymBool(nand([self.n, SymBool.of(o).n]))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(nor([self.n, SymBool.of(o).n]))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(nnot(self.n))

    def logical_not(self):
        return SymBool(nnot(self.n))

    def __xor__(self, o):
        o = SymBool.of(o)
        return (self & ~o) | (~self & o)

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, _np.bool_)):
            return ~(self ^ o)
        if isinstance(o, (int, float)):
            return self if o == 1 else (~self if o == 0 else False)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def _num(self):
        return int(bool(self))

    def __add__(self, o):
        return self._num() + (o._num() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - (o._num() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        if isinstance(o, SymBool):
            return self & o
        return self._num() * o

    __rmul__ = __mul__

    def any(self, *a, **k):
        return self

    all = any

    def item(self):
        return self

    def __repr__(self):
        n = self.n
        return str(n[1]) if n[0] == "const" else "<cond>"

    def __deepcopy__(self, memo):
        return self


TRUE = SymBool(nconst(True))
FALSE = SymBool(nconst(False))


# --------------------------------------------------------------------------
class SymInt:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    @staticmethod
    def mk(e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        return SymInt(e)

    def to_real(self):
        c = ctx()
        key = ("i2r", self.e.get_id())
        a = c.atom_by_key.get(key)
        if a is None:
            a = c.new_atom("int", "def", "?", key)
            a.z = z3.ToReal(self.e)
            a.dfn = ("int", self.e)
            c.atom_by_key[("keep", self.e.get_id())] = self.e
        return SymReal({((a.i, 1),): F(1)})

    def _o(self, o):
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, (bool, _np.bool_)):
            return z3.IntVal(int(o))
        if isinstance(o, (int, _np.integer)):
            return z3.IntVal(int(o))
        return None

    def _ar(self, o, f, name):
        z = self._o(o)
        if z is None:
            if isinstance(o, (float, SymReal, F, _np.floating)):
                return getattr(self.to_real(), name)(o)
            return NotImplemented
        return SymInt.mk(f(z))

    def __add__(self, o):
        return self._ar(o, lambda z: self.e + z, "__add__")

    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda z: self.e - z, "__sub__")

    def __rsub__(self, o):
        return self._ar(o, lambda z: z - self.e, "__rsub__")

    def __mul__(self, o):
        return self._ar(o, lambda z: self.e * z, "__mul__")

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt.mk(-self.e)

    def __pos__(self):
        return self

    def __floordiv__(self, o):
        # z3 div is floor division for a positive divisor
        z = self._o(o)
        if z is None or not (z3.is_int_value(z) and z.as_long() > 0):
            return self.realize() // (o.realize() if isinstance(o, SymInt) else o)
        return SymInt.mk(self.e / z)

    def __mod__(self, o):
        z = self._o(o)
        if z is None or not (z3.is_int_value(z) and z.as_long() > 0):
            return self.realize() % (o.realize() if isinstance(o, SymInt) else o)
        return SymInt.mk(self.e % z)

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // self.realize()

    def __rmod__(self, o):
        return o % self.realize()

    def __truediv__(self, o):
        return self.to_real() / o

    def __rtruediv__(self, o):
        return o / self.to_real()

    def __pow__(self, o):
        return self.realize() ** o

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def _c(self, o, f, name):
        z = self._o(o)
        if z is None:
            if isinstance(o, (float, SymReal, F, _np.floating)):
                return getattr(self.to_real(), name)(o)
            return NotImplemented
        e = z3.simplify(f(z))
        if z3.is_true(e):
            return TRUE
        if z3.is_false(e):
            return FALSE
        return SymBool(("z3", e))

    def __lt__(self, o):
        return self._c(o, lambda z: self.e < z, "__lt__")

    def __le__(self, o):
        return self._c(o, lambda z: self.e <= z, "__le__")

    def __gt__(self, o):
        return self._c(o, lambda z: self.e > z, "__gt__")

    def __ge__(self, o):
        return self._c(o, lambda z: self.e >= z, "__ge__")

    def __eq__(self, o):
        r = self._c(o, lambda z: self.e == z, "__eq__")
        return False if r is NotImplemented and not isinstance(o, _np.ndarray) else r

    def __ne__(self, o):
        r = self._c(o, lambda z: self.e != z, "__ne__")
        return True if r is NotImplemented and not isinstance(o, _np.ndarray) else r

    def realize(self):
        c = ctx()
        c.alive()
        if z3.is_int_value(self.e):
            return self.e.as_long()
        # deterministic enumeration: smallest feasible value first
        key = ("real", self.e.get_id())
        v = c.known.get(key)
        if v is not None:
            return v
        k = None
        for _ in range(400):
            if c.pos < len(c.prefix):
                # follow the recorded decisions; value is stored in the prefix
                v, alt = c.prefix[c.pos]
                tag = v
                assert isinstance(tag, tuple)
                taken, val = tag
            else:
                val = c.pool.int_of(self.e)
                if val is None:
                    r, m = c.check_z3([])
                    if r != z3.sat:
                        c.die(Unsupported("cannot realize an integer"))
                    val = m.eval(self.e, model_completion=True).as_long()
                ne = self.e != val
                alt = c.pool.witness(("z3", ne)) or c.feasible(ne)
                taken = True
                tag = (True, val)
            c.pos += 1
            c.stats.branches += 1
            c.decisions.append((tag, alt))
            if taken:
                c.add(("z3", self.e == val))
                c.known[key] = val
                return val
            c.add(("z3", self.e != val))
        c.die(Inconclusive("too many values of a symbolic integer"))

    def __index__(self):
        return self.realize()

    __int__ = __index__

    def __float__(self):
        return float(self.realize())

    def __hash__(self):
        return hash(self.realize())

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return str(self.realize())

    __str__ = __repr__

    def __format__(self, spec):
        return format(self.realize(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self


# --------------------------------------------------------------------------
# defined values
# --------------------------------------------------------------------------
def ite(cond, a, b):
    """a if cond else b without forking (nan operands fork)"""
    cond = SymBool.of(cond)
    if cond.n[0] == "const":
        return a if cond.n[1] else b
    k = Ctx.cur.known.get(node_key(cond.n))
    if k is not None:
        return a if k else b
    la, lb = lift(a), lift(b)
    if not isinstance(la, SymReal) or not isinstance(lb, SymReal):
        return a if bool(cond) else b
    if la.t == lb.t:
        return la
    c = ctx()
    c.fresh += 1
    sa, sb = poly_sign(la.t), poly_sign(lb.t)
    sign = "?"
    if sa == 1 and sb == 1:
        sign = "+"
    elif sa in (0, 1, "z") and sb in (0, 1, "z"):
        sign = "0+"
    at = c.var("ite!%d" % c.fresh, sign, "def")
    at.dfn = ("ite", cond.n, la, lb)
    r = SymReal({((at.i, 1),): F(1)})
    ca, cb = cmp_node(r - la, "=="), cmp_node(r - lb, "==")
    n1 = nor([nnot(cond.n), ca])
    n2 = nor([cond.n, cb])
    c.cons.append(n1)
    c.cons.append(n2)
    c.raw(node_z3(n1))
    c.raw(node_z3(n2))
    return r


def extremum(vals, low=True):
    """min/max of a list of values as a defined value"""
    vals = [lift(v) for v in vals]
    if any(isinstance(v, float) and math.isnan(v) for v in vals):
        return NAN
    inf = [v for v in vals if isinstance(v, float)]
    vals = [v for v in vals if isinstance(v, SymReal)]
    for v in inf:
        if (v < 0) == low:
            return v
    if not vals:
        return inf[0]
    uniq = []
    for v in vals:
        if not any(v.t == u.t for u in uniq):
            uniq.append(v)
    # drop entries that are dominated by sign inference
    keep = []
    for i, v in enumerate(uniq):
        dom = False
        for j, u in enumerate(uniq):
            if i == j:
                continue
            n = cmp_node(u - v, "<=") if low else cmp_node(v - u, "<=")
            if n == ("const", True):
                n2 = cmp_node(v - u, "<=") if low else cmp_node(u - v, "<=")
                if n2 != ("const", True) or j < i:
                    dom = True
                    break
        if not dom:
            keep.append(v)
    uniq = keep
    if len(uniq) == 1:
        return uniq[0]
    c = ctx()
    if c.early:  # one value that no other exceeds on this path
        for v in uniq:
            ns = [cmp_node((v - u) if low else (u - v), "<=") for u in uniq if u is not v]
            if c.check_z3([node_z3(nnot(nand(ns)))])[0] == z3.unsat:
                return v
    key = ("ext", low, frozenset(_pkey(u.t) for u in uniq))
    a = c.atom_by_key.get(key)
    if a is None:
        c.fresh += 1
        ss = [poly_sign(u.t) for u in uniq]
        sign = "+" if all(s == 1 for s in ss) else ("0+" if all(s in (0, 1, "z") for s in ss) else "?")
        a = c.var(("min!" if low else "max!") + str(c.fresh), sign, "def")
        c.atom_by_key[key] = a
        a.dfn = ("ext", low, uniq)
        r = SymReal({((a.i, 1),): F(1)})
        ns = []
        eqs = []
        for u in uniq:
            ns.append(cmp_node(r - u, "<=") if low else cmp_node(u - r, "<="))
            eqs.append(cmp_node(r - u, "=="))
        ns.append(nor(eqs))
        for n in ns:
            c.cons.append(n)
            c.raw(node_z3(n))
    return SymReal({((a.i, 1),): F(1)})


def linear_solve(A, b):
    """contract of a linear solver: some x with A x = b (A nonsingular)

    A: list of rows of SymReal, b: list of SymReal.  Exact elimination when A
    is constant, otherwise fresh unknowns constrained by the equations."""
    n = len(b)
    A = [[lift(x) for x in r] for r in A]
    b = [lift(x) for x in b]
    if any(isinstance(x, float) for r in A for x in r) or any(isinstance(x, float) for x in b):
        raise ValueError("array must not contain infs or NaNs")
    if all(x.is_const for r in A for x in r):
        M = [[x.cval() for x in r] for r in A]
        rhs = list(b)
        for i in range(n):
            p = next((r for r in range(i, n) if M[r][i] != 0), None)
            if p is None:
                return None
            if p != i:
                M[i], M[p] = M[p], M[i]
                rhs[i], rhs[p] = rhs[p], rhs[i]
            iv = 1 / M[i][i]
            M[i] = [x * iv for x in M[i]]
            rhs[i] = rhs[i] * iv
            for r in range(n):
                if r != i and M[r][i] != 0:
                    f = M[r][i]
                    M[r] = [x - f * y for x, y in zip(M[r], M[i])]
                    rhs[r] = rhs[r] - rhs[i] * f
        return rhs
    c = ctx()
    if n == 1:
        if not A[0][0].nonzero_or_fork():
            return None
        return [b[0] / A[0][0]]
    if n == 2:
        (p, q_), (r, t) = A
        det = p * t - q_ * r
        sd = poly_sign(det.t)
        if sd in (1, -1) and len(det.t) <= 60:
            return [(t * b[0] - q_ * b[1]) / det, (p * b[1] - r * b[0]) / det]
    mkey = ("lin", tuple(tuple(_pkey(x.t) for x in r) for r in A), tuple(_pkey(x.t) for x in b))
    if mkey in c.atom_by_key:
        return list(c.atom_by_key[mkey])
    c.fresh += 1
    k = c.fresh
    xs = []
    c.atom_by_key[mkey] = xs
    grp = {"A": A, "b": b}
    for i in range(n):
        a = c.var("x!%d!%d" % (k, i), "?", "def")
        a.dfn = ("lin", grp, i)
        xs.append(SymReal({((a.i, 1),): F(1)}))
    for r in range(n):
        s = -b[r]
        for j in range(n):
            if A[r][j].t:
                s = s + A[r][j] * xs[j]
        node = cmp_node(s, "==")
        c.cons.append(node)
        c.raw(node_z3(node))
    return list(xs)


# --------------------------------------------------------------------------
# numeric evaluation of a symbolic value under an input valuation
# --------------------------------------------------------------------------
class NoValue(Exception):
    pass


class Evaluator:
    def __init__(self, c, val):
        self.c, self.val, self.memo = c, val, {}
        self.ints = [(c.int_inputs[k], z3.IntVal(int(val[k]))) for k in c.int_inputs if k in val]

    def real(self, x):
        if isinstance(x, SymInt):
            r = z3.simplify(z3.substitute(x.e, *self.ints)) if self.ints else z3.simplify(x.e)
            if not z3.is_int_value(r):
                raise NoValue("int")
            return r.as_long()
        if isinstance(x, SymBool):
            return self.node(x.n)
        if not isinstance(x, SymReal):
            return x
        s = 0.0
        for m, cf in x.t.items():
            p = float(cf)
            for a, e in m:
                p *= self.atom(a) ** float(e) if not isinstance(e, int) else self.atom(a) ** e
            s += p
        return s

    def atom(self, i):
        v = self.memo.get(i)
        if v is not None:
            return v
        a = self.c.atoms[i]
        if a.kind == "var":
            if a.name not in self.val:
                raise NoValue(a.name)
            v = float(self.val[a.name])
        elif a.kind == "pow":
            v = self.real(a.poly)
        elif a.kind == "fun":
            xs = [self.real(y) for y in a.args]
            v = getattr(math, a.name)(*xs)
        elif a.dfn is None:
            raise NoValue(a.name)
        else:
            d = a.dfn
            if d[0] == "ite":
                v = self.real(d[2]) if self.node(d[1]) else self.real(d[3])
            elif d[0] == "ext":
                v = (min if d[1] else max)(self.real(u) for u in d[2])
            elif d[0] == "lin":
                g = d[1]
                key = ("lin", id(g))
                if key not in self.memo:
                    A = _np.array([[self.real(y) for y in r] for r in g["A"]], dtype=float)
                    b = _np.array([self.real(y) for y in g["b"]], dtype=float)
                    self.memo[key] = _np.linalg.solve(A, b)
                v = float(self.memo[key][d[2]])
            elif d[0] == "fl":
                v = float(math.floor(self.real(d[1])))
            elif d[0] == "int":
                v = float(self.real(SymInt(d[1])))
            elif d[0] == "c":
                v = float(d[1])
        self.memo[i] = v
        return v

    def holds(self, n):
        """n holds, clear of rounding"""
        k = n[0]
        if k == "cmp":
            v = mag = 0.0
            for m, cf in n[2].items():
                p = float(cf)
                for a, e in m:
                    p *= self.atom(a) ** float(e) if not isinstance(e, int) else self.atom(a) ** e
                v += p
                mag += abs(p)
            if math.isnan(v):
                return False
            eps = 1e-7 * mag
            return {"<": v < -eps, "<=": v < -eps or mag == 0, "==": abs(v) <= eps, "!=": abs(v) > eps}[n[1]]
        if k == "not":
            m = n[1]
            if m[0] == "cmp":
                return self.holds(nnot(m)) if nnot(m)[0] != "not" else not self.holds(m)
            if m[0] == "and":
                return any(self.holds(nnot(x)) for x in m[1])
            return not self.node(m)
        if k == "and":
            return all(self.holds(x) for x in n[1])
        return self.node(n)

    def node(self, n):
        k = n[0]
        if k == "const":
            return n[1]
        if k == "cmp":
            v = self.real(SymReal(n[2]))
            return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[n[1]]
        if k == "not":
            return not self.node(n[1])
        if k == "and":
            return all(self.node(x) for x in n[1])
        r = z3.simplify(z3.substitute(n[1], *self.ints)) if self.ints else z3.simplify(n[1])
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        raise NoValue("z3")


# --------------------------------------------------------------------------
# numpy arrays of machine numbers combined with a symbolic scalar
# --------------------------------------------------------------------------
def _wrap_array_ops(cls, names):
    import operator

    for n in names:
        f = cls.__dict__.get(n)
        if f is None:
            continue
        base = n.strip("_")
        refl = n[2] == "r" and base not in ("round",)
        opn = base[1:] if refl else base

        def g(self, o, f=f, opn=opn, refl=refl):
            if isinstance(o, _np.ndarray) and o.shape != ():
                from . import npf

                uf = {
                    "add": _np.add, "sub": _np.subtract, "mul": _np.multiply, "truediv": _np.true_divide,
                    "pow": _np.power, "floordiv": _np.floor_divide, "mod": _np.remainder, "lt": _np.less,
                    "le": _np.less_equal, "gt": _np.greater, "ge": _np.greater_equal, "eq": _np.equal,
                    "ne": _np.not_equal, "and": _np.logical_and, "or": _np.logical_or,
                }[opn]
                a = npf.to_obj(o)
                return uf(a, self) if refl else uf(self, a)
            return f(self, o)

        g.__name__ = n
        setattr(cls, n, g)


_ar = ["add", "sub", "mul", "truediv", "pow", "floordiv", "mod"]
_cm = ["lt", "le", "gt", "ge", "eq", "ne"]
_wrap_array_ops(SymReal, ["__%s__" % x for x in _ar + _cm] + ["__r%s__" % x for x in _ar])
_wrap_array_ops(SymInt, ["__%s__" % x for x in _ar + _cm] + ["__r%s__" % x for x in _ar])
_wrap_array_ops(SymBool, ["__and__", "__rand__", "__or__", "__ror__", "__eq__", "__ne__"])
