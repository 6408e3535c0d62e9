"""Boundary conditions: names, ways to set them, persistence."""
from harness.common import *

META = dict(
    bounds="3x1x1, 1x2x1, 1x1x2, 2x2x1, 2x1x2, 2x2x2 interior cells; every boundary cell (a solver variable) including edges and corners; every name of a condition in lower, upper and mixed case; up to 3 steps with conditions set before compilation, after it and between steps; values, pressures and depths symbolic, coefficients concrete (symbolic for the recorded values); names of conditions also on 101x1x1, 9x9x1, 1x1x101 (cell ids of three digits)",
    outside="larger grids; the rate recorded for the latest step while conditions are changed (it is overwritten by the new condition); per-face conditions of corner cells (they have no flow)",
)
NAMES = dict(rate=["rate", "q", "RATE", "Q"], pressure=["pressure", "press", "p", "Pressure", "P"], gradient=["gradient", "grad", "g", "Grad", "G"])
ALL = [(c, n) for c in NAMES for n in NAMES[c]]


def recorded(env, m, shape, b, cond, v, what):
    """what the model stores for a condition set before the first step"""
    s = m.solution
    env.same(f"{what}: condition", m.bdict[b][0], cond)
    env.eq(f"{what}: value", m.bdict[b][1], v)
    o = opposite(shape, b)
    P = s.pressures[0, b] if s is not None else m.init_pressures[0, b]
    Q = s.rates[0, b] if s is not None else m.init_rates[0, b]
    if cond == "pressure":
        env.eq(f"{what}: pressure", P, v)
    else:
        q = env.zero() if o is None else boundary_rate(env, m, shape, b, cond, v, None)[1]
        env.eq(f"{what}: rate", Q, q)


def names(env, shape, cond, when):
    g = grid(env, shape, d="sym", k="sym" if sum(shape) < 6 else "scaled", comp=env.f("0"))
    m = env.rf.models.BlackOil(g, fluid(env, comp=env.f("0")), pi=env.real("pi", nice=(500, 3000)), dt=env.f("1"), dtype="double")
    bs = boundary(shape)
    i = env.int("b", 0, len(bs) - 1)
    b = bs[i.realize() if env.sym else i]
    nm = env.choice("name", NAMES[cond])
    v = bc_value(env, "v", cond)
    if when == "compiled":
        compiled(env, m)
    m.set_boundary(b, nm, v)
    recorded(env, m, shape, b, cond, v, "set")
    env.same("others unset", sorted(m.bdict), [b])
    v2 = bc_value(env, "w", "pressure")
    m.set_boundary(b, "p", v2)
    recorded(env, m, shape, b, "pressure", v2, "changed")
    m.set_boundary(b, nm, v)
    recorded(env, m, shape, b, cond, v, "changed back")
    env.check("unknown conditions are refused", env.raises(lambda: m.set_boundary(b, "flux", v), ValueError))
    env.same("refused condition changes nothing", sorted(m.bdict), [b])
    env.same("kept", m.bdict[b][0], cond)
    if when != "compiled":
        compiled(env, m)
        recorded(env, m, shape, b, cond, v, "compiled")


def base(env, shape, comp, z):
    n = len(cells(shape))
    zz = env.arr([env.real(f"z{i}", nice=(-20, 20)) for i in range(n)]) if z else None
    g = concrete_grid(env, shape, z=zz, comp="0.00001" if comp else "0")
    return g, concrete_fluid(env, comp="0.00002" if comp else "0")


def new(env, gf):
    return env.rf.models.BlackOil(gf[0], gf[1], pi=env.real("pi", nice=(500, 3000)), dt=env.f("2"), dtype="double")


def steps(m, n, vect, sparse=False):
    for _ in range(n):
        m.solution.solve(vectorize=vect, check_MB=False, isolver=None)


def state(env, shape, m):
    for c in interior(shape):
        m.solution.pressures[0, c] = env.real(f"o{c}", nice=(500, 3000))


def compare(env, shape, m1, m2, what, start=0):
    inn = interior(shape)
    t = range(m1.solution.nsteps)
    env.same(f"{what}: steps", m1.solution.nsteps, m2.solution.nsteps)
    for i in t:
        env.eq(f"{what}: pressures", [m1.solution.pressures[i, c] for c in inn], [m2.solution.pressures[i, c] for c in inn], scale=100.0)
        if i >= start:
            env.eq(f"{what}: rates", m1.solution.rates[i], m2.solution.rates[i], scale=10.0)
    for b, (k, v) in m1.bdict.items():
        if k == "pressure":
            env.eq(f"{what}: boundary pressure", [m1.solution.pressures[i, b] for i in t], [m2.solution.pressures[i, b] for i in t], scale=100.0)


def conditions(env, shape, kinds, only=None):
    B = {}
    for i, b in enumerate(boundary(shape)):
        k = kinds[i % len(kinds)]
        if k and (only is None or i % only == 0):
            B[b] = (k, bc_value(env, f"v{b}", k))
    return B


def ways(env, shape, comp, z, kinds, way, vect, sparse):
    """the same conditions set in another way give the same steps"""
    gf = base(env, shape, comp, z)
    B = conditions(env, shape, kinds)
    if not comp:  # some pressure is given
        b = flow_cells(shape)[0]
        B[b] = ("pressure", bc_value(env, "vp", "pressure"))
    m1 = new(env, gf)
    m1.set_boundaries(dict(B))
    compiled(env, m1)
    state(env, shape, m1)
    steps(m1, 2, True)
    m2 = new(env, gf)
    alias = {"rate": "Q", "pressure": "Press", "gradient": "g"}
    if way == "aliases":
        D = {b: (alias[k], v) for b, (k, v) in B.items()}
        m2.set_boundaries(D)
        env.same("caller's dictionary", {b: k for b, (k, v) in D.items()}, {b: alias[k] for b, (k, v) in B.items()})
        compiled(env, m2, sparse)
    elif way == "single":
        for b in reversed(list(B)):
            m2.set_boundary(b, alias[B[b][0]], B[b][1])
        compiled(env, m2, sparse)
    elif way == "after":
        compiled(env, m2, sparse)
        m2.set_boundaries(dict(B))
    elif way == "replace":
        m2.set_boundaries({b: ("pressure", env.f("1234")) for b in boundary(shape)})
        compiled(env, m2, sparse)
        m2.set_boundaries({b: ("rate", env.f("7")) for b in boundary(shape)[::2]})
        m2.set_boundaries(dict(B))
    elif way == "explicit":  # no condition is no flow
        m2.set_boundaries({**{b: ("rate", env.zero()) for b in boundary(shape)}, **B})
        compiled(env, m2, sparse)
    state(env, shape, m2)
    steps(m2, 2, vect)
    compare(env, shape, m1, m2, way)


PRIOR = [("rate", "0"), None, ("pressure", "0"), ("gradient", "0"), ("rate", "3"), ("pressure", "700"), ("gradient", "-1")]


def every(env, shape, comp, z, kind, vect, sparse):
    """set_all_boundaries is a dictionary of all boundaries, whatever was set"""
    gf = base(env, shape, comp, z)
    v = bc_value(env, "v", kind)
    m1, m2 = new(env, gf), new(env, gf)
    m1.set_boundaries({b: (kind, v) for b in boundary(shape)})
    compiled(env, m1)
    if not vect:
        compiled(env, m2, sparse)
    for i, b in enumerate(boundary(shape)):
        k = PRIOR[(i + len(shape)) % len(PRIOR)]
        if k:
            m2.set_boundary(b, k[0], env.f(k[1]))
    m2.set_all_boundaries(NAMES[kind][0 if z else 1], v)
    if vect:
        compiled(env, m2, sparse)
    env.same("all set", sorted(m2.bdict), sorted(boundary(shape)))
    for m in (m1, m2):
        state(env, shape, m)
    steps(m1, 2, True)
    steps(m2, 2, vect)
    compare(env, shape, m1, m2, "all", start=1)  # conditions changed while row 0 is the latest


def hold(env, shape, comp, z, kinds, vect, sparse, change):
    """conditions hold in every later step, until they are changed"""
    gf = base(env, shape, comp, z)
    B = conditions(env, shape, kinds)
    m = new(env, gf)
    m.set_boundaries(dict(B))
    compiled(env, m, sparse)
    state(env, shape, m)
    s = m.solution
    bs = boundary(shape)
    for n in range(3):
        if n == 1 and change:
            i = env.int("b", 0, len(bs) - 1)
            b = bs[i.realize() if env.sym else i]
            B[b] = (change, bc_value(env, "cv", change))
            if n % 2:
                m.set_boundary(b, *B[b])
            else:
                m.set_boundaries(dict(B))
        if n == 2 and change:
            B = {b: B[b] for b in list(B)[::2]}
            m.set_boundaries(dict(B))
        s.solve(vectorize=vect, check_MB=False, isolver=None)
        t = n + 1
        p = {c: s.pressures[t, c] for c in interior(shape)}
        for b in bs:
            k, v = B.get(b, ("rate", env.zero()))
            o = opposite(shape, b)
            env.eq(f"step {t}: rate of a {k} boundary", s.rates[t, b], env.zero() if o is None else boundary_rate(env, m, shape, b, k, v, p)[1], scale=10.0)
            if k == "pressure":
                env.eq(f"step {t}: pressure of the boundary", s.pressures[t, b], v, scale=100.0)
        R = residual(env, m, shape, p, {c: s.pressures[t - 1, c] for c in p}, B, {})
        if comp:
            env.eq(f"step {t}: cells balance", [R[c] for c in p], [env.zero()] * len(p), scale=100.0)
    env.same("history is as long as the steps", s.rates.shape[0], 4)


def refused(env, shape):
    gf = base(env, shape, True, False)
    m = new(env, gf)
    bad = interior(shape) + [-1, len(cells(shape))]
    i = env.int("bad", 0, len(bad) - 1)
    b = bad[i.realize() if env.sym else i]
    env.check("cells which are not boundaries are refused", env.raises(lambda: m.set_boundaries({b: ("rate", env.f("1"))}), AssertionError))
    env.same("nothing set", dict(m.bdict), {})


def obligations(tier):
    out = []
    T = tier == "thorough"
    add = lambda f, b=200, **k: out.append(Obligation(f, k, max_paths=600, budget_s=b))
    S = [(3, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2)]
    if T:
        S += [(5, 1, 1), (3, 3, 1), (3, 2, 2)]
    K = [("pressure", "rate", "gradient"), ("rate", "pressure", None), ("gradient", None, "pressure"), ("pressure",)]
    i = 0
    for sh in S:
        for c in NAMES:
            i += 1
            add(names, shape=sh, cond=c, when="compiled" if i % 2 else "before")
            for comp in (True, False):
                i += 1
                if comp or c == "pressure":
                    add(every, shape=sh, comp=comp, z=bool(i % 3), kind=c, vect=i % 2 > 0, sparse=i % 4 > 1)
        for w in ("aliases", "single", "after", "replace", "explicit"):
            for comp in (True, False):
                i += 1
                add(ways, shape=sh, comp=comp, z=bool(i % 3), kinds=K[i % 4], way=w, vect=i % 2 > 0, sparse=i % 4 > 1)
        for ch in (None, "pressure", "rate", "gradient"):
            i += 1
            add(hold, shape=sh, comp=True, z=bool(i % 3), kinds=K[i % 4], vect=i % 2 > 0, sparse=i % 4 > 1, change=ch)
        add(refused, shape=sh)
    # cell ids of three digits
    for sh in [(101, 1, 1), (9, 9, 1), (1, 1, 101)]:
        for c in NAMES:
            add(names, shape=sh, cond=c, when="compiled" if c == "rate" else "before")
    return out
