"""Compiled solutions: selection, independence, recompiling and refusals."""
from harness.common import *
from harness.p15_time_steps import same_rows, sizes, snap

META = dict(
    bounds="2x1x1, 3x1x1, 1x2x1, 2x2x1 (thorough also 4x1x1, 2x1x2) interior cells; two solutions (dense and sparse) advanced in every order over 3 steps (thorough 4), recompiling after 1 to 2 steps; numerical and analytical (1000 terms) alternating over 2 to 3 runs; every documented spelling of the types and methods; pressures, conditions and targets symbolic, coefficients concrete",
    outside="conditions or wells changed between the steps of different solutions (they belong to the model and take effect in all of them); results of the analytical solution (property P24); larger grids",
)

NAMES = {True: "BlackOil-numerical-FDM-True", False: "BlackOil-numerical-FDM-False"}


def make(env, shape, comp, wells, bcs, z):
    m, B, W = sim(env, shape, comp, z="sym" if z else None, wells=wells, bcs=bcs, verbose=False)
    return m


def state(env, m, name):
    """history of one solution"""
    m.set_solution(name)
    s = snap(env, m)
    s["q"] = {c: m.wells[c].get("q") for c in m.wells}
    s["pwf"] = {c: m.wells[c].get("pwf") for c in m.wells}
    return s


def same(env, shape, a, b, what):
    env.same(f"{what}: steps", (int(a["tstep"]), int(a["nsteps"])), (int(b["tstep"]), int(b["nsteps"])))
    env.same(f"{what}: control", a["control"], b["control"])
    env.same(f"{what}: wells", {c: len(v) for c, v in a["w"].items()}, {c: len(v) for c, v in b["w"].items()})
    same_rows(env, shape, a, b, int(b["nsteps"]), what)


def initial(env, shape, m):
    for c in interior(shape):
        m.solution.pressures[0, c] = env.real(f"o{c}", nice=(500, 3000))


def step(m, how, vect):
    if how:
        m.run(nsteps=1, threading=False, vectorize=vect, check_MB=False, isolver=None)
    else:
        m.solve(threading=False, vectorize=vect, check_MB=False, isolver=None)


def independent(env, shape, comp, wells, bcs, z, vect, order, how):
    """order lists which solution takes the next step; each of them ends as if
    it was the only one"""
    m = make(env, shape, comp, wells, bcs, z)  # dense
    first = m.solution
    m.compile("numerical", "FDM", sparse=True)
    initial(env, shape, m)
    second = m.solution
    env.check("two solutions", first is not second)
    env.same("names", sorted(m.get_solutions()), sorted(NAMES.values()))
    sol = {False: first, True: second}
    done = {False: 0, True: 0}
    for t in order:
        o = (not t)
        before = state(env, m, NAMES[o])
        m.set_solution(NAMES[t])
        env.check("current solution", m.solution is sol[t] and m.compiler.sparse is t)
        step(m, how, vect)
        env.check("current solution", m.solution is sol[t])
        done[t] += 1
        after = state(env, m, NAMES[o])
        env.check("current solution", m.solution is sol[o])
        same(env, shape, before, after, "the other solution stays")
    for t in (False, True):
        alone = make(env, shape, comp, wells, bcs, z)
        for _ in range(done[t]):
            step(alone, how, vect)
        got = state(env, m, NAMES[t])
        sizes(env, shape, m, done[t], "alone")
        b = snap(env, alone)
        same(env, shape, got, b, "as if alone")
        for c in m.wells:
            for k in ("q", "pwf"):
                a1, b1 = m.wells[c].get(k), alone.wells[c].get(k)
                env.same("well values", a1 is None, b1 is None)
                if a1 is not None:
                    env.eq("well values", a1, b1, scale=1000.0)
        df = m.get_df(columns=["time", "cells", "wells"], boundary=True, drop_nan=False, drop_zero=False) if done[t] else None
        if df is not None:
            env.same("table", len(df), done[t] + 1)


def again(env, shape, comp, wells, bcs, z, vect, sparse, n):
    """compiling again starts over from the initial state"""
    m = make(env, shape, comp, wells, bcs, z)
    m.compile("numerical", "FDM", sparse=sparse)
    initial(env, shape, m)
    for _ in range(n):
        step(m, 0, vect)
    old = m.solution
    m.compile("numerical", "FDM", sparse=sparse)
    env.check("new solution", m.solution is not old)
    env.same("registered", m.solutions[NAMES[sparse]] is m.solution, True)
    sizes(env, shape, m, 0, "compiled again")
    for c in interior(shape):
        env.eq("initial pressure", m.solution.pressures[0, c], m.pi, scale=1000.0)
    fresh = make(env, shape, comp, wells, bcs, z)
    env.same("control", {c: m.wells[c]["constrain"] for c in m.wells}, {c: fresh.wells[c]["constrain"] for c in m.wells})
    initial(env, shape, m)
    for _ in range(n):
        step(m, 0, vect)
        step(fresh, 0, vect)
    same(env, shape, snap(env, m), snap(env, fresh), "compiled again")


STYPES = {"numerical": ["n", "num", "numerical", "Numerical", "NUM"]}
FDMS = ["fdm", "FDM", "Fdm", "finite difference method", "Finite-Difference-Method"]
ABSENT = [("numerical", "FVM"), ("numerical", "finite volume method"), ("num", "FEM"), ("n", "finite-element-method"),
          ("analytical", "D1P2"), ("a", "1d3p"), ("ana", "D2P1"), ("analytical", "d2p2"), ("analytical", "D2P3"),
          ("analytical", "3d1p"), ("analytical", "d3p2"), ("analytical", "D3P3"), ("neurical", "PINN"), ("nn", "DeepONet"),
          ("neu", "physics informed neural network")]
UNKNOWN = [("numeric", "FDM"), ("", "FDM"), ("numericals", "FDM"), ("numerical", "FD"), ("numerical", "D1P1"), ("numerical", ""),
           ("numerical", "PINN"), ("analytical", "FDM"), ("analytical", "D4P1"), ("neurical", "FDM"), ("neurical", "1D1P"), ("machine", "learning")]
ANALYTICAL = ["a", "ana", "analytical", "Analytical", "ANA"]
D1P1 = ["d1p1", "D1P1", "1d1p", "1D1P", "1-dimension-1-phase", "1-Dimension-1-Phase", "1dimension1phase", "1Dimension1Phase"]
SPARSE = [1, 0, None, "True", "sparse", 1.0]


def names(env, shape, comp):
    """every spelling selects the same solution"""
    m = make(env, shape, comp, (), ("pressure", "rate"), False)
    for sparse in (True, False):
        ref = None
        for st in STYPES["numerical"]:
            for me in FDMS:
                m.compile(st, me, sparse=sparse)
                env.same("type", (m.compiler.stype, m.compiler.method, m.compiler.sparse, m.solution.sparse), ("numerical", "FDM", sparse, sparse))
                env.check("class", type(m.solution).__name__ == "FDM" and m.solution.model is m)
                env.same("name", str(m.compiler), NAMES[sparse])
                env.check("registered", m.solutions[NAMES[sparse]] is m.solution and m.compilers[NAMES[sparse]] is m.compiler)
        step(m, 0, True)
    m.compile("numerical", "FDM")
    env.same("default", m.compiler.sparse, True)
    env.same("listed", sorted(m.get_solutions()), sorted(NAMES.values()))
    if sum(n > 1 for n in shape) > 1:
        return
    for sparse in (True, False):
        name = f"BlackOil-analytical-D1P1-{sparse}"
        for st in ANALYTICAL:
            for me in D1P1:
                m.compile(st, me, sparse=sparse)
                env.same("type", (m.compiler.stype, m.compiler.method, m.compiler.sparse, m.solution.sparse), ("analytical", "D1P1", sparse, sparse))
                env.check("class", type(m.solution).__name__ == "D1P1" and m.solution.model is m)
                env.same("name", str(m.compiler), name)
                env.check("registered", m.solutions[name] is m.solution and m.compilers[name] is m.compiler)
    for sparse in (True, False):
        m.set_solution(NAMES[sparse])
        env.check("back to the numerical one", type(m.solution).__name__ == "FDM" and m.solution.sparse is sparse)
        env.same("its steps", m.solution.nsteps, 1 if sparse else 2)


def refused(env, shape, comp, wells, bcs, vect, other):
    """what cannot be compiled or selected is refused and changes nothing"""
    m = make(env, shape, comp, wells, bcs, False)
    alone = make(env, shape, comp, wells, bcs, False)
    if other:
        m.compile("numerical", "FDM", sparse=True)
        initial(env, shape, m)
        m.set_solution(NAMES[False])
    step(m, 0, vect)
    step(alone, 0, vect)
    sol, com, listed = m.solution, m.compiler, sorted(m.get_solutions())

    def unchanged(what):
        env.check(f"{what}: current solution", m.solution is sol and m.compiler is com)
        env.same(f"{what}: listed", sorted(m.get_solutions()), listed)
        env.same(f"{what}: control", {c: m.wells[c]["constrain"] for c in m.wells}, {c: alone.wells[c]["constrain"] for c in m.wells})

    for st, me in UNKNOWN:
        env.check("refused", env.raises(lambda: m.compile(st, me, sparse=False), ValueError))
        unchanged("unknown")
    for st, me in ABSENT:
        env.check("refused", env.raises(lambda: m.compile(st, me, sparse=False), Exception))
        unchanged("not available")
    for sp in SPARSE:
        env.check("refused", env.raises(lambda: m.compile("numerical", "FDM", sparse=sp), ValueError))
        unchanged("sparse")
    for name in ["FDM", "", "BlackOil-numerical-FDM", "BlackOil-numerical-FVM-True", None] + ([] if other else [NAMES[True]]):
        env.check("refused", env.raises(lambda: m.set_solution(name), ValueError))
        unchanged("selecting")
    same(env, shape, snap(env, m), snap(env, alone), "refused")
    step(m, 1, vect)
    step(alone, 1, vect)
    same(env, shape, snap(env, m), snap(env, alone), "after refusals")


def uncompiled(env, shape, comp):
    """a model which was not compiled has no solution"""
    g = concrete_grid(env, shape, comp="0.00001" if comp else "0")
    f = concrete_fluid(env, comp="0.00002" if comp else "0")
    m = env.rf.models.BlackOil(g, f, pi=env.real("pi", nice=(1000, 3000)), dt=env.f("2"), dtype="double")
    m.set_all_boundaries("rate", env.real("v", nice=(-2, 2)))
    env.check("nothing compiled", m.solution is None and m.compiler is None and not m.get_solutions())
    env.check("refused", env.raises(lambda: m.get_shape(), AssertionError))
    env.check("refused", env.raises(lambda: m.set_solution(NAMES[True]), ValueError))
    env.check("refused", env.raises(lambda: m.compile("numerical", "FVM"), Exception))
    env.check("nothing compiled", m.solution is None and m.compiler is None and not m.get_solutions())
    m.compile("numerical", "FDM")
    env.same("listed", m.get_solutions(), [NAMES[True]])


def mixed(env, shape, order, how):
    """an analytical and a numerical solution of one model"""
    from harness import p24_d1p1 as an

    def build():
        m = an.make(env, shape, "conc", verbose=False)[0]
        m.compile("numerical", "FDM", sparse=True)
        return m

    m = build()
    A, N = "BlackOil-analytical-D1P1-True", NAMES[True]
    env.same("names", sorted(m.get_solutions()), sorted([A, N]))
    sol = {k: m.solutions[k] for k in (A, N)}
    keep = lambda s: (s.nsteps, s.tstep, env.np.array(s.pressures, copy=True), env.np.array(s.rates, copy=True))

    def advance(m, k, n):
        m.set_solution(k)
        if k == A:
            m.run(n, isolver=None)
        else:
            step(m, how, True)

    done = {A: 0, N: 0}
    for i, k in enumerate({"A": A, "N": N}[c] for c in order):
        o = A if k == N else N
        before = keep(sol[o])
        done[k] = done[k] + 1 if k == N else i + 1
        advance(m, k, i + 1)
        env.check("current solution", m.solution is sol[k] and sol[o] is m.solutions[o])
        after = keep(sol[o])
        env.same("the other solution stays", before[:2], after[:2])
        env.eq("the other solution stays", before[2], after[2], scale=1000.0)
        env.eq("the other solution stays", before[3], after[3], scale=10.0)
        df = m.get_df(columns=["time", "cells_pressure"], boundary=False, drop_nan=False, drop_zero=False)
        env.same("table of the current solution", len(df), done[k] + 1)
        for c in interior(shape):
            col = [x for x in df.columns if str(x) == f"P{c}"]
            env.same("column", len(col), 1)
            for t in range(done[k] + 1):
                env.eq("table of the current solution", df[col[0]].values[t], sol[k].pressures[t, c], scale=1000.0)
    alone = build()
    for _ in range(done[N]):
        advance(alone, N, 0)
    for x, y in zip(keep(sol[N]), keep(alone.solution)):
        env.eq("as if alone", env.arr([x]) if isinstance(x, int) else x, env.arr([y]) if isinstance(y, int) else y, scale=1000.0)
    if done[A]:
        advance(alone, A, done[A])
        env.near("as if alone", sol[A].pressures, alone.solution.pressures, env.f("0.000001"))
        env.same("as if alone", keep(sol[A])[:2], keep(alone.solution)[:2])


def obligations(tier):
    out = []
    T = tier == "thorough"
    add = lambda f, b=200, **k: out.append(Obligation(f, k, max_paths=400, budget_s=b))
    S = [(2, 1, 1), (3, 1, 1), (1, 2, 1), (2, 2, 1)] + ([(4, 1, 1), (2, 1, 2)] if T else [])
    K = [("pressure", "rate"), ("rate", "pressure", None), ("gradient", "pressure")]
    W = [(), (("q", 0),), (("qp", 0),), (("p", 1), ("q", 0)), (("idle", 1), ("qp", 0))]
    n = 4 if T else 3
    import itertools
    i = 0
    for sh in S:
        flat = sh[0] > 1 and sh[2] == 1
        orders = list(itertools.product((False, True), repeat=n))
        orders = orders if (T or sh == (2, 1, 1)) else [o for o in orders if len(set(o)) > 1][::2]
        for o in orders:
            i += 1
            add(independent, shape=sh, comp=bool(i % 3), wells=W[i % 5] if flat else (), bcs=K[i % 3], z=bool(i % 2), vect=bool(i % 7 > 2), order=o, how=i % 2)
        for k in (1, 2):
            for sp in (True, False):
                i += 1
                add(again, shape=sh, comp=bool(i % 3), wells=W[i % 5] if flat else (), bcs=K[i % 3], z=bool(i % 2), vect=bool(i % 4), sparse=sp, n=k)
        for other in (True, False):
            i += 1
            add(refused, shape=sh, comp=bool(i % 2), wells=W[i % 5] if flat else (), bcs=K[i % 3], vect=bool(i % 3), other=other)
        for comp in (True, False):
            add(uncompiled, shape=sh, comp=comp)
    add(names, shape=(2, 1, 1), comp=True)
    add(names, shape=(1, 2, 1), comp=False)
    for j, (sh, o) in enumerate([((2, 1, 1), "ANA"), ((1, 2, 1), "NA"), ((2, 1, 1), "AN")] + ([((3, 1, 1), "NAN"), ((1, 1, 2), "AN")] if T else [])):
        add(mixed, shape=sh, order=o, how=j % 2)
    return out
