"""A reservoir at hydrostatic rest stays at rest."""
from harness.common import *

META = dict(
    bounds="3x1x1, 1x2x1, 1x1x3, 2x2x1, 2x1x2, 1x2x2, 2x2x2 interior cells (thorough up to 3x3x1, 3x2x2); depths of all cells, reference pressure and fluid density symbolic; coefficients concrete for up to 3 solved steps, symbolic for the assembled equations and steps of 2 cells; closed, pressure and mixed boundaries; wells without rate; assembled equations also on 101x1x1, 9x9x1, 1x1x101 (cell ids of three digits)",
    outside="larger grids; floating point rounding",
)


def depths(env, shape):
    return env.arr([env.real(f"z{i}", nice=(-20, 20)) for i in range(len(cells(shape)))])


def fill(env, m, shape, p0, bkind):
    """hydrostatic pressures and boundaries in agreement with them"""
    g = m.grid
    p = {c: p0 + m.fluid.g * g.z[c] for c, _, _ in cells(shape)}
    B = {}
    bs = boundary(shape)
    for i, b in enumerate(bs):
        if bkind == "pressure" or bkind == "mixed" and i % 2 == 0 or bkind == "one" and b == flow_cells(shape)[0]:
            B[b] = ("pressure", p[b])
        elif bkind == "mixed" and i % 4 == 1:
            B[b] = ("rate", env.zero())
        elif bkind == "mixed":
            B[b] = ("gradient", env.zero())
    m.set_boundaries(B)
    return p


def start(env, m, shape, p):
    for c in interior(shape):
        m.solution.pressures[0, c] = p[c]


def rest(env, m, shape, p, t, what, wells=()):
    s = m.solution
    env.eq(f"{what}: pressures", [s.pressures[t, c] for c in interior(shape)], [p[c] for c in interior(shape)], scale=1000.0)
    env.eq(f"{what}: no flow", s.rates[t], env.np.zeros(len(cells(shape))), scale=100.0)
    for c in wells:
        env.eq(f"{what}: well pressure", m.w_pressures[c][t], p[c], scale=1000.0)


def concrete(env, shape, comp, bkind, well, vect, sparse, n, mag="1"):
    env.mag = env.f(mag)
    g = concrete_grid(env, shape, z=depths(env, shape), comp="0.00001" if comp else "0")
    f = env.rf.fluids.SinglePhase(mu=env.f("0.5"), B=env.f("1.25"), rho=env.real("rho", "+", nice=(30, 70)), comp=env.f("0.00002" if comp else "0"))
    p0 = env.real("p0", nice=(1000, 3000))
    m = env.rf.models.BlackOil(g, f, pi=p0, dt=env.f("2"), dtype="double")
    p = fill(env, m, shape, p0, bkind)
    W = []
    if well:
        c = interior(shape)[0]
        a = dict(cell_id=c, r=well_r(env, m, c), s=env.f("1.5"))
        if well == "q":
            a["q"] = env.zero()
            env.assume(p[c] > 0)
        elif well == "p":
            a["pwf"] = p[c]
        m.set_well(**a)
        W = [c]
    compiled(env, m, sparse)
    start(env, m, shape, p)
    for i in range(n):
        m.solution.solve(vectorize=vect, isolver=None, check_MB=False)
        rest(env, m, shape, p, i + 1, f"step {i + 1}", W)


def assembled(env, shape, comp, bkind, z):
    """A p = d for every geometry"""
    cc = dict(comp=True) if comp else dict(comp=env.f("0"))
    n = len(cells(shape))
    g = grid(env, shape, d="sym", k="sym" if n < 40 else "scaled", phi="sym", z="sym" if z else None, **cc)
    p0 = env.real("p0", nice=(1000, 3000))
    m = env.rf.models.BlackOil(g, fluid(env, **cc), pi=p0, dt=env.real("dt", "+", nice=(0.5, 5)), dtype="double")
    p = fill(env, m, shape, p0, bkind)
    compiled(env, m)
    start(env, m, shape, p)
    inn = interior(shape)
    for how in ("vect", "symb"):
        A, d = getattr(m.solution, "get_matrices_" + how)()
        A, d = dense(env, A), dense(env, d).reshape(-1)
        for i in range(len(inn)):
            s = env.zero()
            for j, c in enumerate(inn):
                s = s + A[i, j] * p[c]
            env.eq(f"{how}: rest solves the equations", s, d[i], scale=1000.0)


def solved(env, shape, comp):
    cc = dict(comp=True) if comp else dict(comp=env.f("0"))
    g = grid(env, shape, d="sym", k="sym", phi="sym", z="sym", **cc)
    p0 = env.real("p0", nice=(1000, 3000))
    m = env.rf.models.BlackOil(g, fluid(env, **cc), pi=p0, dt=env.real("dt", "+", nice=(0.5, 5)), dtype="double")
    p = fill(env, m, shape, p0, "pressure")
    compiled(env, m)
    start(env, m, shape, p)
    m.solve(check_MB=False)
    rest(env, m, shape, p, 1, "step")


def obligations(tier):
    out = []
    T = tier == "thorough"
    add = lambda f, b=200, **k: out.append(Obligation(f, k, max_paths=600, budget_s=b))
    S = [(3, 1, 1), (1, 2, 1), (1, 1, 3), (2, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2)]
    if T:
        S += [(6, 1, 1), (3, 3, 1), (3, 2, 2), (3, 1, 3), (1, 3, 3)]
    i = 0
    for sh in S:
        wells = [None, "idle", "q", "p"] if sh[0] > 1 and (sh[1] > 1 or sh[2] == 1) else [None]
        for comp in (True, False):
            for bk in ("pressure", "mixed", "one") + (("closed",) if comp else ()):
                i += 1
                add(assembled, shape=sh, comp=comp, bkind=bk, z=bool(i % 4))
                for w in wells if bk != "closed" else wells[:2]:
                    i += 1
                    add(concrete, shape=sh, comp=comp, bkind=bk, well=w, vect=i % 2 > 0, sparse=i % 4 > 1, n=3 if T else 2)
    for j, mag in enumerate(("0.000000001", "1000000000") * 2):
        add(concrete, shape=(3, 1, 1), comp=j < 2, bkind="pressure", well=None, vect=bool(j % 2), sparse=bool(j % 3), n=2, mag=mag)
    for comp in (True, False):
        add(solved, shape=(1, 2, 1), comp=comp)
        add(solved, shape=(2, 1, 1), comp=comp)
        add(solved, shape=(1, 1, 2), comp=comp)
    # cell ids of three digits
    for sh in [(101, 1, 1), (9, 9, 1), (1, 1, 101)]:
        add(assembled, shape=sh, comp=True, bkind="mixed", z=True)
        add(assembled, shape=sh, comp=False, bkind="pressure", z=sh[0] == 9)
    return out
