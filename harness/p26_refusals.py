"""A setting that is refused changes nothing."""
from harness.common import *

META = dict(
    bounds="2x1x1, 3x1x1, 2x2x1, 2x2x2 interior cells (1x3x1, 1x1x2, 1x2x2 for wells that cannot be computed); refused before compiling, after compiling and after up to 2 steps, once or repeatedly; one step afterwards; values, states and conditions symbolic, coefficients concrete",
    outside="calls that set several things of which only one is refused, other than dictionaries of conditions and scalers; refusals within the solver (P21)",
)


def everything(env, m):
    """all that can be set, and the history"""
    g, f, s = m.grid, m.fluid, m.solution
    out = [[frozen(getattr(g, n)) for n in ("kx", "ky", "kz", "phi", "z")], frozen(dict(g.k)), g.comp, g.comp_type]
    out += [f.mu, f.B, f.rho, f.g, f.comp, f.comp_type, m.comp, m.comp_type, m.dt, m.pi]
    out += [[o.unit, frozen(o.units), frozen(o.factors)] for o in (g, f, m)]
    out += [frozen({c: dict(sorted(w.items())) for c, w in m.wells.items()}), frozen({c: list(v) for c, v in m.w_pressures.items()})]
    out += [frozen(dict(m.bdict)), frozen(sorted(int(b) for b in m.bdict_update)), frozen({k: list(v) for k, v in m.scalers_dict.items()})]
    out += [[bool(m.verbose), str(m.compiler)]]
    if s is not None:
        out += [str(s.compiler) if hasattr(s, "compiler") else "", int(s.tstep), int(s.nsteps), frozen(s.pressures), frozen(s.rates)]
        out += [sorted(m.solutions)]
    else:
        out += [frozen(m.init_pressures), frozen(m.init_rates)]
    return out


def make(env, shape, comp, wells, bcs, when, **kw):
    n = len(cells(shape))
    g = concrete_grid(env, shape, comp="0.00001" if comp else "0", **kw)
    f = concrete_fluid(env, comp="0.00002" if comp else "0")
    m = env.rf.models.BlackOil(g, f, pi=env.real("pi", nice=(1000, 3000)), dt=env.f("2"), dtype="double")
    for i, (kind, j) in enumerate(wells):
        add_well(env, m, interior(shape)[j], kind, str(i))
    B = {}
    for i, b in enumerate(flow_cells(shape)):
        k = bcs[i % len(bcs)]
        if k:
            B[b] = (k, bc_value(env, f"v{b}", k))
    m.set_boundaries(dict(B))
    if when != "before":
        compiled(env, m, True)
        for c in interior(shape):
            m.solution.pressures[0, c] = env.real(f"o{c}", nice=(500, 3000))
        for _ in range(int(when)):
            m.solve(check_MB=False, isolver=None)
    return m


def compressibilities(env, m, shape):
    c = -env.real("bad", "+", nice=(1, 5))
    for o in (m.grid, m.fluid, m):
        yield lambda: o.set_comp(c)
    yield lambda: m.grid.set_props(comp=c)
    yield lambda: m.fluid.set_props(comp=c)


def properties(env, m, shape):
    g, v = m.grid, env.real("new", "+", nice=(1, 5))
    n = len(cells(shape))
    yield lambda: g.set_prop("perm", v)
    yield lambda: g.set_prop("permeability", v, id=interior(shape)[0])
    for name in ("kx", "ky", "phi", "z"):
        yield lambda: g.set_prop(name, v, id=n)
        yield lambda: g.set_prop(name, v, id=[interior(shape)[0], n + 3])
        yield lambda: g.set_prop(name, env.arr([v] * (n + 1)))
        yield lambda: g.set_prop(name, env.arr([v, v, v]), id=interior(shape)[:2])
        yield lambda: g.set_props(**{name: v}, id=n)


def outside(env, m, shape):
    """wells that cannot be placed"""
    q, r = env.real("newq", nice=(-5, 5)), env.f("3")
    b = boundary(shape)
    i = env.int("where", 0, len(b) - 1)
    for c in (b[i.realize() if env.sym else i], -1, len(cells(shape))):
        yield lambda: m.set_well(cell_id=c, q=q, r=r)
        yield lambda: m.set_well(env.rf.wells.SingleCell(cell_id=c, q=q, r=r, s=env.f("1")))
        yield lambda: m.set_well(env.rf.wells.SingleCell(cell_id=interior(shape)[0], q=q, r=r, s=env.f("1")), cell_id=c)
    yield lambda: m.set_well(q=q, r=r)
    yield lambda: m.set_well(pwf=q, r=r)


def radius(env, m, shape):
    """wells whose index cannot be computed: without a radius"""
    q = env.real("newq", nice=(-5, 5))
    for c in interior(shape):
        yield lambda: m.set_well(env.rf.wells.SingleCell(cell_id=c, q=q, r=None, s=env.f("1")))
        if c not in m.wells:
            yield lambda: m.set_well(cell_id=c, q=q)
            yield lambda: m.set_well(cell_id=c, pwf=q, s=env.f("1"))


def direction(env, m, shape):
    """wells whose index cannot be computed: grids along y or z"""
    q = env.real("newq", nice=(-5, 5))
    for c in interior(shape):
        yield lambda: m.set_well(cell_id=c, q=q, r=env.f("3"), s=env.f("1"))
        yield lambda: m.set_well(env.rf.wells.SingleCell(cell_id=c, q=q, r=env.f("3"), s=env.f("1")))


def conditions(env, m, shape):
    v, w = env.real("newv", nice=(500, 3000)), env.real("neww", nice=(-5, 5))
    bs, inn = flow_cells(shape), interior(shape)
    n = len(cells(shape))
    for cond in ("flux", "", "pressures", "r", "P Q"):
        yield lambda: m.set_boundary(bs[0], cond, v)
        yield lambda: m.set_boundaries({bs[0]: (cond, v)})
        yield lambda: m.set_boundaries({bs[-1]: ("rate", w), bs[0]: (cond, v)})
        yield lambda: m.set_all_boundaries(cond, v)
    i = env.int("inside", 0, len(inn) - 1)
    for c in (inn[i.realize() if env.sym else i], n, -1):
        for cond, x in (("pressure", v), ("rate", w), ("gradient", w)):
            yield lambda: m.set_boundary(c, cond, x)
            yield lambda: m.set_boundaries({c: (cond, x)})
            yield lambda: m.set_boundaries({bs[-1]: (cond, x), c: (cond, x)})
            yield lambda: m.set_boundaries({c: (cond, x), bs[-1]: (cond, x)})
    yield lambda: m.set_boundaries({bs[0]: ("rate", w), bs[-1]: ("rate",)})


def scalers(env, m, shape):
    a, b = env.real("Vmin", nice=(-3, 0)), env.real("Vmax", nice=(1, 5))
    good, bad = ["MinMax", (a, b)], ["Standard", (a, b)]
    for d in ({"depth": good}, {"time": bad}, {"all": bad}, {"p": good, "depth": good}, {"depth": good, "p": good}, {"rate": good, "t": bad}, {"space": good, "p": good, "q": bad}):
        yield lambda: m.set_scalers(d)


def units(env, m, shape):
    for u in ("si", "Field", "", None):
        for o in (m, m.grid, m.fluid):
            yield lambda: o.set_units(u)


def solutions(env, m, shape):
    for st, me in (("numerical", "FVM"), ("numerical", "XYZ"), ("guess", "FDM"), ("neurical", "PINN"), ("analytical", "2D1P")):
        yield lambda: m.compile(st, me, sparse=False)
    yield lambda: m.set_solution("nothing")
    if m.solution is not None:
        yield lambda: m.solve(isolver="lu", check_MB=False)
        yield lambda: m.run(2, isolver="lu", check_MB=False, threading=False)
        yield lambda: m.get_df(columns=["time", "depth"])
        yield lambda: m.get_df(columns=["depth", "cells", "wells"], scale=True)


KINDS = dict(compressibilities=compressibilities, properties=properties, outside=outside, radius=radius, direction=direction, conditions=conditions, scalers=scalers, units=units, solutions=solutions)


def refused(env, shape, comp, wells, bcs, when, kind, rounds):
    m = make(env, shape, comp, wells, bcs, when)
    twin = make(env, shape, comp, wells, bcs, when)
    names = ["time_scaler", "space_scaler", "pressures_scaler", "rates_scaler"]
    x = env.arr([env.real("x0", nice=(1, 2)), env.real("x0") + env.real("x1", "+", nice=(1, 2))])
    before = everything(env, m)
    held = [getattr(m, n) for n in names]
    for _ in range(rounds):
        for act in KINDS[kind](env, m, shape):
            env.check(f"{kind}: refused", env.raises(act))
            alike(env, f"{kind}: nothing has changed", before, everything(env, m))
    for n, o in zip(names, held):
        env.check("scalers in use", getattr(m, n) is o)
    for n in names:
        env.eq("scalers in use", getattr(m, n).fit_transform(x, axis=0), getattr(twin, n).fit_transform(x, axis=0))
    # going on as if nothing had been tried
    for o in (m, twin):
        if o.solution is None:
            compiled(env, o, True)
        o.solve(check_MB=False, isolver=None)
    alike(env, f"{kind}: going on", everything(env, twin), everything(env, m))
    env.observe("p", [m.solution.pressures[m.solution.tstep, c] for c in interior(shape)])


def fitted(env, shape):
    """a refused fit keeps the fit in use"""
    a = env.real("Vmin", nice=(-3, 0))
    s = env.rf.scalers.MinMax(output_range=(a, a + env.real("V", "+", nice=(1, 5))))
    lo = env.real("lo", nice=(-5, 0))
    v = env.arr([lo, lo + env.real("d", "+", nice=(1, 5))])
    w = s.fit_transform(v, axis=0)
    n = 1
    for k in shape:
        n *= k
    x = env.arr([env.real(f"x{i}", nice=(-9, 9)) for i in range(n)]).reshape(shape)
    env.check("refused", env.raises(lambda: s.fit(x, axis=0), ValueError))
    env.check("refused", env.raises(lambda: s.fit_transform(x, axis=0), ValueError))
    env.eq("the fit in use", s.transform(v), w)
    env.eq("the fit in use", s.inverse_transform(w), v, scale=10.0)


def analytical(env, shape, loud):
    """a run of the analytical solution of one dimension in other reservoirs"""
    m, twin = (make(env, shape, True, (), ("pressure", "rate"), "1") for _ in range(2))
    m.compile("analytical", "D1P1")
    m.verbose = loud
    s = m.solution
    keep = lambda: (s.nsteps, s.tstep, tuple(s.pressures.shape), tuple(s.rates.shape), m.verbose, m.solution is s)
    k, P = keep(), env.np.array(s.pressures, copy=True)
    for n in (1, 3):
        env.check("refused", env.raises(lambda: m.run(n)))
        env.same("nothing has changed", keep(), k)
        env.eq("nothing has changed", s.pressures, P, scale=1000.0)
    m.verbose = False
    m.set_solution([x for x in m.get_solutions() if "FDM" in x][0])
    for o in (m, twin):
        o.solve(check_MB=False, isolver=None)
    a, b = m.solution, twin.solution
    env.same("going on", (a.nsteps, a.tstep), (b.nsteps, b.tstep))
    env.eq("going on", a.pressures, b.pressures, scale=1000.0)
    env.eq("going on", a.rates, b.rates, scale=10.0)


def obligations(tier):
    out = []
    add = lambda f, b=250, **k: out.append(Obligation(f, k, max_paths=400, budget_s=b))
    K = [("pressure", "rate"), ("rate", "pressure", None), ("gradient", "pressure")]
    W = [(("q", 0),), (("qp", 0),), (("p", 1),), ()]
    W = [(("q", 0),), (("qp", 0),), (("p", 1),), ()]
    T = tier == "thorough"
    T = tier == "thorough"
    i = 0
    for sh in [(2, 1, 1), (3, 1, 1), (2, 2, 1)] + ([(2, 2, 2)] if T else []):
        for kind in KINDS:
            if kind == "direction":
                continue
            for when in ("before", "0", "1") + (("2",) if T else ()):
                i += 1
                add(refused, shape=sh, comp=bool(i % 3), wells=W[i % 4], bcs=K[i % 3], when=when, kind=kind, rounds=1 + i % 2)
    for sh in [(1, 3, 1), (1, 1, 2), (1, 2, 2)]:
        for when in ("before", "1"):
            i += 1
            add(refused, shape=sh, comp=bool(i % 2), wells=(), bcs=K[i % 3], when=when, kind="direction", rounds=1)
            add(refused, shape=sh, comp=bool(i % 2), wells=(), bcs=K[i % 3], when=when, kind="conditions", rounds=1)
    for j, sh in enumerate(((2, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2))):
        add(analytical, shape=sh, loud=bool(j % 2))
    for sh in ((2, 2, 2), (1, 2, 2)):
        add(fitted, shape=sh)
    return out
