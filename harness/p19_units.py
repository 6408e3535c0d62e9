"""Units, conversion factors and fluid properties."""
from harness.common import *

META = dict(
    bounds="2x1x1, 3x1x1, 1x2x1, 2x2x1, 2x1x2, 2x2x2 interior cells; field to metric and field to lab; lengths, permeabilities, porosities, viscosity, volume factor, density, compressibilities, time step symbolic for coefficients; one and two steps with concrete coefficients and symbolic pressures and boundary values; up to 4 settings of units and fluid properties in any order",
    outside="the printed names of units; wells whose radius is not given in twelfths of the unit of length (see P11); unit changes after the objects were created for derived values already stored",
    assumptions=["metric permeability is in square micrometres, as the documented conversion 0.0864 implies (the documented label says m^2)"],
)

# documented factors
FACT = {
    "field": ("32.174", "0.001127", "0.00021584", "5.614583"),
    "metric": ("9.806635", "0.0864", "0.001", "1"),
    "lab": ("980.6635", "1", "0.000000986923", "1"),
}
KEYS = ("gravitational acceleration", "transmissibility conversion", "gravity conversion", "volume conversion")

# one field unit in metric and lab units
CONV = {
    "metric": dict(L="0.3048", k="0.0009869233", p="6.894757", rho="16.01846", q="0.1589873", t="1"),
    "lab": dict(L="30.48", k="0.001", p="0.06804596", rho="0.01601846", q="1.840131", t="86400"),
}
TOL = "0.0004"


def close(env, label, a, b):
    """both positive and equal up to the rounding of the documented factors"""
    env.lt(label, 0, b)
    env.le(label, a, b * (1 + env.f(TOL)), rtol=0)
    env.le(label, b * (1 - env.f(TOL)), a, rtol=0)


def two(env, shape, unit, hetero, comp):
    """the same reservoir in field and in other units"""
    u = {k: env.f(v) for k, v in CONV[unit].items()}
    pad, act = strides(shape)
    n = len(cells(shape))
    d = [[env.real(f"d{ax}{i}", "+", nice=(5, 50)) for i in range(m)] if a else [env.real(f"d{ax}", "+", nice=(5, 50))] for ax, m, a in zip("xyz", pad, act)]
    k = {ax: [env.real(f"k{ax}{i if hetero else ''}", "+", nice=(1, 100)) for i in range(n)] for ax in "xyz"}
    phi = env.real("phi", "+", nice=(0.05, 0.4))
    mu, B, rho = env.real("mu", "+", nice=(0.3, 3)), env.real("B", "+", nice=(0.8, 1.5)), env.real("rho", "+", nice=(30, 70))
    cf, cg = env.real("cf", "+", nice=(0.000001, 0.00001)), env.real("cg", "+", nice=(0.000001, 0.00001))
    dt = env.real("dt", "+", nice=(0.5, 9))
    out = []
    for un, c in (("field", None), (unit, u)):
        s = (lambda x, key: x) if c is None else (lambda x, key: x * c[key])
        ds = [env.arr([s(x, "L") for x in v]) if len(v) > 1 else s(v[0], "L") for v in d]
        ks = {"k" + ax: env.arr([s(x, "k") for x in v]) if hetero else s(v[0], "k") for ax, v in k.items()}
        inv = (lambda x: x) if c is None else (lambda x: x / c["p"])
        g = env.rf.grids.RegularCartesian(nx=shape[0], ny=shape[1], nz=shape[2], dx=ds[0], dy=ds[1], dz=ds[2], phi=phi, comp=inv(cg) if comp else env.f("0"), unit=un, **ks)
        f = env.rf.fluids.SinglePhase(mu=mu, B=B, rho=s(rho, "rho"), comp=inv(cf) if comp else env.f("0"), unit=un)
        m = env.rf.models.BlackOil(g, f, pi=s(env.f("2000"), "p"), dt=s(dt, "t"), unit=un, dtype="double")
        out.append(m)
    return out, u


def coefficients(env, shape, unit, hetero, comp):
    (a, b), u = two(env, shape, unit, hetero, comp)
    bset = set(boundary(shape))
    for ax, i, j in adjacent(shape):
        if i in bset:
            i, j = j, i
        if i in bset:
            continue
        ta, tb = a.get_cell_trans(i, None, True)[j], b.get_cell_trans(i, None, True)[j]
        close(env, "transmissibility", tb, ta * u["q"] / u["p"])
    if comp:
        for c in range(len(cells(shape))):
            close(env, "storage", b.RHS[c], a.RHS[c] * u["q"] / u["p"])
            close(env, "diffusivity", b.get_alpha()[c], a.get_alpha()[c] * u["L"] ** 2 / u["t"])
    close(env, "gravity", b.fluid.g, a.fluid.g * u["p"] / u["L"])


def history(env, shape, unit, comp, bcs, z, n, vect, wells=()):
    """the same steps in both unit systems give the same pressures and rates"""
    u = {k: env.f(v) for k, v in CONV[unit].items()}
    N = len(cells(shape))
    inn = interior(shape)
    zs = [env.real(f"z{i}", nice=(-20, 20)) for i in range(N)] if z else None
    res = []
    for un, c in (("field", None), (unit, u)):
        s = (lambda x, key: x) if c is None else (lambda x, key: x * c[key])
        one = env.f("1")
        v = [s(env.f(str(10 + (i * 7) % 11)), "k") for i in range(N)]
        cx = env.f("0") if not comp else (env.f("0.00001") if c is None else env.f("0.00001") / c["p"])
        g = env.rf.grids.RegularCartesian(
            nx=shape[0], ny=shape[1], nz=shape[2], dx=s(env.f("15"), "L"), dy=s(env.f("20"), "L"), dz=s(env.f("10"), "L"),
            kx=env.arr(v), ky=env.arr(v), kz=env.arr(v), phi=env.f("0.2"), comp=cx, unit=un,
            **({} if zs is None else dict(z=env.arr([s(x, "L") for x in zs]))))
        f = env.rf.fluids.SinglePhase(mu=env.f("0.5"), B=env.f("1.25"), rho=s(env.f("50"), "rho"), comp=cx, unit=un)
        m = env.rf.models.BlackOil(g, f, pi=s(env.f("2000"), "p"), dt=s(env.f("2"), "t"), unit=un, dtype="double")
        W = []
        for kind, j in wells:
            cell = inn[j]
            a = dict(cell_id=cell, r=well_r(env, m, cell), s=env.f("1.5"))
            if kind == "q":
                a["q"] = s(env.real(f"q{cell}", nice=(-5, 5)), "q")
            else:
                a["pwf"] = s(env.real(f"pwf{cell}", nice=(500, 2500)), "p")
            m.set_well(**a)
            W.append(cell)
        for i, bb in enumerate(flow_cells(shape)):
            kind = bcs[i % len(bcs)]
            if kind:
                val = env.real(f"v{bb}", nice=(500, 3000) if kind == "pressure" else (-2, 2))
                if c is not None:
                    val = val * (c["p"] if kind == "pressure" else c["q"] if kind == "rate" else c["p"] / c["L"])
                m.set_boundary(bb, kind, val)
        compiled(env, m)
        for cell in inn:
            m.solution.pressures[0, cell] = s(env.real(f"o{cell}", nice=(500, 3000)), "p")
        for _ in range(n):
            m.solve(vectorize=vect, check_MB=False, isolver=None)
        res.append((m, W))
    (a, W), (b, _) = res
    # every result is linear in the unknowns: compare their sizes with a bound
    # on the unknowns
    names = [f"o{c}" for c in inn] + [f"v{bb}" for bb in flow_cells(shape)] + ([f"z{i}" for i in range(N)] if z else [])
    for k in names:
        x = env.real(k)
        env.assume(x <= 3000)
        env.assume(x >= -3000)
    for kind, j in wells:
        x = env.real(("q" if kind == "q" else "pwf") + str(inn[j]))
        env.assume(x <= 3000)
        env.assume(x >= -3000)
    near = lambda label, x, y, size: (env.le(label, x, y + size, rtol=0), env.le(label, y - size, x, rtol=0))
    for t in range(n + 1):
        for c in inn:
            near("pressure", b.solution.pressures[t, c] / u["p"], a.solution.pressures[t, c], env.f("30"))
    for bb in flow_cells(shape):
        near("boundary rate", b.solution.rates[n, bb] / u["q"], a.solution.rates[n, bb], env.f("30"))
    for c in W:
        near("bottom-hole pressure", b.w_pressures[c][-1] / u["p"], a.w_pressures[c][-1], env.f("60"))
    env.observe("p", [a.solution.pressures[n, c] for c in inn])


def factors(env, kind):
    """every object carries the factors of its own unit system"""
    mks = dict(
        grid=lambda **k: env.rf.grids.RegularCartesian(nx=2, ny=1, nz=1, dx=10, dy=10, dz=10, kx=1, phi=env.f("0.2"), **k),
        fluid=lambda **k: env.rf.fluids.SinglePhase(mu=1, B=1, **k),
        model=lambda **k: env.rf.models.BlackOil(mks["grid"](**k), mks["fluid"](**k), pi=1, dtype="double", **k),
    )
    mk = mks[kind]

    def holds(o, un):
        env.same("unit", o.unit, un)
        for key, v in zip(KEYS, FACT[un]):
            env.eq("factor", o.factors[key], env.f(v), rtol=1e-12)
        env.same("documented factors", [o.factors[k] == env.rf.FACTORS[un][k] for k in KEYS], [True] * 4)
        env.same("units", dict(o.units), dict(env.rf.UNITS[un]))

    os_ = [mk()] + [mk(unit=x) for x in FACT]
    now = ["field"] + list(FACT)
    for o, un in zip(os_, now):
        holds(o, un)
    for t in range(2):
        j = env.choice(f"object{t}", [0, 1, 2, 3])
        un = env.choice(f"unit{t}", ["field", "metric", "lab"])
        os_[j].set_units(un)
        now[j] = un
        for bad in ("Field", "si", "", None, 1):
            env.check("unknown units are refused", env.raises(lambda: os_[j].set_units(bad), ValueError))
            env.check("unknown units are refused", env.raises(lambda: mk(unit=bad), ValueError))
        for o, un in zip(os_, now):
            holds(o, un)
    env.same("factors are unchanged", sorted(env.rf.FACTORS), sorted(FACT))


def fluids(env, unit, n):
    """fluid properties keep the last value set; gravity follows density"""
    g0 = FACT[unit]
    vals = {k: env.real(k + "0", "+", nice=(0.5, 50)) for k in ("mu", "B", "rho", "comp")}
    first = env.choice("given", [("mu", "B", "rho", "comp"), ("mu", "B"), ("mu", "B", "comp"), ("B", "mu", "rho"), ()])
    f = env.rf.fluids.SinglePhase(unit=unit, **{k: vals[k] for k in first})
    want = dict(rho=env.zero(), comp=env.zero())
    want.update({k: vals[k] for k in first})

    def holds():
        for k, v in want.items():
            env.eq(k, getattr(f, k), v)
        env.eq("gravity", f.g, env.f(g0[2]) * want["rho"] * env.f(g0[0]))
        env.same("type", f.comp_type, "incompressible" if bool(want["comp"] == 0) else "compressible")

    holds()
    for t in range(n):
        how = env.choice(f"how{t}", ["mu", "B", "rho", "comp", "props", "some", "none"])
        new = {k: env.real(f"{k}{t + 1}", "0+" if k in ("rho", "comp") else "+", nice=(0.5, 50)) for k in vals}
        if how == "props":
            f.set_props(**new)
            want.update(new)
        elif how == "some":
            f.set_props(rho=new["rho"], mu=new["mu"])
            want.update(rho=new["rho"], mu=new["mu"])
        elif how == "none":
            f.set_props()
        else:
            getattr(f, "set_" + how)(new[how])
            want[how] = new[how]
        holds()
    bad = env.real("bad", "+", nice=(0.5, 5))
    env.check("negative compressibility is refused", env.raises(lambda: f.set_comp(-bad), ValueError))
    env.check("negative compressibility is refused", env.raises(lambda: env.rf.fluids.SinglePhase(mu=1, B=1, comp=-bad), ValueError))


def obligations(tier):
    out = []
    T = tier == "thorough"
    add = lambda f, b=200, **k: out.append(Obligation(f, k, max_paths=600, budget_s=b))
    S = [(2, 1, 1), (3, 1, 1), (1, 2, 1), (2, 2, 1), (2, 1, 2)] + ([(2, 2, 2), (1, 1, 3)] if T else [])
    for i, sh in enumerate(S):
        for unit in ("metric", "lab"):
            add(coefficients, shape=sh, unit=unit, hetero=bool(i % 2), comp=True)
            add(coefficients, shape=sh, unit=unit, hetero=not i % 2, comp=False)
            for j, bcs in enumerate([("pressure", "rate"), ("gradient", "pressure"), ("rate", "pressure", None)]):
                w = () if not (sh[0] > 1 and sh[2] == 1) else ((), (("q", 0),), (("p", 1),))[(i + j) % 3]
                add(history, shape=sh, unit=unit, comp=bool((i + j) % 2), bcs=bcs, z=bool((i + j) % 3), n=1 + (j % 2 if len(interior(sh)) < 4 else 0), vect=bool(j % 2), wells=w)
    for k in ("grid", "fluid", "model"):
        add(factors, kind=k)
    for un in FACT:
        add(fluids, unit=un, n=3 if T else 2)
    return out
