"""Every step conserves mass, and the reported error says so."""
from harness.common import *

META = dict(
    bounds="3x1x1, 2x2x1, 1x3x1, 2x1x2, 2x2x2 interior cells (thorough: up to 3x3x1, 3x2x2, 5x1x1); up to 3 steps; up to two wells with rate and pressure control including control switches; every kind of boundary condition including edges and corners; pressures, depths, rates and conditions symbolic, coefficients concrete (symbolic on 2 cells)",
    outside="larger grids; steps whose total rate is zero (the reported relative error is then undefined); floating point rounding",
)


def balance(env, m, shape, B, what, mb=True):
    """the state recorded for the last step against the one before"""
    s = m.solution
    t = s.tstep
    g = m.grid
    inn = interior(shape)
    bset = set(boundary(shape))
    P, Q = s.pressures, s.rates
    net = {c: env.zero() for c in inn}
    for ax, a, b in adjacent(shape):
        if a in bset or b in bset:
            continue
        f = trans(env, m, ax, a, b) * ((P[t, b] - P[t, a]) - m.fluid.g * (g.z[b] - g.z[a]))
        net[a] = net[a] + f
        net[b] = net[b] - f
    total = env.zero()
    for b in bset:
        o = opposite(shape, b)
        total = total + Q[t, b]
        if o is None:
            env.eq(f"{what}: no flow through edges and corners", Q[t, b], env.zero(), scale=1.0)
        else:
            net[o[1]] = net[o[1]] + Q[t, b]
            k, v = B.get(b, ("rate", env.zero()))
            env.eq(f"{what}: boundary rate", Q[t, b], boundary_rate(env, m, shape, b, k, v, {o[1]: P[t, o[1]]})[1], scale=10.0)
    acc = env.zero()
    for c in inn:
        total = total + Q[t, c]
        net[c] = net[c] + Q[t, c]
        a = accumulation(env, m, c) * (P[t, c] - P[t - 1, c])
        acc = acc + a
        env.eq(f"{what}: balance of a cell", net[c], a, scale=100.0)
        if c not in m.wells:
            env.eq(f"{what}: no source without a well", Q[t, c], env.zero(), scale=1.0)
    env.eq(f"{what}: total rate is the change in storage", total, acc, scale=100.0)
    env.observe(f"{what}: rates", Q[t])
    return total


def steps(env, shape, comp, z, wells, bcs, which, n, sparse, vect, change=None, how="solve", sign="1", mag="1"):
    env.mag = env.f(mag)
    m, B, W = sim(env, shape, comp, z, wells, bcs, which, sparse=sparse)
    s = m.solution
    for i in range(n):
        kw = dict(vectorize=vect, isolver=None, check_MB=False, threading=False)
        s.solve(**kw) if how == "solve" else s.run(nsteps=1, **kw)
        tot = balance(env, m, shape, B, f"step {i + 1}")
        if comp:
            sg = env.f(sign)
            env.assume(sg * tot > env.f("0.01"))
            env.assume(sg * s.rates.sum() > env.f("0.01"))
        s.check_MB(error_threshold=env.f("1000"))
        env.eq(f"step {i + 1}: reported error", s.error, env.zero(), scale=1.0)
        if change and i == 0:
            if change == "new":
                b = flow_cells(shape)[0]
                B = {b: ("pressure", env.real("cv", nice=(500, 3000)))}
                m.set_boundaries(dict(B))
            elif change == "well":
                c = interior(shape)[0]
                W[c] = add_well(env, m, c, "q", "c")
            else:
                b = flow_cells(shape)[-1]
                B[b] = (change, bc_value(env, "cv", change))
                m.set_boundary(b, *B[b])


def report(env, shape, comp, z, bcs, n, sparse, total):
    """what is reported for states which do not conserve mass"""
    import warnings

    m, B, W = sim(env, shape, comp, z, (), bcs, "flow", sparse=sparse)
    s = m.solution
    for _ in range(n):
        s.solve(vectorize=True, isolver=None, check_MB=False, threading=False)
    inn = interior(shape)
    t = s.tstep
    for c in inn:  # anything may have been recorded
        s.pressures[t, c] = env.real(f"x{c}", nice=(500, 3000))
    total = env.f(total)
    rest = total
    for c, _, _ in cells(shape)[1:]:
        s.rates[t, c] = env.real(f"r{c}", nice=(-5, 5))
        rest = rest - s.rates[t, c]
    s.rates[t, 0] = rest
    acc = env.zero()
    for c in inn:
        acc = acc + accumulation(env, m, c) * (s.pressures[t, c] - s.pressures[t - 1, c])
    hist = env.zero()
    for i in range(t + 1):
        for c, _, _ in cells(shape):
            hist = hist + s.rates[i, c]
    env.assume((hist > env.f("0.01")) | (hist < env.f("-0.01")))
    th = env.real("threshold", "+", nice=(0.01, 3))
    P, Q = env.np.array(s.pressures, copy=True), env.np.array(s.rates, copy=True)
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        s.check_MB(error_threshold=th)
    if comp:
        env.eq("reported error", abs(s.error * total), abs(acc - total), scale=100.0)
        high = bool(abs(acc - total) > th * abs(total))
    else:
        env.eq("reported error", abs(s.error), abs(total), scale=10.0)
        high = bool(abs(total) > th)
    warned = any("material balance" in str(w.message).lower() for w in seen)
    env.same("a high error is reported", warned, high)
    for i in range(t + 1):
        env.eq("rates are left alone", s.rates[i], Q[i])
        env.eq("pressures are left alone", [s.pressures[i, c] for c in inn], [P[i, c] for c in inn])
    env.observe("error", s.error)


def symbolic(env, shape, comp, z, bcs, well, vect):
    """coefficients symbolic as well"""
    c = dict(comp=True) if comp else dict(comp=env.f("0"))
    g = grid(env, shape, d="sym", k="sym" if sum(shape) < 5 else "scaled", phi="sym", z=z, **c)
    m = env.rf.models.BlackOil(g, fluid(env, **c), pi=env.real("pi", nice=(500, 3000)), dt=env.real("dt", "+", nice=(0.5, 5)), dtype="double")
    if well:
        m.set_well(cell_id=interior(shape)[0], q=env.real("q", nice=(-5, 5)), r=well_r(env, m, interior(shape)[0]), s=env.f("1.5"))
        m.wells[interior(shape)[0]]["pwf_sp"] = env.f("-1000000")
    B = {}
    for i, b in enumerate(flow_cells(shape)):
        k = bcs[i % len(bcs)]
        if k:
            B[b] = (k, bc_value(env, f"v{b}", k))
    m.set_boundaries(dict(B))
    compiled(env, m)
    for cc in interior(shape):
        m.solution.pressures[0, cc] = env.real(f"o{cc}", nice=(500, 3000))
    m.solve(vectorize=vect, check_MB=False)
    balance(env, m, shape, B, "step")


def obligations(tier):
    out = []
    add = lambda f, b=200, **k: out.append(Obligation(f, k, max_paths=400, budget_s=b))
    BC = [("pressure", "rate"), ("pressure", "gradient", None), ("pressure",), ("rate", "pressure", "gradient")]
    WS = [(), (("q", 0),), (("p", -1),), (("qp", 0),), (("qp", 0), ("p", -1)), (("idle", 0), ("q", 1))]
    i = 0
    shapes = [(3, 1, 1), (2, 2, 1), (1, 3, 1), (1, 1, 2), (2, 1, 2), (1, 2, 2), (2, 2, 2), (3, 2, 1)]
    if tier == "thorough":
        shapes += [(5, 1, 1), (3, 3, 1), (3, 2, 2), (3, 1, 3)]
    for shape in shapes:
        for w in WS if shape[0] > 1 and not (shape[1] == 1 and shape[2] > 1) else WS[:1]:
            for comp in (True, False):
                i += 1
                add(steps, shape=shape, comp=comp, z="sym" if i % 3 else None, wells=w, bcs=BC[i % 4], which="all" if i % 2 else "flow", n=2, sparse=i % 4 > 1, vect=i % 5 > 1,
                    change=[None, "pressure", "new", "gradient", "well" if shape[0] > 1 and not (shape[1] == 1 and shape[2] > 1) else None][i % 5], how="run" if i % 6 == 0 else "solve", sign="1" if i % 3 else "-1")
    for j, mag in enumerate(("0.0000001", "1000") * 2):
        add(steps, shape=(3, 1, 1), comp=j < 2, z="sym", wells=(("q", 0),), bcs=BC[0], which="flow", n=2, sparse=bool(j % 3), vect=bool(j % 2), mag=mag)
    add(steps, shape=(2, 1, 1), comp=True, z="sym", wells=(("qp", 0), ("qp", 1)), bcs=BC[0], which="flow", n=3, sparse=False, vect=True, change="pressure")
    add(steps, shape=(3, 1, 1), comp=True, z="sym", wells=(("qp", 1),), bcs=BC[3], which="flow", n=3, sparse=True, vect=False, change="rate")
    for j, sh in enumerate([(2, 1, 1), (3, 1, 1), (1, 2, 1), (2, 2, 1), (2, 1, 2)]):
        for comp in (True, False):
            for n in (1, 2):
                add(report, shape=sh, comp=comp, z="sym" if j % 2 else None, bcs=BC[j % 4], n=n, sparse=bool(n % 2), total=("3.5" if (j + n) % 2 else "-20") if comp or j < 4 else "0")
    for j, tot in enumerate(("0.0004567", "-0.000012345", "3.1234567", "-12345.678901")):
        for comp in (True, False):
            add(report, shape=(2, 1, 1), comp=comp, z="sym", bcs=BC[j % 4], n=1 + j % 2, sparse=bool(j % 2), total=tot)
    for comp in (True, False):
        for j, sh in enumerate([(2, 1, 1), (1, 2, 1), (1, 1, 2)]):
            add(symbolic, shape=sh, comp=comp, z="sym", bcs=BC[j], well=sh[0] > 1 and tier == "thorough", vect=bool(j % 2) ^ comp)
    return out
