"""Wells keep to their constraints and report what the equations used."""
from harness.common import *

META = dict(
    bounds="2x1x1, 3x1x1, 2x2x1, 2x2x2 interior cells; one to three wells in every combination of rate control with pressure limit, rate control, pressure control and no control; up to 3 steps (thorough 4), wells set again, replaced or shut between steps; pressures, targets, limits, depths and boundary values symbolic, coefficients concrete; well indices symbolic on one obligation",
    outside="negative well indices (wells wider than their cell); other grids; ties of limit and estimate within floating point rounding",
)


def well_step(env, m, c, spec, before, what, alone):
    s = m.solution
    t = s.tstep
    w = m.wells[c]
    kind = spec["kind"]
    p, Q = s.pressures[t, c], s.rates[t, c]
    env.same(f"{what}: one bottom-hole pressure per step", len(m.w_pressures[c]), s.nsteps)
    bhp = m.w_pressures[c][t]
    env.observe(f"{what} bhp {c}", bhp)
    env.observe(f"{what} q {c}", Q)
    if kind == "idle":
        env.eq(f"{what}: idle well reports the cell pressure", bhp, p, scale=100.0)
        env.eq(f"{what}: idle well has no rate", Q, env.zero(), scale=1.0)
        env.same(f"{what}: idle control", w["constrain"], None)
        return
    G = well_index(env, m, c, spec["r"], spec["s"])[1]
    J = G / (m.fluid.B * m.fluid.mu)
    env.eq(f"{what}: rate follows the drawdown", Q, -J * (p - bhp), scale=10.0)
    lim = spec.get("pwf", env.zero())
    if kind == "p":
        env.eq(f"{what}: constant bottom-hole pressure", bhp, lim, scale=100.0)
        env.same(f"{what}: pressure control", w["constrain"], "pwf")
        return
    q = spec["q"]
    env.le(f"{what}: bottom-hole pressure above its limit", lim, bhp, scale=100.0)
    est = p + q / J
    tol = 0 if env.sym else 1e-6 * (1 + abs(lim))
    env.eq(f"{what}: target rate or limiting pressure", (Q - q) * (bhp - lim), env.zero(), scale=1000.0)
    if alone and before == "pwf":
        env.eq(f"{what}: pressure control", bhp, lim, scale=100.0)
    if alone and before == "q":
        env.le(f"{what}: never more than its target", q, Q, scale=10.0)
    if bool(est > lim + tol):
        env.same(f"{what}: rate control follows", w["constrain"], "q")
        if alone and before == "q":
            env.eq(f"{what}: target is met", Q, q, scale=10.0)
    elif bool(est < lim - tol):
        env.same(f"{what}: remains limited", w["constrain"], "pwf")


def put(env, m, c, kind, tag, skin="1.5"):
    sp = dict(kind=kind, r=well_r(env, m, c), s=env.f(skin))
    a = dict(cell_id=c, r=sp["r"], s=sp["s"])
    if kind in ("q", "qp"):
        a["q"] = sp["q"] = env.real("q" + tag, nice=(-40, 20))
    if kind in ("p", "qp"):
        a["pwf"] = sp["pwf"] = env.real("pwf" + tag, nice=(500, 3000))
    m.set_well(**a)
    return sp


def steps(env, shape, comp, z, wells, bcs, n, sparse=False, vect=True, how="solve", again=None, upd=None):
    m, B, _ = sim(env, shape, comp, z, (), bcs, "flow", sparse=sparse)
    inn = interior(shape)
    S = {}
    for i, (kind, j) in enumerate(wells):
        S[inn[j]] = put(env, m, inn[j], kind, str(i))
    alone = len(wells) == 1
    s = m.solution
    for c in S:
        env.same("one value before the first step", len(m.w_pressures[c]), 1)
    for i in range(n):
        before = {c: m.wells[c]["constrain"] for c in S}
        for c, sp in S.items():
            if i == 0:
                env.same("control at the start", before[c], {"q": "q", "qp": "q", "p": "pwf", "idle": None}[sp["kind"]])
        kw = dict(vectorize=vect, isolver=None, check_MB=False, threading=False)
        s.solve(**kw) if how == "solve" else s.run(nsteps=1, **kw)
        for c, sp in S.items():
            well_step(env, m, c, sp, before[c], f"step {i + 1}", alone)
        if again and i == 0:
            c = inn[wells[0][1]]
            if again == "q":
                q = env.real("q9", nice=(-40, 20))
                m.set_well(cell_id=c, q=q)
                S[c] = dict(S[c], kind="qp" if "pwf" in S[c] else "q", q=q)
                env.same("new target is rate control", m.wells[c]["constrain"], "q")
            elif again == "pwf":
                v = env.real("pwf9", nice=(500, 3000))
                if S[c]["kind"] == "idle":
                    S[c] = dict(S[c], kind="p")
                m.set_well(cell_id=c, pwf=v)
                S[c] = dict(S[c], pwf=v, kind="qp" if "q" in S[c] else "p")
            elif again in ("object", "shut"):  # a well object replaces what was set
                q = env.real("q9", nice=(-40, 20)) if again == "object" else None
                kw9 = {} if q is None else dict(q=q)
                m.set_well(env.rf.wells.SingleCell(cell_id=c, r=S[c]["r"], s=S[c]["s"], **kw9))
                S[c] = dict(kind="idle" if q is None else "q", r=S[c]["r"], s=S[c]["s"], **kw9)
                env.same("control of the object", m.wells[c]["constrain"], None if q is None else "q")
            elif again == "other":
                c = [x for x in inn if x not in S][0]
                S[c] = put(env, m, c, "q", "8")
                alone = False
                env.same("one value per step so far", len(m.w_pressures[c]), s.nsteps)
                for t in range(1, s.nsteps):
                    env.eq("value before the well was set", m.w_pressures[c][t], s.pressures[t, c], scale=100.0)


def index(env, shape):
    """symbolic well index and coefficients, one incompressible step"""
    g = grid(env, shape, comp=env.f("0"))
    m = env.rf.models.BlackOil(g, fluid(env, comp=env.f("0")), pi=env.real("pi", nice=(500, 3000)), dt=env.f("1"), dtype="double")
    c = interior(shape)[0]
    r, s = well_r(env, m, c), env.real("s", "+", nice=(0.5, 3))
    q, lim = env.real("q", nice=(-40, 20)), env.real("pwf", nice=(500, 3000))
    m.set_well(cell_id=c, q=q, pwf=lim, r=r, s=s)
    b = flow_cells(shape)[0]
    m.set_boundaries({b: ("pressure", env.real("pb", nice=(500, 3000)))})
    compiled(env, m)
    m.solve(check_MB=False)
    well_step(env, m, c, dict(kind="qp", q=q, pwf=lim, r=r, s=s), "q", "step", True)


def obligations(tier):
    out = []
    T = tier == "thorough"
    add = lambda f, b=200, **k: out.append(Obligation(f, k, max_paths=600, budget_s=b))
    BC = [("pressure", "rate"), ("pressure", "gradient", None), ("pressure",), ("rate", "pressure", "gradient")]
    WS = [(("qp", 0),), (("q", -1),), (("p", 0),), (("idle", 0),), (("qp", 0), ("p", -1)), (("qp", 0), ("q", -1)), (("p", 0), ("p", -1)), (("idle", 0), ("qp", -1))]
    AG = [None, "q", "pwf", "other", "object", "shut"]
    i = 0
    for shape in [(3, 1, 1), (2, 2, 1), (2, 2, 2)]:
        for w in WS:
            for comp in (True, False):
                i += 1
                if shape == (2, 2, 2) and len(w) > 1 and not T:
                    continue
                ag = AG[(i // 2) % 6]
                nw = sum(k == "qp" for k, _ in w)
                add(steps, shape=shape, comp=comp, z="sym" if i % 3 else None, wells=w, bcs=BC[i % 4], n=2 + (T and nw < 2), sparse=i % 5 > 2, vect=i % 4 > 0, how="run" if i % 6 == 0 else "solve", again=ag)
    for k in ("qp", "q", "p", "idle"):
        for ag in AG:
            add(steps, shape=(2, 1, 1), comp=True, z="sym", wells=((k, 0),), bcs=BC[0], n=3 + T, again=ag)
            add(steps, shape=(3, 1, 1), comp=True, z=None, wells=((k, 1),), bcs=BC[2], n=3, vect=False, sparse=True, again=ag)
    add(steps, shape=(2, 1, 1), comp=True, z="sym", wells=(("qp", 0), ("qp", 1)), bcs=BC[2], n=2 + T)
    add(steps, shape=(3, 1, 1), comp=False, z="sym", wells=(("qp", 0), ("qp", 2)), bcs=BC[0], n=2, vect=False)
    add(index, shape=(3, 1, 1))
    add(index, shape=(2, 1, 1))
    return out
