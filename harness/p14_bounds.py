"""Pressures stay within the data, and respond in the right direction."""
from harness.common import *

META = dict(
    bounds="3x1x1, 1x2x1, 2x2x1, 2x1x2, 2x2x2 interior cells (thorough: 4x1x1, 3x2x1); one step (two in thorough); states, conditions, rates symbolic, coefficients concrete; signs of the coefficients with every coefficient symbolic; signs also on 101x1x1, 9x9x1 (cell ids of three digits)",
    outside="depth differences (gravity) in the bounds on pressures; larger grids; gradient conditions in the bounds; floating point rounding",
)


def signs(env, shape, comp, bcs, well):
    """the equations are those of an M-matrix for any coefficients"""
    cc = dict(comp=True) if comp else dict(comp=env.f("0"))
    n = len(cells(shape))
    if well:  # a known well index
        g = concrete_grid(env, shape, **(dict(comp="0.00001") if comp else dict(comp="0")))
    else:
        g = grid(env, shape, d="sym", k="sym" if n < 40 else "scaled", phi="sym", z="sym", **cc)
    m = env.rf.models.BlackOil(g, fluid(env, **cc), pi=env.real("pi", nice=(1000, 3000)), dt=env.real("dt", "+", nice=(0.5, 5)), dtype="double")
    inn = interior(shape)
    if well:
        c = inn[0]
        m.set_well(cell_id=c, pwf=env.real("pwf", nice=(100, 1000)), r=well_r(env, m, c), s=env.f("1.5"))
    B = {}
    for i, b in enumerate(flow_cells(shape)):
        k = bcs[i % len(bcs)]
        if k:
            B[b] = (k, bc_value(env, f"v{b}", k))
    m.set_boundaries(dict(B))
    compiled(env, m)
    adj = {frozenset((a, b)) for _, a, b in adjacent(shape)}
    for how in ("vect", "symb"):
        A, d = getattr(m.solution, "get_matrices_" + how)()
        A = dense(env, A)
        for i, c in enumerate(inn):
            env.lt(f"{how}: diagonal is negative", A[i, i], env.zero())
            row = env.zero()
            for j, c2 in enumerate(inn):
                row = row + A[i, j]
                if i != j:
                    if frozenset((c, c2)) in adj:
                        env.lt(f"{how}: neighbours are coupled", env.zero(), A[i, j])
                    else:
                        env.eq(f"{how}: others are not coupled", A[i, j], env.zero())
                    env.eq(f"{how}: symmetric", A[i, j], A[j, i])
            acc = accumulation(env, m, c) if comp else env.zero()
            for b, (k, v) in B.items():
                o = opposite(shape, b)
                if k == "pressure" and o[1] == c:
                    acc = acc + 2 * trans(env, m, o[0], c, b)
            if well and c == inn[0]:
                acc = acc + well_index(env, m, c, well_r(env, m, c), env.f("1.5"))[1] / (m.fluid.B * m.fluid.mu)
            env.eq(f"{how}: row sum is storage and boundary coupling", -row, acc, scale=-A[i, i])


def base(env, shape, comp):
    g = concrete_grid(env, shape, comp="0.00001" if comp else "0")
    f = concrete_fluid(env, comp="0.00002" if comp else "0")
    return g, f


def build(env, gf, shape, B, W, old, vect, sparse):
    m = env.rf.models.BlackOil(*gf, pi=env.f("1000"), dt=env.f("2"), dtype="double")
    for c, w in W.items():
        m.set_well(cell_id=c, r=well_r(env, m, c), s=env.f("1.5"), **w)
        if "q" in w:
            m.wells[c]["pwf_sp"] = env.f("-1000000000")  # never the limit
    m.set_boundaries(dict(B))
    compiled(env, m, sparse)
    for c, v in zip(interior(shape), old):
        m.solution.pressures[0, c] = v
    return m


def within(env, shape, comp, pb, well, vect, sparse, n):
    """without sources no pressure leaves the range of old and boundary pressures"""
    inn = interior(shape)
    gf = base(env, shape, comp)
    lo, hi = env.real("lo", nice=(500, 1000)), env.real("hi", nice=(2500, 3000))
    env.assume(lo < hi)
    old = [env.real(f"o{c}", nice=(1100, 2400)) for c in inn]
    B = {}
    for i, b in enumerate(flow_cells(shape)):
        if pb == "all" or pb == "one" and i == 0:
            B[b] = ("pressure", env.real(f"v{b}", nice=(1100, 2400)))
    W = {}
    if well:
        W[inn[-1]] = dict(pwf=env.real("pwf", nice=(1100, 2400)))
    vals = (old if comp else []) + [v for _, v in B.values()] + [w["pwf"] for w in W.values()]
    for v in vals:
        env.assume(lo <= v)
        env.assume(v <= hi)
    m = build(env, gf, shape, B, W, old, vect, sparse)
    for t in range(1, n + 1):
        m.solution.solve(vectorize=vect, isolver=None, check_MB=False)
        P = m.solution.pressures
        for c in inn:
            env.le(f"step {t}: not below", lo, P[t, c], scale=1000.0)
            env.le(f"step {t}: not above", P[t, c], hi, scale=1000.0)


def responds(env, shape, comp, what, vect, sparse):
    """raising one input raises no pressure downwards"""
    inn = interior(shape)
    gf = base(env, shape, comp)
    old = [env.real(f"o{c}", nice=(1000, 2500)) for c in inn]
    fb = flow_cells(shape)
    B = {fb[0]: ("pressure", env.real("v0", nice=(1000, 2500)))}
    for b in fb[1:]:
        B[b] = ("rate", env.real(f"v{b}", nice=(-5, 5)))
    c = inn[-1]
    W = {c: dict(q=env.real("q", nice=(-20, 20)))}
    if what == "pwf":
        W = {c: dict(pwf=env.real("pwf", nice=(500, 3000)))}
    old2, B2, W2 = list(old), dict(B), dict(W)
    dv = env.real("delta", "+", nice=(1, 30))
    own = None
    if what == "old":
        i = env.int("which", 0, len(inn) - 1)
        i = i.realize() if env.sym else i
        old2[i] = old[i] + dv
        own = inn[i]
    elif what == "pressure":
        B2[fb[0]] = ("pressure", B[fb[0]][1] + dv)
        own = opposite(shape, fb[0])[1]
    elif what == "rate":
        i = env.int("which", 1, len(fb) - 1)
        i = i.realize() if env.sym else i
        B2[fb[i]] = ("rate", B[fb[i]][1] + dv)
        own = opposite(shape, fb[i])[1]
    elif what == "well":
        W2 = {c: dict(q=W[c]["q"] + dv)}
        own = c
    elif what == "pwf":
        W2 = {c: dict(pwf=W[c]["pwf"] + dv)}
        own = c
    r = []
    for b, w, o in ((B, W, old), (B2, W2, old2)):
        m = build(env, gf, shape, b, w, o, vect, sparse)
        m.solution.solve(vectorize=vect, isolver=None, check_MB=False)
        if what == "well":
            env.assume(m.wells[c]["constrain"] == "q")
        r.append(m)
    p1, p2 = r[0].solution.pressures[1], r[1].solution.pressures[1]
    for x in inn:
        env.le("no pressure falls", p1[x], p2[x], scale=1000.0)
        env.lt("the reservoir is connected: every pressure rises", p1[x], p2[x])
    if what == "well":
        env.lt("the well responds", r[0].w_pressures[c][1], r[1].w_pressures[c][1])
    if what == "pwf":
        env.lt("a higher bottom-hole pressure produces less", r[0].solution.rates[1, c], r[1].solution.rates[1, c])


def obligations(tier):
    out = []
    T = tier == "thorough"
    add = lambda f, b=200, **k: out.append(Obligation(f, k, max_paths=600, budget_s=b))
    S = [(3, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (2, 1, 2), (2, 2, 2)]
    if T:
        S += [(5, 1, 1), (3, 2, 1), (3, 3, 1), (1, 2, 2)]
    i = 0
    for sh in S:
        w = sh[0] > 1 and (sh[1] > 1 or sh[2] == 1)
        for comp in (True, False):
            for k in (("pressure", "rate"), ("pressure", "gradient", None)):
                i += 1
                add(signs, shape=sh, comp=comp, bcs=k, well=w and bool(i % 2))
            for pb in ("all", "one") + (("none",) if comp else ()):
                i += 1
                add(within, shape=sh, comp=comp, pb=pb, well=w and bool(i % 2), vect=i % 3 > 0, sparse=i % 4 > 1, n=2 if T or sh == (3, 1, 1) else 1)
            if w:
                for what in ("old", "pressure", "rate", "well", "pwf"):
                    i += 1
                    if comp or what != "old":
                        add(responds, shape=sh, comp=comp, what=what, vect=i % 3 > 0, sparse=i % 4 > 1)
    # cell ids of three digits
    for sh in [(101, 1, 1), (9, 9, 1)]:
        add(signs, shape=sh, comp=True, bcs=("pressure", "rate"), well=True)
    return out
