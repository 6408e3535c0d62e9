"""Well index, and setting wells."""
from harness.common import *

META = dict(
    bounds="1D (x), 2D (xy) and 3D grids of up to 3x2x2 interior cells, every interior cell (a solver variable); cell sizes, permeabilities, radius, skin, rate, pressure symbolic; field, metric and lab units; up to 3 settings of a well in different order; single shapes 101x1x1, 9x9x1 (cell ids of three digits)",
    outside="1D grids along y or z and 2D grids without x and y (not supported by the package: set_well refuses them); wells wider than their cell (negative index); directional and multi-cell wells (not implemented)",
)
KEYS = ["q", "q_sp", "pwf", "pwf_sp", "constrain", "r", "s", "r_eq", "G"]


def model(env, shape, d="sym", k="sym", unit="field", **kw):
    g = grid(env, shape, d=d, k=k, comp=env.f("0"), unit=unit)
    f = fluid(env, comp=env.f("0"), unit=unit)
    return env.rf.models.BlackOil(g, f, pi=env.real("pi", nice=(500, 3000)), dt=env.f("1"), dtype="double", unit=unit, **kw)


def pick(env, shape, name="cell"):
    inn = interior(shape)
    i = env.int(name, 0, len(inn) - 1)
    return inn[i.realize() if env.sym else i]


def record(env, w, want, what):
    got = {k: w[k] for k in KEYS if k in w}
    env.same(f"{what}: entries", sorted(got), sorted(want))
    for k in want:
        if k == "constrain":
            env.same(f"{what}: {k}", got.get(k), want[k])
        elif k in got:
            env.eq(f"{what}: {k}", got[k], want[k])


def expect(env, m, c, q=None, pwf=None, r=None, s=None):
    req, G = well_index(env, m, c, r, s, check=True)
    w = dict(r=r, r_eq=req, G=G, constrain="q" if q is not None else ("pwf" if pwf is not None else None))
    if s is not None:
        w["s"] = s
    if q is not None:
        w["q"] = w["q_sp"] = q
    w["pwf"] = w["pwf_sp"] = env.zero() if pwf is None else pwf
    return w


def values(env, names):
    a = {}
    if "q" in names:
        a["q"] = env.real("q", nice=(-50, 50))
    if "p" in names:
        a["pwf"] = env.real("pwf", "0+", nice=(100, 2000))
    a["r"] = env.real("r", "+", nice=(0.5, 4))
    if "s" in names:
        a["s"] = env.real("s", nice=(0, 3))
    if "0" in names:
        a["s"] = env.zero()
        a["q"] = env.zero()
    return a


def index(env, shape, names, unit, d, k):
    m = model(env, shape, d, k, unit)
    c = pick(env, shape)
    a = values(env, names)
    want = expect(env, m, c, **a)
    m.set_well(cell_id=c, **a)
    record(env, m.wells[c], want, "well")
    env.same("wells", sorted(m.wells), [c])
    env.same("pressures", len(m.w_pressures[c]), 1)
    env.eq("pressure before the first step", m.w_pressures[c][0], m.pi)
    env.lt("positive index", env.zero(), m.wells[c]["G"])


def again(env, shape, first, second):
    """later settings change what they name"""
    m = model(env, shape, "uniform", "sym")
    c = pick(env, shape)
    a = values(env, first)
    expect(env, m, c, **a)
    m.set_well(cell_id=c, **a)
    b = {}
    for n in second:
        b[{"q": "q", "p": "pwf", "s": "s", "r": "r"}[n]] = env.real(n + "2", "+", nice=(0.5, 3))
    m.set_well(cell_id=c, **b)
    full = dict(a, **b)
    want = expect(env, m, c, **full)
    record(env, m.wells[c], want, "set again")
    env.same("one value", len(m.w_pressures[c]), 1)


def order(env, shape, parts):
    """set at once or one by one"""
    m1 = model(env, shape, "uniform", "uniform")
    m2 = env.rf.models.BlackOil(m1.grid, m1.fluid, pi=m1.pi, dt=m1.dt, dtype="double")
    c = pick(env, shape)
    a = values(env, "qps")
    want = expect(env, m1, c, **a)
    m1.set_well(cell_id=c, **a)
    for p in parts:
        m2.set_well(cell_id=c, **{k: a[k] for k in p})
    record(env, m1.wells[c], want, "at once")
    record(env, m2.wells[c], want, "one by one")


def objects(env, shape, names, how):
    """a well object is the same as its values"""
    a = values(env, names)
    c = pick(env, shape)
    inn = interior(shape)
    m = model(env, shape, "uniform", "uniform")
    want = expect(env, m, c, **a)
    other = inn[(inn.index(c) + 1) % len(inn)]
    w = env.rf.wells.SingleCell(cell_id=other if how == "override" else c, **a)
    before = dict(vars(w))
    if how == "constructor":
        m = env.rf.models.BlackOil(m.grid, m.fluid, well=w, pi=m.pi, dt=m.dt, dtype="double")
    elif how == "override":
        m.set_well(w, cell_id=c)
    elif how == "replace":
        m.set_well(cell_id=c, q=env.real("q0"), pwf=env.real("p0", "+"), r=env.real("r0", "+", nice=(0.5, 3)), s=env.real("s0", "+", nice=(0.5, 3)))
        m.set_well(w)
    else:
        m.set_well(well=w)
    record(env, m.wells[c], want, "object")
    env.same("wells", sorted(m.wells), [c])
    env.same("object is left alone", sorted(vars(w)), sorted(before))
    for k in before:
        if k != "constrain":
            env.eq("object values", vars(w)[k], before[k])


def refused(env, shape):
    """cells outside of the reservoir"""
    m = model(env, shape, "uniform", "uniform")
    r = env.real("r", "+", nice=(0.5, 4))
    q = env.real("q", nice=(-5, 5))
    bad = boundary(shape) + [-1, len(cells(shape)), len(cells(shape)) + 3]
    i = env.int("bad", 0, len(bad) - 1)
    b = bad[i.realize() if env.sym else i]
    env.check("cells outside are refused", env.raises(lambda: m.set_well(cell_id=b, q=q, r=r), AssertionError))
    w = env.rf.wells.SingleCell(cell_id=b, q=q, r=r)
    env.check("objects outside are refused", env.raises(lambda: m.set_well(w), AssertionError))
    env.check("a cell is required", env.raises(lambda: m.set_well(q=q, r=r), AssertionError))
    env.same("no wells", dict(m.wells), {})


def several(env, shape):
    """wells do not affect each other"""
    m = model(env, shape, "uniform", "sym")
    inn = interior(shape)
    a, b = inn[0], inn[-1]
    va = values(env, "qps")
    vb = dict(pwf=env.real("pwfb", "+", nice=(100, 2000)), r=env.real("rb", "+", nice=(0.5, 3)))
    wa, wb = expect(env, m, a, **va), expect(env, m, b, **vb)
    m.set_well(cell_id=a, **va)
    m.set_well(cell_id=b, **vb)
    record(env, m.wells[a], wa, "first")
    record(env, m.wells[b], wb, "second")
    m2 = env.rf.models.BlackOil(m.grid, m.fluid, pi=m.pi, dt=m.dt, dtype="double")
    env.same("other model", dict(m2.wells), {})


def obligations(tier):
    out = []
    add = lambda f, b=200, **k: out.append(Obligation(f, k, max_paths=400, budget_s=b))
    S = [(3, 1, 1), (2, 2, 1), (2, 2, 2)] + ([(5, 1, 1), (3, 3, 1), (3, 2, 2)] if tier == "thorough" else [])
    for sh in S:
        for n in ("q", "p", "qp", "", "s", "qs", "ps", "qps", "0"):
            add(index, shape=sh, names=n, unit="field", d="sym", k="sym")
        for u in ("metric", "lab"):
            add(index, shape=sh, names="qps", unit=u, d="sym", k="uniform")
        for a, b in (("q", "p"), ("p", "q"), ("q", "q"), ("qs", "s"), ("q", "s"), ("qp", "r"), ("qps", "rs"), ("p", "p"), ("", "q"), ("", "p"), ("q", "qprs")):
            add(again, shape=sh, first=a, second=b)
        for parts in ((("r", "s"), ("q", "pwf")), (("r", "q"), ("pwf", "s")), (("r", "pwf"), ("s",), ("q",)), (("q", "r", "s"), ("pwf",)), (("pwf", "r"), ("q", "s"))):
            add(order, shape=sh, parts=parts)
        for how in ("set", "constructor", "override", "replace"):
            for n in ("qs", "q", "s", "0", ""):
                add(objects, shape=sh, names=n, how=how)
        add(refused, shape=sh)
        add(several, shape=sh)
    # cell ids of three digits
    for sh in [(101, 1, 1), (9, 9, 1)]:
        add(index, shape=sh, names="qps", unit="field", d="sym", k="sym")
        add(several, shape=sh)
    return out
