"""Models, grids, fluids and wells do not affect each other."""
from harness.common import *
from harness.p15_time_steps import same_rows, sizes, snap

META = dict(
    bounds="2x1x1, 3x1x1, 1x2x1, 2x2x1, 2x1x2 interior cells; two models (own or shared grid and fluid), every order of 4 steps between them (thorough 5), with wells and conditions changed in one of them; two grids with symbolic data queried in turns; pressures, conditions, targets symbolic; coefficients of models concrete; models without wells and conditions; new models after others were set up and run",
    outside="a shared grid or fluid whose properties change after the models were created; changes made to containers a query returned; several processes",
)


def build(env, g, f, shape, which, comp, wells, bcs):
    m = env.rf.models.BlackOil(g, f, pi=env.real(f"pi{which}", nice=(1000, 3000)), dt=env.f("2" if which == 0 else "3"), dtype="double")
    inn = interior(shape)
    for kind, j in wells:
        c = inn[j]
        a = dict(cell_id=c, r=well_r(env, m, c), s=env.f("1.5"))
        if kind in ("q", "qp"):
            a["q"] = env.real(f"q{which}_{c}", nice=(-5, 5))
        if kind in ("p", "qp"):
            a["pwf"] = env.real(f"pwf{which}_{c}", nice=(100, 400))
        m.set_well(**a)
    B = {}
    for i, b in enumerate(flow_cells(shape)):
        k = bcs[i % len(bcs)]
        if k:
            B[b] = (k, env.real(f"v{which}_{b}", nice=(500, 3000) if k == "pressure" else (-2, 2)))
    given = dict(B)
    if given:
        m.set_boundaries(given)
    env.same("given conditions stay", sorted(given), sorted(B))
    return m


def start(env, m, shape, which, sparse):
    compiled(env, m, sparse)
    for c in interior(shape):
        m.solution.pressures[0, c] = env.real(f"o{which}_{c}", nice=(500, 3000))


def change(env, m, shape, which):
    inn = interior(shape)
    m.set_boundary(flow_cells(shape)[-1], "pressure", env.real(f"nb{which}", nice=(500, 3000)))
    if m.grid.get_fdir() in ("x", "xy"):
        m.set_well(cell_id=inn[-1], q=env.real(f"nq{which}", nice=(-5, 5)), r=well_r(env, m, inn[-1]), s=env.f("1.5"))


def models(env, shape, comp, wells, bcs, vect, order, shared, sparse, at):
    """two models; each of them as if the other did not exist"""
    def gf(w):
        return concrete_grid(env, shape, comp="0.00001" if comp else "0", hetero=bool(w == 0 or shared)), concrete_fluid(env, comp="0.00002" if comp else "0")

    g0, f0 = gf(0)
    g1, f1 = (g0, f0) if shared else gf(1)
    other = bcs[1:] + bcs[:1]
    mods = [build(env, g0, f0, shape, 0, comp, wells, bcs), build(env, g1, f1, shape, 1, comp, wells[::-1] if len(wells) > 1 else (), other)]
    for w in (0, 1):
        start(env, mods[w], shape, w, sparse)
    did = [0, 0]
    for t, w in enumerate(order):
        before = snap(env, mods[1 - w])
        if t == at:
            change(env, mods[w], shape, w)
            when = (w, did[w])
        mods[w].solve(vectorize=vect, check_MB=False, isolver=None)
        mods[w].get_df(columns=["time", "cells", "wells"], drop_nan=False, drop_zero=False)
        did[w] += 1
        after = snap(env, mods[1 - w])
        same_rows(env, shape, before, after, did[1 - w] + 1, "the other model stays")
        env.same("the other model stays", (before["control"], before["tstep"]), (after["control"], after["tstep"]))
    for w in (0, 1):
        with env.pristine():  # in a process of its own
            g, f = gf(0 if shared else w)
            alone = build(env, g, f, shape, w, comp, wells if w == 0 else (wells[::-1] if len(wells) > 1 else ()), bcs if w == 0 else other)
            start(env, alone, shape, w, sparse)
            for t in range(did[w]):
                if at is not None and (w, t) == when:
                    change(env, alone, shape, w)
                alone.solve(vectorize=vect, check_MB=False, isolver=None)
            sizes(env, shape, mods[w], did[w], "alone")
            same_rows(env, shape, snap(env, mods[w]), snap(env, alone), did[w] + 1, "as if alone")
            env.same("conditions", {b: v[0] for b, v in mods[w].bdict.items()}, {b: v[0] for b, v in alone.bdict.items()})
            env.same("wells", sorted(mods[w].wells), sorted(alone.wells))


def plain(v):
    """values of attributes that can be compared"""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, dict):
        if all(isinstance(k, (str, int)) for k in v):
            return {k: plain(x) for k, x in v.items()}
        return len(v)
    if isinstance(v, (set, frozenset)) and all(isinstance(x, (str, int)) for x in v):
        return sorted(v)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return type(v).__name__


def public(o):
    return {k: plain(getattr(o, k)) for k in sorted(vars(o)) if not k.startswith("_")}


def born(env, shape):
    """a new model does not inherit what was done with others"""
    a = build(env, concrete_grid(env, shape, comp="0.00001"), concrete_fluid(env, comp="0.00002"), shape, 0, True, (("q", 0),) if shape[0] > 1 else (), ("pressure", "rate"))
    fam = env.choice("family", ["MinMax", "minmaxscaler", None])
    a.set_scalers({"time": [fam, (-1, 1)], "space": [fam, (0, 2)], "pressure": [fam, (-3, 1)], "rate": [fam, (0, 1)]})
    start(env, a, shape, 0, False)
    for v in (False, True):
        a.solve(vectorize=v, check_MB=False, isolver=None)
    a.get_df(scale=True, drop_nan=False, drop_zero=False)

    def make():
        b = build(env, concrete_grid(env, shape, comp="0", hetero=False), concrete_fluid(env, comp="0"), shape, 1, False, (), ("rate", "pressure"))
        at = dict(model=public(b), grid=public(b.grid), fluid=public(b.fluid))
        start(env, b, shape, 1, False)
        at.update(solution=public(b.solution), compiler=public(b.compiler))
        b.solve(vectorize=False, check_MB=False, isolver=None)
        return b, at

    b, atb = make()
    tb = b.get_df(scale=True, drop_nan=False, drop_zero=False)
    with env.pristine():
        c, atc = make()
        tc = c.get_df(scale=True, drop_nan=False, drop_zero=False)
    for k in atc:
        env.same(f"a new {k}", sorted(atb[k]), sorted(atc[k]))
        for n in atc[k]:
            env.same(f"a new {k}: {n}", atb[k].get(n), atc[k][n])
    same_rows(env, shape, snap(env, b), snap(env, c), 2, "as if alone")
    env.same("scaled table", list(tb.columns), list(tc.columns))
    for n in tb.columns:
        env.eq("scaled table", list(tb[n]), list(tc[n]), scale=1.0)


def ask(env, g, shape):
    """what a grid says about itself"""
    inn = interior(shape)
    c = inn[0]
    out = dict(
        id=[int(x) for x in g.get_cells_id(False, False, "list")],
        b=sorted(int(x) for x in g.get_boundaries("id", "set")),
        n=(int(g.get_n(True)), int(g.get_n(False))),
        fshape=tuple(int(x) for x in g.get_fshape(True, False)),
        nb={k: [int(x) for x in v] for k, v in g.get_cell_neighbors(c, None, True, "dict").items()},
    )
    num = dict(
        V=[g.get_cell_V(x) for x in inn] + [g.V[x] for x in inn],
        center=list(env.np.asarray(g.get_cell_center(c)).reshape(-1)),
        G=[v for _, v in sorted(g.get_cell_G(c, None, True).items())],
        phi=[g.phi[x] for x in inn],
    )
    return out, num


def grids(env, s1, s2, order):
    """two grids queried in turns answer for themselves"""
    def mk(w, shape):
        pad, act = strides(shape)
        n = len(cells(shape))
        d = [env.arr([env.real(f"d{ax}{w}_{i}", "+", nice=(5, 50)) for i in range(m)]) if a else env.real(f"d{ax}{w}", "+", nice=(5, 50)) for ax, m, a in zip("xyz", pad, act)]
        ks = {"k" + ax: env.arr([env.real(f"k{ax}{w}_{i}", "+", nice=(1, 100)) for i in range(n)]) for ax in "xyz"}
        return env.rf.grids.RegularCartesian(nx=shape[0], ny=shape[1], nz=shape[2], dx=d[0], dy=d[1], dz=d[2], phi=env.real(f"phi{w}", "+", nice=(0.05, 0.4)), comp=env.f("0"), **ks)

    S = [s1, s2]
    gs = [mk(0, s1), mk(1, s2)]
    want = [ask(env, mk(w, S[w]), S[w]) for w in (0, 1)]
    for t, w in enumerate(order):
        a, b = ask(env, gs[w], S[w])
        env.same("grid", a, want[w][0])
        for k in b:
            env.eq(k, b[k], want[w][1][k])
        if t == 1:  # change one of them
            x = env.real("nk", "+", nice=(1, 100))
            c = interior(S[w])[0]
            gs[w].set_prop("phi", x, id=c)
            fresh = mk(w, S[w])
            fresh.set_prop("phi", x, id=c)
            want[w] = ask(env, fresh, S[w])


def fluids(env):
    """fluids keep their own values"""
    fs = [env.rf.fluids.SinglePhase(mu=env.real(f"mu{i}", "+"), B=env.real(f"B{i}", "+"), rho=env.real(f"r{i}", "+"), comp=env.real(f"c{i}", "+"), unit=u) for i, u in enumerate(["field", "metric", "lab"])]
    fs.append(env.rf.fluids.SinglePhase(mu=env.real("mu3", "+"), B=env.real("B3", "+")))
    j = env.choice("changed", [0, 1, 2, 3])
    x = env.real("x", "+")
    how = env.choice("how", ["mu", "B", "rho", "comp"])
    getattr(fs[j], "set_" + how)(x)
    for i, f in enumerate(fs):
        for k, n in (("mu", "mu"), ("B", "B"), ("rho", "r"), ("comp", "c")):
            v = x if (i == j and k == how) else (env.zero() if i == 3 and k in ("rho", "comp") else env.real(f"{n}{i}", "+"))
            env.eq(k, getattr(f, k), v)


def obligations(tier):
    import itertools

    out = []
    T = tier == "thorough"
    add = lambda f, b=200, **k: out.append(Obligation(f, k, max_paths=400, budget_s=b))
    S = [(2, 1, 1), (3, 1, 1), (1, 2, 1), (2, 2, 1)] + ([(2, 1, 2), (4, 1, 1)] if T else [])
    K = [("pressure", "rate"), ("rate", "pressure", None), ("gradient", "pressure")]
    W = [(), (("qp", 0),), (("q", 0),), (("p", 1), ("qp", 0))]
    n = 5 if T else 4
    i = 0
    for sh in S:
        flat = sh[0] > 1 and sh[2] == 1
        orders = [o for o in itertools.product((0, 1), repeat=n) if len(set(o)) > 1]
        for o in orders if T else orders[::2]:
            i += 1
            if sum(o) not in (1, 2, 3) and not T:
                continue
            add(models, shape=sh, comp=bool(i % 3), wells=W[i % 4] if flat else (), bcs=K[i % 3], vect=bool(i % 4 > 1), order=o, shared=bool(i % 2), sparse=bool(i % 5 > 2), at=(None, 1, 2)[i % 3])
    G = [(2, 1, 1), (3, 1, 1), (1, 2, 1), (2, 2, 1), (2, 1, 2)]
    for a, b in itertools.product(G, G):
        add(grids, s1=a, s2=b, order=(0, 1, 0, 1) if T or (a != b) else (0, 0, 1, 1))
    add(fluids)
    for sh in [(3, 1, 1), (1, 2, 1), (2, 2, 1)]:
        if sh != (2, 2, 1) or T:
            add(born, b=800, shape=sh)
        for o in ((0, 1), (1, 0, 1)):
            add(models, shape=sh, comp=True, wells=(("q", 0),) if sh[0] > 1 else (), bcs=(None,), vect=False, order=o, shared=False, sparse=False, at=None)
            add(models, shape=sh, comp=True, wells=(), bcs=(None,), vect=True, order=o, shared=True, sparse=True, at=1)
    return out
