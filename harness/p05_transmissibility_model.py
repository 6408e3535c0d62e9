"""Transmissibility of the model."""
from harness.common import *

META = dict(
    bounds="shapes up to 3x1x1, 2x2x1 (all planes), 2x2x2; every coefficient symbolic; histories of up to three property changes; single shapes 101x1x1, 9x9x1 (cell ids of three digits)",
    outside="larger grids; floating point rounding",
)


def build(env, shape, d, k, unify=True):
    g = grid(env, shape, d=d, k=k, unify=unify)
    f = fluid(env)
    return env.rf.models.BlackOil(g, f, pi=env.f("1000"), dtype="double")


def expected(env, m, shape, bound):
    ids = [c for c, _, _ in cells(shape)] if bound else interior(shape)
    pos = {c: i for i, c in enumerate(ids)}
    n = len(ids)
    want = [[env.zero()] * n for _ in range(n)]
    for ax, a, b in adjacent(shape):
        if a in pos and b in pos:
            want[pos[a]][pos[b]] = want[pos[b]][pos[a]] = trans(env, m, ax, a, b)
    return env.arr(want)


def agree(env, m, shape, what=""):
    bs = set(boundary(shape))
    for b in (False, True):
        w = expected(env, m, shape, b)
        for sparse in (False, True):
            env.eq("matrix" + what, dense(env, m.get_cells_trans(b, sparse, True)), w)
        n = w.shape[0]
        pad = strides(shape)[0] if b else shape
        act = [x for x, a in zip(pad, strides(shape)[1]) if a]
        off = [1]
        for x in act[:-1]:
            off.append(off[-1] * x)
        for i, o in enumerate(off):
            env.eq("diagonal" + what, m.get_cells_trans_diag(b, i + 1), env.arr([w[j, j + o] for j in range(n - o)]))
    w = expected(env, m, shape, False)
    for sparse in (False, True):
        env.eq("matrix cell by cell" + what, dense(env, m.get_cells_trans(False, sparse, False)), w)
    co = {c: t for c, t, _ in cells(shape)}
    for c in interior(shape):
        for b in (False, True):
            nb = neighbors(shape, c, b)
            want = {n: trans(env, m, ax, c, n) for ax in "xyz" for n in nb[ax]}
            env.eq("cell" + what, {int(i): v for i, v in m.get_cell_trans(c, None, b).items()}, want)
            got = m.get_cell_trans(None, co[c], b)
            env.eq("cell by coords" + what, {tuple(int(y) for y in i): v for i, v in got.items()}, {co[n]: v for n, v in want.items()})
    for b in sorted(bs):
        nb = neighbors(shape, b, False)
        want = {n: trans(env, m, ax, b, n) for ax in "xyz" for n in nb[ax]}
        env.eq("boundary cell" + what, {int(i): v for i, v in m.get_cell_trans(b, None, False).items()}, want)
        for n in want:
            env.lt("positive", 0, want[n])


def static(env, shape, d, k, unify):
    m = build(env, shape, d, k, unify)
    agree(env, m, shape)
    env.observe("T", m.get_cells_trans(False, False, True))


def change(env, shape, how):
    """answers follow changes of fluid and grid"""
    m = build(env, shape, "uniform", "uniform")
    agree(env, m, shape, " before a change")
    x = env.real("x", "+", nice=(1, 9))
    c = 0
    if how in ("kcell", "all"):
        c = env.int("cell", 0, len(cells(shape)) - 1)
        c = c.realize() if env.sym else c
    ax = "xyz"[[i for i, n in enumerate(shape) if n > 1][-1]]
    if how == "mu":
        m.fluid.set_mu(x)
    elif how == "B":
        m.fluid.set_props(B=x)
    elif how == "k":
        m.grid.set_prop("k" + ax, x)
    elif how == "kcell":
        m.grid.set_prop("k" + ax, x, id=c)
    elif how == "all":
        m.grid.set_props(**{"k" + ax: x}, id=c)
        agree(env, m, shape, " after one change")
        m.fluid.set_mu(x)
        m.fluid.set_B(2 * x)
        m.grid.set_prop("k" + ax, 3 * x)
    agree(env, m, shape, " after a change")
    env.observe("T", m.get_cells_trans(False, False, True))


def two_models(env, shape):
    """one grid, two fluids: each model keeps its own transmissibilities"""
    g = grid(env, shape, d="uniform", k="sym")
    f1 = env.rf.fluids.SinglePhase(mu=env.real("mu1", "+"), B=env.real("B1", "+"), rho=env.f("50"))
    f2 = env.rf.fluids.SinglePhase(mu=env.real("mu2", "+"), B=env.real("B2", "+"), rho=env.f("50"))
    m1 = env.rf.models.BlackOil(g, f1, pi=env.f("100"), dtype="double")
    m2 = env.rf.models.BlackOil(g, f2, pi=env.f("100"), dtype="double")
    for _ in range(2):
        agree(env, m1, shape, " of the first model")
        agree(env, m2, shape, " of the second model")
    env.observe("T", m2.get_cells_trans(False, False, True))


def order(env, shape, d, k, unify):
    """answers do not depend on what was asked before"""
    co = {c: t for c, t, _ in cells(shape)}

    def questions(m):
        q = []
        for b in (False, True):
            for sparse in (False, True):
                q += asks("matrix", m, "get_cells_trans", boundary=b, sparse=sparse, vectorize=True)
                q += asks("geometry", m.grid, "get_cells_G", boundary=b, sparse=sparse)
            for i in range(sum(n > 1 for n in shape)):
                q += asks("diagonal", m, "get_cells_trans_diag", boundary=b, diag_n=i + 1)
            for c in interior(shape)[:3]:
                q += asks("cell", m, "get_cell_trans", cell_id=c, boundary=b)
                q += asks("cell", m, "get_cell_trans", cell_coords=co[c], boundary=b)
                q += asks("cell geometry", m.grid, "get_cell_G", id=c, boundary=b)
                q += asks("neighbours", m.grid, "get_cell_neighbors", id=c, boundary=b)
        for sparse in (False, True):
            q += asks("matrix cell by cell", m, "get_cells_trans", boundary=False, sparse=sparse, vectorize=False)
        for b in boundary(shape)[:3]:
            q += asks("boundary cell", m, "get_cell_trans", cell_id=b, boundary=False)
        return q

    got = any_order(env, lambda: build(env, shape, d, k, unify), questions)
    env.observe("answers", len(got))


def obligations(tier):
    shapes = [(2, 1, 1), (3, 1, 1), (1, 3, 1), (1, 1, 3), (2, 2, 1), (3, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2)]
    if tier == "thorough":
        shapes += [(2, 3, 1), (4, 1, 1), (3, 2, 2), (2, 3, 2), (2, 2, 3)]
    out = []
    for s in shapes:
        for d, k in [("sym", "sym"), ("uniform", "uniform"), ("uniform", "sym"), ("sym", "uniform")]:
            out.append(Obligation(static, dict(shape=s, d=d, k=k, unify=True)))
        if min(s) == 1:
            out.append(Obligation(static, dict(shape=s, d="sym", k="sym", unify=False)))
        out.append(Obligation(order, dict(shape=s, d="sym", k="sym", unify=min(s) > 1 or s[1] > 1)))
    for s in [(3, 1, 1), (2, 2, 1), (2, 2, 2)]:
        for how in ("mu", "B", "k", "kcell", "all"):
            if s == (2, 2, 2) and how in ("kcell", "all") and tier == "quick":
                continue
            out.append(Obligation(change, dict(shape=s, how=how)))
        out.append(Obligation(two_models, dict(shape=s)))
    # cell ids of three digits
    for s in [(101, 1, 1), (9, 9, 1)]:
        for d, k in [("sym", "sym"), ("uniform", "uniform")]:
            out.append(Obligation(static, dict(shape=s, d=d, k=k, unify=d == "sym")))
    return out
