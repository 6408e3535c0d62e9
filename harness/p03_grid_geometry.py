"""Lengths, areas, volumes and centres of cells."""
from harness.common import *

META = dict(
    bounds="shapes up to 4 cells in 1D, 3x2 (all planes) and 3x2x2 (2x2x2 quick); every cell length symbolic and positive; single shapes 101x1x1, 9x9x1, 1x1x101, 5x4x5 (cell ids of three digits)",
    outside="larger shapes; floating point rounding; VTK rendering",
    assumptions=["VTK: natural ordering of cells of a structured grid; volume and centre of box cells follow from their corners"],
)


def tables(env, shape, d, unify, form="array"):
    """expected per-cell lengths and a grid"""
    pad, act = strides(shape)
    ax = axis_lengths(env, shape, d)
    vec = []
    for a, (n, t) in enumerate(zip(pad, act)):
        vec.append([ax[a][i] for i in range(n)] if (t and d != "uniform") else [ax[a]] * n)
    if form != "array":
        ax = [({"list": list, "tuple": tuple}[form](vec[a]) if act[a] else ax[a]) for a in range(3)]
    g = env.rf.grids.RegularCartesian(
        nx=shape[0], ny=shape[1], nz=shape[2], dx=ax[0], dy=ax[1], dz=ax[2], kx=env.f("10"), phi=env.f("0.2"), unify=unify
    )
    D = {s: [vec[a][ijk[a]] for _, ijk, _ in cells(shape)] for a, s in enumerate("xyz")}
    C = []
    for _, ijk, _ in cells(shape):
        C.append([sum(vec[a][: ijk[a]], env.zero()) + vec[a][ijk[a]] / 2 for a in range(3)])
    return g, D, C, vec, ax


def forms(env, label, get, want, shape, g, inn):
    """all array forms of a per-cell quantity"""
    w = env.arr(want)
    tail = tuple(w.shape[1:])
    for b in (True, False):
        x = w if b else w[inn]
        env.eq(label + " flat", get(b, False), x)
        env.eq(label + " flow shape", get(b, True), x.reshape(tuple(g.get_fshape(b)) + tail))


def measures(env, shape, d, unify, form="array"):
    g, D, C, vec, ax = tables(env, shape, d, unify, form)
    inn = interior(shape)
    n = len(D["x"])
    A = {"x": [D["y"][i] * D["z"][i] for i in range(n)], "y": [D["x"][i] * D["z"][i] for i in range(n)], "z": [D["x"][i] * D["y"][i] for i in range(n)]}
    V = [D["x"][i] * D["y"][i] * D["z"][i] for i in range(n)]
    for s in "xyz":
        forms(env, "d" + s, lambda b, f: g.get_cells_d(s, b, f), D[s], shape, g, inn)
        forms(env, "A" + s, lambda b, f: g.get_cells_A(s, b, f), A[s], shape, g, inn)
    forms(env, "dx", g.get_cells_dx, D["x"], shape, g, inn)
    forms(env, "dy", g.get_cells_dy, D["y"], shape, g, inn)
    forms(env, "dz", g.get_cells_dz, D["z"], shape, g, inn)
    forms(env, "Ax", g.get_cells_Ax, A["x"], shape, g, inn)
    forms(env, "Ay", g.get_cells_Ay, A["y"], shape, g, inn)
    forms(env, "Az", g.get_cells_Az, A["z"], shape, g, inn)
    forms(env, "V", lambda b, f: g.get_cells_V(b, f, False), V, shape, g, inn)
    forms(env, "centre", lambda b, f: g.get_cells_center(b, f, False), C, shape, g, inn)
    env.eq("total volume", g.get_Vt(True), sum(V, env.zero()))
    env.eq("total volume inside", g.get_Vt(False), sum((V[i] for i in inn), env.zero()))
    env.eq("lengths", g.get_cells_d("dict", True, False), {s: env.arr(D[s]) for s in "xyz"})
    env.eq("areas", g.get_cells_A("dict", True, False), {s: env.arr(A[s]) for s in "xyz"})
    for b in (True, False):
        forms_again = g.get_cells_center(b, False, False)
        env.eq("centre asked twice", forms_again, env.arr(C) if b else env.arr([C[i] for i in inn]))
    reg = all(len(v) <= 2 for v in vec)
    if d == "uniform":
        env.check("regular", g.is_regular)
        env.check("regular", not g.is_irregular)
    env.observe("V", g.get_cells_V(True, False, False))
    env.observe("c", g.get_cells_center(True, False, False))


def onecell(env, shape, d, unify):
    g, D, C, vec, ax = tables(env, shape, d, unify)
    n = len(D["x"])
    c = env.int("cell", 0, n - 1)
    c = c.realize() if env.sym else c
    ijk = cells(shape)[c][1]
    x, y, z = D["x"][c], D["y"][c], D["z"][c]
    for kw in (dict(id=c), dict(coords=ijk)):
        env.eq("dx", g.get_cell_dx(**kw), x)
        env.eq("dy", g.get_cell_dy(**kw), y)
        env.eq("dz", g.get_cell_dz(**kw), z)
        env.eq("Ax", g.get_cell_Ax(**kw), y * z)
        env.eq("Ay", g.get_cell_Ay(**kw), x * z)
        env.eq("Az", g.get_cell_Az(**kw), x * y)
        env.eq("V", g.get_cell_V(**kw), x * y * z)
        env.eq("centre", g.get_cell_center(**kw), env.arr(C[c]))
    env.check("cell must be named", env.raises(lambda: g.get_cell_V(), ValueError))
    env.observe("V", g.get_cell_V(id=c))


def boxes(env, shape, d, unify):
    """geometry handed to the structured grid agrees with the cell tables"""
    g, D, C, vec, ax = tables(env, shape, d, unify)
    inn = interior(shape)
    V = [D["x"][i] * D["y"][i] * D["z"][i] for i in range(len(C))]
    for b in (True, False):
        ids = list(range(len(C))) if b else inn
        pad, _ = strides(shape)
        nx, ny, nz = pad if b else shape
        P = env.np.asarray(g.get_corners(b)).reshape(2 * nz, 2 * ny, 2 * nx, 3)
        low = {}
        for m, c in enumerate(ids):
            i, j, k = m % nx, m // nx % ny, m // (nx * ny)
            box = P[2 * k : 2 * k + 2, 2 * j : 2 * j + 2, 2 * i : 2 * i + 2, :]
            for a, s in enumerate("xyz"):
                lo, hi = C[c][a] - D[s][c] / 2, C[c][a] + D[s][c] / 2
                sel = [0, 0, 0]
                for up in (0, 1):
                    for q in range(4):
                        idx = [q & 1, q >> 1]
                        t = [0, 0, 0]
                        o = [x for x in range(3) if x != 2 - a]
                        t[o[0]], t[o[1]], t[2 - a] = idx[0], idx[1], up
                        env.eq("corners", box[t[0], t[1], t[2], a], hi if up else lo)
    env.eq("volumes from corners", g.get_cells_V(True, False, True), env.arr(V), rtol=1e-4)
    env.eq("volumes from corners inside", g.get_cells_V(False, False, True), env.arr([V[i] for i in inn]), rtol=1e-4)
    env.eq("centres from corners", g.get_cells_center(True, False, True), env.arr(C), rtol=1e-4)
    env.eq("total from corners", g.get_Vt(True, True), sum(V, env.zero()), rtol=1e-4)
    env.eq("total from corners inside", g.get_Vt(False, True), sum((V[i] for i in inn), env.zero()), rtol=1e-4)
    env.observe("corners", g.get_corners(False))


def inputs(env, shape):
    """given arrays are not written to, wrong lengths are refused"""
    pad, act = strides(shape)
    g, D, C, vec, ax = tables(env, shape, "sym", True)
    g.get_cells_center(True, False, False)
    g.get_corners(True)
    g.get_cells_center(False, True, False)
    for a in range(3):
        if act[a]:
            env.eq("input array", ax[a], env.arr(vec[a]))
            bad = list(ax)
            bad[a] = env.arr(vec[a][:-2])
            mk = lambda: env.rf.grids.RegularCartesian(nx=shape[0], ny=shape[1], nz=shape[2], dx=bad[0], dy=bad[1], dz=bad[2], kx=env.f("10"), phi=env.f("0.2"))
            env.check("lengths without boundary cells are refused", env.raises(mk, AssertionError))
    env.eq("lengths after use", g.get_cells_d("x", True, False), env.arr(D["x"]))
    i1, i2 = interior(shape)[0], interior(shape)[-1]
    same = True
    for s in "xyz":
        v = [D[s][c] for c in interior(shape)]
        for x in v:
            same = same and bool(x == v[0])
    env.same("regular flag", bool(g.is_regular), bool(same))
    env.same("irregular flag", bool(g.is_irregular), not same)
    env.observe("x", g.dx)


def order(env, shape, d, unify):
    """answers do not depend on what was asked before"""
    c = env.int("cell", 0, len(cells(shape)) - 1)
    c = c.realize() if env.sym else c
    ijk = cells(shape)[c][1]
    ends = (interior(shape)[0], interior(shape)[-1])

    def questions(g):
        q = []
        for s in ("x", "y", "z", "dict"):
            for b in (True, False):
                for f in (False, True):
                    q += asks("lengths", g, "get_cells_d", dir=s, boundary=b, fshape=f)
                    q += asks("areas", g, "get_cells_A", dir=s, boundary=b, fshape=f)
            if s != "dict":
                for kw in (dict(id=c), dict(coords=ijk)):
                    q += asks("length", g, "get_cell_d", dir=s, **kw)
                    q += asks("area", g, "get_cell_A", dir=s, **kw)
        for b in (True, False):
            q += asks("total volume", g, "get_Vt", boundary=b)
            q += asks("corners", g, "get_corners", boundary=b)
            for f in (False, True):
                q += asks("volumes", g, "get_cells_V", boundary=b, fshape=f)
                q += asks("centres", g, "get_cells_center", boundary=b, fshape=f)
        for kw in (dict(id=c), dict(coords=ijk)):
            q += asks("volume", g, "get_cell_V", **kw)
            q += asks("centre", g, "get_cell_center", **kw)
        q += [("dx", lambda: g.dx), ("d", lambda: g.d["y"]), ("A", lambda: g.A["z"]), ("V", lambda: g.V)]
        q += asks("ids", g, "get_cells_id", boundary=False, fshape=False) + asks("neighbours", g, "get_cell_neighbors", id=ends[0], boundary=True)
        return q

    got = any_order(env, lambda: tables(env, shape, d, unify)[0], questions)
    env.observe("answers", len(got))


def obligations(tier):
    shapes = [(2, 1, 1), (4, 1, 1), (1, 3, 1), (1, 1, 3), (3, 2, 1), (2, 3, 1), (3, 1, 2), (1, 2, 3), (2, 2, 2), (3, 2, 2)]
    if tier == "thorough":
        shapes += [(1, 3, 2), (2, 1, 3), (4, 3, 1), (2, 3, 2), (2, 2, 3), (3, 3, 3), (1, 5, 1)]
    out = []
    for s in shapes:
        for u in (True, False):
            if not u and min(s) > 1:
                continue
            for d in ("sym", "uniform"):
                out.append(Obligation(measures, dict(shape=s, d=d, unify=u)))
                if u or d == "sym":
                    out.append(Obligation(onecell, dict(shape=s, d=d, unify=u)))
            out.append(Obligation(boxes, dict(shape=s, d="sym", unify=u)))
            if len(cells(s)) < 40:
                out.append(Obligation(order, dict(shape=s, d="sym" if u else "uniform", unify=u)))
    for form in ("list", "tuple"):
        for s in [(3, 1, 1), (2, 3, 1), (2, 2, 2)]:
            out.append(Obligation(measures, dict(shape=s, d="sym", unify=True, form=form)))
    for s in [(3, 1, 1), (1, 2, 2), (2, 2, 2)]:
        out.append(Obligation(inputs, dict(shape=s)))
    # cell ids of three digits
    for s in [(101, 1, 1), (9, 9, 1), (1, 1, 101), (5, 4, 5)]:
        out.append(Obligation(measures, dict(shape=s, d="sym", unify=True)))
        out.append(Obligation(onecell, dict(shape=s, d="sym", unify=s[0] != 9)))
        out.append(Obligation(boxes, dict(shape=s, d="sym", unify=True)))
    return out
