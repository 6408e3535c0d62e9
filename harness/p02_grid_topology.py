"""Numbering, coordinates, neighbours and boundaries of cells."""
from harness.common import *

META = dict(
    bounds="every interior shape up to 3 cells per axis (quick: up to 2 in 3D plus 3x3 planes), every cell, both array forms; cell id is a solver variable; single shapes 101x1x1, 1x101x1, 1x1x101, 9x9x1, 5x4x5 (cell ids of three digits)",
    outside="larger grids; rendering",
)


def fset(d, fmt):
    return {"list": list, "tuple": tuple, "set": set}[fmt](d)


def counts(env, shape, unify):
    g = grid(env, shape, unify=unify)
    pad, act = strides(shape)
    fdir = "".join(s for s, a in zip("xyz", act) if a)
    env.same("dimensions", int(g.get_D()), sum(act))
    env.same("flow direction", g.get_fdir(), fdir)
    for b, sh in ((True, pad), (False, tuple(shape)), (True, pad)):
        env.same("shape", tuple(int(x) for x in g.get_shape(b)), sh)
        env.same("n", int(g.get_n(b)), sh[0] * sh[1] * sh[2])
        env.same("n_max", int(g.get_n_max(b)), max(sh))
        if unify or len(fdir) == 3:
            fs = sh[::-1]
        else:
            fs = tuple(n for n, a in zip(sh[::-1], act[::-1]) if a)
        env.same("flow shape", tuple(int(x) for x in g.get_fshape(b)), fs)
        env.same("flow shape of points", tuple(int(x) for x in g.get_fshape(b, True)), fs + (3,))
        for f in (True, False):
            want = fs if f else (sh[0] * sh[1] * sh[2],)
            for get, v in ((g.get_ones, 1), (g.get_zeros, 0)):
                a = get(b, f, False)
                env.same("ones/zeros shape", tuple(a.shape), want)
                env.check("ones/zeros value", bool((a == v).all()))
    env.observe("n", int(g.get_n(True)))


def numbering(env, shape, unify):
    g = grid(env, shape, unify=unify)
    all_ = cells(shape)
    for b in (True, False):
        ids = [c for c, _, x in all_ if b or not x]
        xyz = [ijk for c, ijk, x in all_ if b or not x]
        fs = g.get_fshape(b)
        env.same("ids array", g.get_cells_id(b, False, "array"), env.np.array(ids))
        env.same("ids flow shape", g.get_cells_id(b, True, "array"), env.np.array(ids).reshape(fs))
        env.same("order", g.get_order("natural", b, False), env.np.array(ids))
        env.same("ids list", [int(i) for i in g.get_cells_id(b, False, "list")], ids)
        env.same("ids tuple", tuple(int(i) for i in g.get_cells_id(b, False, "tuple")), tuple(ids))
        env.same("ids set", set(int(i) for i in g.get_cells_id(b, False, "set")) == set(ids), True)
        env.same("cells_i", g.get_cells_i(b, False, "array"), env.np.arange(len(ids)))
        env.same("cells_i flow shape", g.get_cells_i(b, True, "array"), env.np.arange(len(ids)).reshape(fs))
        co = g.get_cells_coords(b, False, "tuple")
        env.same("coords", [tuple(int(x) for x in c) for c in co], xyz)
        co = g.get_cells_coords(b, True, "array")
        env.same("coords flow shape", co, env.np.array(xyz).reshape(tuple(fs) + (3,)))
        ax = [n for n in (2, 1, 0) if unify or sum(m > 1 for m in shape) > 2 or shape[n] > 1]
        back = [tuple(x[n] for n in ax) for x in xyz]
        for f in ("tuple", "list", "array"):
            env.same("icoords " + f, [tuple(int(y) for y in x) for x in g.get_cells_icoords(b, False, f)], back)
        env.same("icoords set", set(tuple(int(y) for y in x) for x in g.get_cells_icoords(b, False, "set")) == set(back), True)
        env.same("icoords flow shape", g.get_cells_icoords(b, True), env.np.array(back).reshape(tuple(fs) + (len(ax),)))
        env.same("coords set", set(tuple(int(x) for x in c) for c in g.get_cells_coords(b, False, "set")) == set(xyz), True)
    env.same("interior ids attribute", g.cells_id, env.np.array(interior(shape)))
    env.observe("ids", g.get_cells_id(True, True, "array"))


def cell(env, shape, unify):
    """one arbitrary cell"""
    g = grid(env, shape, unify=unify)
    n = len(cells(shape))
    c = env.int("cell", 0, n - 1)
    c = c.realize() if env.sym else c
    _, ijk, isb = cells(shape)[c]
    env.same("coords of id", tuple(int(x) for x in g.get_cell_coords(c, True)), ijk)
    env.same("id of coords", int(g.get_cell_id(ijk, True)), c)
    other = cells(shape)[n - 1 - c]
    for pair in ((cells(shape)[c], other), (other, cells(shape)[c])):
        env.same("ids of several coords", [int(x) for x in g.get_cell_id(tuple(x[1] for x in pair), True)], [x[0] for x in pair])
        env.same("coords of several ids", [tuple(int(y) for y in x) for x in g.get_cell_coords(tuple(x[0] for x in pair), True)], [x[1] for x in pair])
    if not isb:
        low = tuple(x - (1 if m > 1 else 0) for x, m in zip(ijk, shape))
        i = interior(shape).index(c)
        env.same("id without boundaries", int(g.get_cell_id(low, False)), i)
        env.same("coords without boundaries", tuple(int(x) for x in g.get_cell_coords(i, False)), low)
    ic = g.get_cell_icoords(ijk)
    env.same("icoords select the cell", int(g.get_cells_id(True, True, "array")[tuple(ic)]), c)
    bs = set(boundary(shape))
    co = {x: t for x, t, _ in cells(shape)}
    if isb:
        env.check("boundary cells are refused", env.raises(lambda: g.get_cell_neighbors(id=c, boundary=True), AssertionError))
        env.check("boundary cells are refused", env.raises(lambda: g.get_cell_boundaries(id=c), AssertionError))
        env.check("boundary cells are refused", env.raises(lambda: g.get_cell_neighbors(coords=ijk, boundary=True), AssertionError))
        nb = neighbors(shape, c, False)
        got = g.get_cell_neighbors(id=c, boundary=False)
        env.same("neighbours of a boundary cell", {k: [int(x) for x in v] for k, v in got.items()}, nb)
        env.observe("nb", {k: [int(x) for x in v] for k, v in got.items()})
        return
    for b in (True, False):
        nb = neighbors(shape, c, b)
        got = g.get_cell_neighbors(id=c, boundary=b, fmt="dict")
        env.same("neighbours", {k: [int(x) for x in v] for k, v in got.items()}, nb)
        flat = nb["x"] + nb["y"] + nb["z"]
        env.same("neighbours list", [int(x) for x in g.get_cell_neighbors(id=c, boundary=b, fmt="list")], flat)
        env.same("neighbours tuple", tuple(int(x) for x in g.get_cell_neighbors(id=c, boundary=b, fmt="tuple")), tuple(flat))
        env.same("neighbours set", set(int(x) for x in g.get_cell_neighbors(id=c, boundary=b, fmt="set")) == set(flat), True)
        env.same("neighbours array", [int(x) for x in g.get_cell_neighbors(id=c, boundary=b, fmt="array")], flat)
        got = g.get_cell_neighbors(coords=ijk, boundary=b, fmt="dict")
        env.same("neighbours by coords", {k: [tuple(int(y) for y in x) for x in v] for k, v in got.items()}, {k: [co[x] for x in v] for k, v in nb.items()})
        for o in flat:
            if o not in bs:
                back = g.get_cell_neighbors(id=o, boundary=b, fmt="list")
                env.check("neighbourhood is symmetric", c in [int(x) for x in back])
    nb = neighbors(shape, c, True)
    want = {k: [x for x in v if x in bs] for k, v in nb.items()}
    got = g.get_cell_boundaries(id=c, fmt="dict")
    env.same("boundaries", {k: sorted(int(x) for x in v) for k, v in got.items()}, want)
    got = g.get_cell_boundaries(coords=ijk, fmt="dict")
    env.same("boundaries by coords", {k: sorted(tuple(int(y) for y in x) for x in v) for k, v in got.items()}, {k: sorted(co[x] for x in v) for k, v in want.items()})
    got = g.get_cell_boundaries(id=c, fmt="array")
    env.same("boundaries array", sorted(int(x) for x in got), sorted(sum(want.values(), [])))
    env.observe("nb", nb)


def borders(env, shape, unify):
    """splitting arrays in interior and boundary parts keeps every value"""
    g = grid(env, shape, unify=unify)
    n = len(cells(shape))
    v = env.arr([env.real(f"v{i}") for i in range(n)])
    inn, bnd = interior(shape), boundary(shape)
    fs = g.get_fshape(True)
    fi = g.get_fshape(False)
    env.same("boundary ids", [int(x) for x in g.get_boundaries("id", "tuple")], bnd)
    env.same("boundary ids array", g.get_boundaries("id", "array"), env.np.array(bnd))
    env.same("boundary ids set", set(int(x) for x in g.get_boundaries("id", "set")) == set(bnd), True)
    co = {c: t for c, t, _ in cells(shape)}
    env.same("boundary coords", sorted(tuple(int(y) for y in x) for x in g.get_boundaries("coords", "tuple")), sorted(co[b] for b in bnd))
    env.eq("interior of a flat array", g.remove_boundaries(v, False, "both"), v[inn])
    env.eq("interior of a shaped array", g.remove_boundaries(v.reshape(fs), False, "both"), v[inn].reshape(fi))
    p = env.arr([[env.real(f"p{i}{j}") for j in range(3)] for i in range(n)])
    env.eq("interior of points", g.remove_boundaries(p, True, "both"), p[inn])
    pad, act = strides(shape)
    for side in ("left", "right"):
        one = lambda ijk: any(a and x == (0 if side == "left" else m - 1) for a, x, m in zip(act, ijk, pad))
        keep = [c for c, ijk, _ in cells(shape) if not one(ijk)]
        rest = tuple(m - 1 if a else m for a, m in zip(act, pad))[::-1]
        if not unify and len(fs) < 3:
            rest = tuple(m for a, m in zip(act[::-1], rest) if a)
        env.eq(f"without the {side} side, flat", g.remove_boundaries(v, False, side), v[keep])
        env.eq(f"without the {side} side, shaped", g.remove_boundaries(v.reshape(fs), False, side), v[keep].reshape(rest))
        env.eq(f"points without the {side} side", g.remove_boundaries(p, True, side), p[keep])
        d = g.remove_boundaries({"v": v, "w": 2 * v}, False, side)
        env.eq(f"dictionary without the {side} side", d["v"], v[keep])
        env.eq(f"dictionary without the {side} side", d["w"], 2 * v[keep])
    d = g.remove_boundaries({"v": v, "w": 2 * v}, False, "both")
    env.eq("interior of a dictionary", list(d["v"]) + list(d["w"]), list(v[inn]) + list(2 * v[inn]))
    env.check("unknown sides are refused", env.raises(lambda: g.remove_boundaries(v, False, "up"), ValueError))
    env.eq("boundary of ids", g.extract_boundaries(env.np.arange(n), False, "array"), env.np.array(bnd))
    pb = g.extract_boundaries(p, True, "array")
    env.same("boundary of points has all points", tuple(pb.shape), (len(bnd), 3))
    env.eq("boundary of points", env.np.asarray(pb).sum(axis=0), p[bnd].sum(axis=0))
    env.check("wrong sizes are refused", env.raises(lambda: g.remove_boundaries(v[1:], False, "both"), ValueError))
    env.check("unknown orders are refused", env.raises(lambda: g.get_order("other"), ValueError))
    env.observe("in", g.remove_boundaries(v, False, "both"))


def interleaved(env, s1, s2, unify):
    """answers do not depend on other grids or on earlier questions"""
    a = grid(env, s1, unify=unify)
    b = grid(env, s2, unify=unify)
    for _ in range(2):
        for g, s in ((a, s1), (b, s2)):
            pad, act = strides(s)
            env.same("shape", tuple(int(x) for x in g.get_shape(True)), pad)
            env.same("shape", tuple(int(x) for x in g.get_shape(False)), tuple(s))
            env.same("n", int(g.get_n(False)), s[0] * s[1] * s[2])
            env.same("ids", g.get_cells_id(False, False, "array"), env.np.array(interior(s)))
            env.same("ids", g.get_cells_id(True, False, "array"), env.np.array([c for c, _, _ in cells(s)]))
            for c in interior(s):
                for w in (True, False):
                    nb = neighbors(s, c, w)
                    env.same("neighbours", {k: [int(x) for x in v] for k, v in g.get_cell_neighbors(id=c, boundary=w).items()}, nb)
            env.same("boundary ids", [int(x) for x in g.get_boundaries("id", "tuple")], boundary(s))
    env.observe("n", int(a.get_n(True)))


def order(env, shape, unify):
    """answers about one arbitrary cell do not depend on what was asked before"""
    c = env.int("cell", 0, len(interior(shape)) - 1)
    c = interior(shape)[c.realize() if env.sym else c]
    ijk = [t for x, t, _ in cells(shape) if x == c][0]

    def questions(g):
        q = []
        for f in ("dict", "list", "tuple", "set", "array"):
            for kw in (dict(id=c), dict(coords=ijk)):
                if "coords" in kw and f in ("set", "array"):
                    continue
                for b in (True, False):
                    q += asks(f"neighbours {f}", g, "get_cell_neighbors", boundary=b, fmt=f, **kw)
                q += asks(f"boundaries {f}", g, "get_cell_boundaries", fmt=f, **kw)
        for f in ("array", "list", "tuple", "set"):
            for b in (True, False):
                q += asks(f"ids {f}", g, "get_cells_id", boundary=b, fshape=False, fmt=f)
                q += asks(f"cells_i {f}", g, "get_cells_i", boundary=b, fshape=False, fmt=f)
                q += asks(f"coords {f}", g, "get_cells_coords", boundary=b, fshape=False, fmt=f)
                q += asks(f"icoords {f}", g, "get_cells_icoords", boundary=b, fshape=False, fmt=f)
            q += asks(f"boundary ids {f}", g, "get_boundaries", by="id", fmt=f)
            if f != "array":
                q += asks(f"boundary coords {f}", g, "get_boundaries", by="coords", fmt=f)
        for b in (True, False):
            q += asks("shape", g, "get_shape", boundary=b)
            for pt in (False, True):
                q += asks("flow shape", g, "get_fshape", boundary=b, points=pt)
            q += asks("n", g, "get_n", boundary=b)
            q += asks("n_max", g, "get_n_max", boundary=b)
            q += asks("order", g, "get_order", type="natural", boundary=b, fshape=False)
            q += asks("ids", g, "get_cells_id", boundary=b, fshape=True, fmt="array")
            q += asks("coords", g, "get_cells_coords", boundary=b, fshape=True, fmt="array")
            q += asks("ones", g, "get_ones", boundary=b, fshape=True, sparse=False)
        q += [("D", g.get_D), ("flow direction", g.get_fdir)]
        q += asks("coords of a cell", g, "get_cell_coords", id=c, boundary=True) + asks("id of a cell", g, "get_cell_id", coords=ijk, boundary=True) + asks("icoords", g, "get_cell_icoords", coords=ijk)
        return q

    got = any_order(env, lambda: grid(env, shape, unify=unify), questions)
    env.observe("answers", len(got))


def obligations(tier):
    shapes = [(2, 1, 1), (5, 1, 1), (1, 4, 1), (4, 3, 1), (4, 3, 2), (3, 1, 1), (1, 3, 1), (1, 1, 3), (2, 2, 1), (3, 2, 1), (2, 3, 1), (3, 1, 2), (1, 2, 3), (1, 3, 2), (2, 1, 3), (2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3)]
    if tier == "thorough":
        shapes = [(x, y, z) for x in range(1, 5) for y in range(1, 4) for z in range(1, 4) if (x, y, z) != (1, 1, 1)]
    out = []
    for s in shapes:
        for u in (True, False):
            if u is False and min(s) > 1 and tier == "quick":
                continue
            for f in (counts, numbering, borders, cell, order):
                out.append(Obligation(f, dict(shape=s, unify=u), max_paths=2000))
    for s1, s2 in [((2, 3, 1), (3, 2, 1)), ((2, 2, 2), (3, 2, 1)), ((1, 2, 2), (2, 1, 2)), ((3, 1, 1), (1, 3, 1)), ((3, 2, 2), (2, 2, 3))]:
        for u in (True, False):
            out.append(Obligation(interleaved, dict(s1=s1, s2=s2, unify=u)))
    # cell ids of three digits
    for s in [(101, 1, 1), (9, 9, 1), (1, 101, 1), (1, 1, 101), (5, 4, 5)]:
        for f in (counts, numbering, borders, cell):
            out.append(Obligation(f, dict(shape=s, unify=s[0] != 9), max_paths=2000))
    return out
