"""Setting and reading cell properties."""
from harness.common import *

META = dict(
    bounds="shapes up to 3x1x1, 2x2x1 (all planes) and 2x2x2; every property value symbolic; histories of up to 3 changes; the changed cell is a solver variable; single shapes 101x1x1, 9x9x1, 5x4x5 (cell ids of three digits; one change)",
    outside="longer histories; larger grids",
)
NAMES = ["kx", "ky", "kz", "phi", "z"]


def views(env, g, shape, want, cell_ids=None):
    """every way of reading the properties gives `want` ({name: list})"""
    inn = interior(shape)
    for name, v in want.items():
        w = env.arr(v)
        env.eq(name + " flat", g.get_prop(name, True, False), w)
        env.eq(name + " flow shape", g.get_prop(name, True, True), w.reshape(g.get_fshape(True)))
        env.eq(name + " inside", g.get_prop(name, False, False), w[inn])
        env.eq(name + " inside, flow shape", g.get_prop(name, False, True), w[inn].reshape(g.get_fshape(False)))
        env.eq(name + " attribute", getattr(g, name), w)
        if name[0] == "k":
            s = name[1]
            env.eq(name + " by direction", g.k[s], w)
            env.eq(name + " cells", g.get_cells_k(s, True, False), w)
            env.eq(name + " cells inside", g.get_cells_k(s, False, True), w[inn].reshape(g.get_fshape(False)))
            for c, ijk, _ in cells(shape):
                if cell_ids is None or c in cell_ids:
                    env.eq(name + " cell", g.get_cell_k(s, id=c), v[c])
                    env.eq(name + " cell", getattr(g, "get_cell_" + name)(coords=ijk), v[c])


def flags(env, g, shape, want):
    inn = interior(shape)
    hom = True
    for i in inn:
        hom = hom and bool(want["phi"][i] == want["phi"][inn[0]])
    env.same("homogeneous", bool(g.is_homogeneous), hom)
    env.same("heterogeneous", bool(g.is_heterogeneous), not hom)
    iso = True
    for n in ("kx", "ky", "kz"):
        for v in want[n]:
            iso = iso and bool(v == want[n][0])
    env.same("isotropic", bool(g.is_isotropic), iso)
    env.same("anisotropic", bool(g.is_anisotropic), not iso)


def start(env, shape, how, unify=True):
    n = len(cells(shape))
    g = grid(env, shape, d="uniform", k=how, phi=how, z="sym" if how == "sym" else None, unify=unify)
    want = {}
    for name in NAMES:
        if how == "sym":
            want[name] = [env.real(f"{name}{i}", "?" if name == "z" else "+") for i in range(n)]
        else:
            want[name] = [env.zero() if name == "z" else env.real(name, "+")] * n
    return g, want


def initial(env, shape, how, unify):
    g, want = start(env, shape, how, unify)
    views(env, g, shape, want)
    env.observe("kx", g.get_prop("kx", True, False))


def flag_values(env, shape, which):
    """flags for arbitrary values in two cells, equal elsewhere"""
    n = len(cells(shape))
    base = {"kx": env.f("10"), "ky": env.f("10"), "kz": env.f("5"), "phi": env.f("0.2"), "z": env.zero()}
    want = {k: [v] * n for k, v in base.items()}
    c = env.int("cell", 0, n - 1)
    c = c.realize() if env.sym else c
    v = env.real("v", "+", nice=(0.1, 0.9))
    want[which][c] = v
    g = env.rf.grids.RegularCartesian(
        nx=shape[0], ny=shape[1], nz=shape[2], dx=env.f("10"), dy=env.f("10"), dz=env.f("10"), **{k: env.arr(x) for k, x in want.items()}
    )
    flags(env, g, shape, want)
    env.observe("iso", bool(g.is_isotropic))


def change(env, shape, how, unify, by, name, warm):
    """one cell is changed, by id or coords, through set_prop or set_props"""
    g, want = start(env, shape, how, unify)
    n = len(cells(shape))
    c = env.int("cell", 0, n - 1)
    c = c.realize() if env.sym else c
    ijk = cells(shape)[c][1]
    if warm:
        for s in "xyz":
            [g.get_cell_k(s, id=i) for i in range(n)]
        [g.get_cell_G(id=i, boundary=True) for i in interior(shape)]
        g.is_isotropic, g.is_homogeneous, g.is_anisotropic, g.is_heterogeneous
    v = env.real("new", "+", nice=(0.1, 0.9))
    kw = dict(id=c) if by == "id" else dict(coords=ijk)
    if by == "props":
        g.set_props(**{name: v}, id=c)
    elif by == "props by coords":
        g.set_props(**{name: v}, coords=ijk)
    else:
        g.set_prop(name, v, **kw)
    want = {k: list(x) for k, x in want.items()}
    want[name][c] = v
    views(env, g, shape, want)
    if how == "uniform":
        flags(env, g, shape, want)
    env.observe(name, g.get_prop(name, True, False))


def together(env, shape, by):
    """set_props changes every given property of one cell, and no other"""
    g, want = start(env, shape, "uniform")
    n = len(cells(shape))
    c = env.int("cell", 0, n - 1)
    c = c.realize() if env.sym else c
    kw = dict(id=c) if by == "id" else dict(coords=cells(shape)[c][1])
    want = {k: list(x) for k, x in want.items()}
    for skip in NAMES + [None]:
        new = {x: env.real(f"n{x}{skip}", "+", nice=(0.1, 0.9)) for x in NAMES if x != skip}
        g.set_props(**new, **kw)
        for k, v in new.items():
            want[k][c] = v
        views(env, g, shape, want, [c])
    env.observe("kx", g.get_prop("kx", True, False))


def several(env, shape):
    """several cells at once, then all cells, then one cell"""
    g, want = start(env, shape, "sym")
    n = len(cells(shape))
    a, b = interior(shape)[0], interior(shape)[-1]
    v, w, u = (env.real(x, "+", nice=(0.1, 0.9)) for x in ("v", "w", "u"))
    for name in NAMES:
        g.set_prop(name, v, id=[a, b])
        want[name][a] = want[name][b] = v
        views(env, g, shape, {name: want[name]})
        g.set_prop(name, env.arr([w, u]), id=(a, b))
        want[name][a], want[name][b] = w, u
        views(env, g, shape, {name: want[name]})
        g.set_prop(name, v)
        want[name] = [v] * n
        views(env, g, shape, {name: want[name]})
        co = {c: t for c, t, _ in cells(shape)}
        g.set_prop(name, w, coords=(co[a], co[b]))
        want[name][a] = want[name][b] = w
        views(env, g, shape, {name: want[name]})
    x = env.arr([env.real(f"x{i}", "+", nice=(0.1, 0.9)) for i in range(n)])
    for name in NAMES:
        g.set_props(**{name: x})
        g.set_prop(name, v, id=a)
    env.eq("caller's array", x, env.arr([env.real(f"x{i}", "+") for i in range(n)]))
    xs = [x[i] for i in range(n)]
    xs[a] = v
    x[b] = env.f("99")
    views(env, g, shape, {name: xs for name in NAMES})
    env.observe("kx", g.kx)


def refusals(env, shape):
    g, want = start(env, shape, "uniform")
    env.check("unknown property", env.raises(lambda: g.set_prop("perm", 1), ValueError))
    env.check("unknown property", env.raises(lambda: g.get_prop("perm"), ValueError))
    h = env.rf.grids.RegularCartesian(nx=shape[0], ny=shape[1], nz=shape[2], dx=10, dy=10, dz=10, kx=env.f("3"))
    env.check("undefined property", env.raises(lambda: h.get_prop("phi"), ValueError))
    env.eq("default depth", h.z, env.np.zeros(len(cells(shape))))
    env.check("default compressibility", h.comp == 0 and h.comp_type == "incompressible")
    views(env, g, shape, want)
    env.observe("z", h.z)


def cellvalue(env, shape, unify, by):
    """set_cell_value writes the one cell of a flow shaped array"""
    g, _ = start(env, shape, "uniform", unify)
    n = len(cells(shape))
    a = env.arr([env.real(f"a{i}") for i in range(n)])
    c = env.int("cell", 0, n - 1)
    c = c.realize() if env.sym else c
    v = env.real("v")
    arr = a.reshape(g.get_fshape(True)).copy()
    g.set_cell_value(arr, v, **(dict(id=c) if by == "id" else dict(coords=cells(shape)[c][1])))
    want = a.copy()
    want[c] = v
    env.eq("array", arr.reshape(-1), want)
    env.observe("a", arr)


def order(env, shape, how, unify):
    """answers do not depend on what was asked before"""
    c = env.int("cell", 0, len(cells(shape)) - 1)
    c = c.realize() if env.sym else c
    ijk = cells(shape)[c][1]

    def questions(g):
        q = []
        for b in (True, False):
            for f in (False, True):
                for name in NAMES:
                    q += asks("property", g, "get_prop", name=name, boundary=b, fshape=f)
                for s in "xyz":
                    q += asks("permeability", g, "get_cells_k", dir=s, boundary=b, fshape=f)
        for s in "xyz":
            for kw in (dict(id=c), dict(coords=ijk)):
                q += asks("permeability of a cell", g, "get_cell_k", dir=s, **kw)
        q += [("homogeneous", lambda: bool(g.is_homogeneous)), ("heterogeneous", lambda: bool(g.is_heterogeneous))]
        q += asks("coefficients", g, "get_cell_G", id=interior(shape)[0], boundary=True)
        q += [("k", lambda: g.k["y"]), ("phi", lambda: g.phi)]
        return q

    got = any_order(env, lambda: start(env, shape, how, unify)[0], questions)
    env.observe("answers", len(got))


def compressibility(env, shape, first, by):
    """the compressibility of the rock is the one set last"""
    now = env.real("c0", "+", nice=(0.1, 0.9)) if first == "+" else env.zero()
    g = grid(env, shape, comp=False if first is None else now)

    def agree():
        env.eq("compressibility", g.comp, now)
        env.same("kind", g.comp_type, "compressible" if bool(now > 0) else "incompressible")

    agree()
    for i, step in enumerate(("+", "0", "+", "0+", "none", "0", "+")):
        if step == "none":
            v = env.real("phi", "+", nice=(0.1, 0.9))
            g.set_props(phi=v) if by == "all" else g.set_props(phi=v, id=interior(shape)[0])
        else:
            now = env.f("0") if step == "0" else env.real(f"c{i + 1}", step, nice=(0.1, 0.9))
            if by == "all":
                g.set_props(comp=now)
            elif by == "with":
                g.set_props(comp=now, kx=env.real(f"k{i}", "+", nice=(1, 9)))
            else:
                g.set_comp(now)
        agree()
    env.check("negative values are refused", env.raises(lambda: g.set_comp(env.f("-1")), ValueError))
    env.check("negative values are refused", env.raises(lambda: g.set_props(comp=env.f("-1")), ValueError))
    env.observe("comp", g.comp)


def nothing(env, shape, by):
    """zero is a value like any other"""
    g, want = start(env, shape, "uniform")
    n = len(cells(shape))
    c = env.int("cell", 0, n - 1)
    c = c.realize() if env.sym else c
    kw = dict(id=c) if by == "id" else dict(coords=cells(shape)[c][1]) if by == "coords" else {}
    O = env.zero()
    want = {k: list(x) for k, x in want.items()}
    for name in ("z", "phi", "kx", "ky", "kz"):
        if name == "z":
            g.set_props(z=env.real("deep", nice=(1, 9)))
            want["z"] = [env.real("deep")] * n
        g.set_props(**{name: O}, **kw)
        if kw:
            want[name][c] = O
        else:
            want[name] = [O] * n
        views(env, g, shape, {name: want[name]}, [c])
    g.set_props(**{name: env.real("back", "+", nice=(1, 9)) for name in NAMES})
    for name in NAMES:
        g.set_prop(name, O, **kw)
        want[name] = [env.real("back")] * n
        if kw:
            want[name][c] = O
        else:
            want[name] = [O] * n
    views(env, g, shape, want, [c])
    env.observe("kx", g.kx)


def obligations(tier):
    shapes = [(3, 1, 1), (1, 3, 1), (1, 1, 2), (2, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2)]
    if tier == "thorough":
        shapes += [(3, 2, 1), (4, 1, 1), (3, 2, 2)]
    out = []
    for s in shapes:
        big = s == (2, 2, 2) and tier == "quick"
        for u in (True, False):
            if not u and min(s) > 1:
                continue
            for how in ("sym", "uniform"):
                out.append(Obligation(initial, dict(shape=s, how=how, unify=u)))
            for by in ("id", "coords"):
                out.append(Obligation(cellvalue, dict(shape=s, unify=u, by=by)))
        if not big:
            for w in ("kx", "ky", "kz", "phi"):
                out.append(Obligation(flag_values, dict(shape=s, which=w)))
        for by in ("id", "coords", "props", "props by coords"):
            for name in NAMES:
                if big and (by, name) not in (("id", "ky"), ("coords", "phi"), ("props", "kx"), ("props by coords", "z")):
                    continue
                out.append(Obligation(change, dict(shape=s, how="uniform", unify=True, by=by, name=name, warm=True)))
        if not big:
            out.append(Obligation(change, dict(shape=s, how="sym", unify=False, by="coords", name="kx", warm=False)))
        for by in ("id", "coords"):
            out.append(Obligation(together, dict(shape=s, by=by)))
        out.append(Obligation(several, dict(shape=s)))
        if len(cells(s)) < 40:
            out.append(Obligation(order, dict(shape=s, how="sym", unify=True)))
            out.append(Obligation(order, dict(shape=s, how="uniform", unify=False)))
        for by in ("id", "coords", "all"):
            out.append(Obligation(nothing, dict(shape=s, by=by)))
    for by in ("all", "with", "set_comp"):
        for first in (None, "0", "+"):
            out.append(Obligation(compressibility, dict(shape=(2, 1, 1) if by == "all" else (1, 2, 2), first=first, by=by)))
    out.append(Obligation(refusals, dict(shape=(2, 2, 1))))
    # cell ids of three digits
    for s in [(101, 1, 1), (9, 9, 1), (5, 4, 5)]:
        out.append(Obligation(initial, dict(shape=s, how="sym", unify=True)))
        out.append(Obligation(several, dict(shape=s)))
        for by in ("id", "coords"):
            out.append(Obligation(cellvalue, dict(shape=s, unify=True, by=by)))
    out.append(Obligation(change, dict(shape=(101, 1, 1), how="uniform", unify=True, by="id", name="kx", warm=True), max_paths=1000))
    out.append(Obligation(change, dict(shape=(9, 9, 1), how="uniform", unify=True, by="coords", name="phi", warm=True), max_paths=1000))
    return out
