"""What figures of grids and models show."""
from datetime import date, timedelta

from harness.common import *

META = dict(
    bounds="2x1x1, 3x1x1, 1x3x1, 1x1x2, 2x2x1, 2x1x2, 2x2x2 interior cells; 0 to 3 steps; pressures and rates symbolic, with and without boundary cells, wells, captions, sliders; every label of the cells; the moved slider takes every step; animations frame by frame; charts of every cell and every step, also on 11x1x1; labels also on 101x1x1, 9x9x1, 5x4x5 (cell ids of three digits)",
    outside="rendering (VTK and matplotlib): colours, cameras, corner labels, font positions; rounding of printed numbers",
    assumptions=["pyvista shows a mesh with the values stored under the name given when it was added ('Data' for arrays), natural ordering of cells"],
)
LABELS = ["id", "coords", "icoords", "i", "dx", "dy", "dz", "Ax", "Ay", "Az", "area_x", "volume", "V", "center"]


def make(env, shape, comp, wells, bcs, n, z=False, start=date(2020, 2, 27)):
    zz = env.arr([env.real(f"z{i}", nice=(-20, 20)) for i in range(len(cells(shape)))]) if z else None
    g = concrete_grid(env, shape, z=zz, comp="0.00001" if comp else "0")
    f = concrete_fluid(env, comp="0.00002" if comp else "0")
    m = env.rf.models.BlackOil(g, f, pi=env.real("pi", nice=(1000, 3000)), dt=env.f("2"), dtype="double", start_date=start)
    inn = interior(shape)
    for i, (kind, j) in enumerate(wells):
        add_well(env, m, inn[j], kind, str(i))
    B = {}
    for i, b in enumerate(flow_cells(shape)):
        k = bcs[i % len(bcs)]
        if k:
            B[b] = (k, bc_value(env, f"v{b}", k))
    m.set_boundaries(B)
    compiled(env, m)
    s = m.solution
    # any history: figures only read it
    for t in range(n):
        m.solve(check_MB=False, isolver=None)
    for t in range(n + 1):
        for c in range(len(cells(shape))):
            if t == 0 and c not in inn:
                continue
            s.pressures[t, c] = env.real(f"p{t}_{c}", nice=(500, 3000))
            s.rates[t, c] = env.real(f"q{t}_{c}", nice=(-9, 9))
    return m


def ids(shape, bound):
    return [c for c, _, b in cells(shape) if bound or not b]


def geometry(env, g, shape, bound):
    """centres of the shown cells"""
    c = g.get_cells_center(True, False, False)
    return [[c[i][x] for x in range(3)] for i in ids(shape, bound)]


def defined(xs):
    return [x for x in xs if not (isinstance(x, float) and x != x)]


def extremes(env, xs):
    a = env.arr(defined(xs))
    return env.np.min(a), env.np.max(a), env.np.sum(a) / len(a)


def mesh_ok(env, shown, g, shape, bound):
    env.same("cells shown", shown.mesh.n_cells, len(ids(shape, bound)))
    pts = shown.mesh.cell_centers().points
    env.eq("places of the cells", [[p[x] for x in range(3)] for p in pts], geometry(env, g, shape, bound), scale=100.0)


def labels_ok(env, fig, g, shape, bound, label):
    if label in (None, False):
        env.same("no labels", len(fig.labels) + len(fig.points), 0)
        return
    pts = geometry(env, g, shape, bound)
    if label == "sphere":
        env.same("spheres", (len(fig.points), len(fig.labels)), (1, 0))
        env.eq("places of spheres", fig.points[0], pts, scale=100.0)
        return
    env.same("one set of labels", (len(fig.labels), len(fig.points)), (1, 0))
    at, labels = fig.labels[0]
    env.eq("places of labels", at, pts, scale=100.0)
    env.same("labels", len(labels), len(pts))
    table = {c: ijk for c, ijk, _ in cells(shape)}
    inn = ids(shape, bound)
    d = {s: g.d[s] for s in "xyz"}
    for k, c in enumerate(inn):
        v = labels[k]
        if label in ("id", "i"):  # number in the grid, number among the shown cells
            env.same("label", int(v), c if label == "id" else k)
        elif label == "coords":
            env.same("label", tuple(int(x) for x in v), natural(shape, c, bound))
        elif label == "icoords":
            env.same("label", tuple(int(x) for x in v), tuple(reversed(table[c])))
        elif label in ("dx", "dy", "dz"):
            env.eq("label", v, d[label[1]][c], scale=1.0)
        elif label in ("Ax", "Ay", "Az", "area_x"):
            ax = "x" if label == "area_x" else label[1]
            o = [s for s in "xyz" if s != ax]
            env.eq("label", v, d[o[0]][c] * d[o[1]][c], scale=1.0)
        elif label in ("volume", "V"):
            env.eq("label", v, d["x"][c] * d["y"][c] * d["z"][c], scale=1.0)
        else:
            env.eq("label", [v[x] for x in range(3)], pts[k], scale=100.0)


def natural(shape, c, bound):
    """coordinates of the cell counted over all three axes of the shown array"""
    n = [s + 2 if s > 1 or sum(x > 1 for x in shape) == 0 and i == 0 else s for i, s in enumerate(shape)]
    return c % n[0], c // n[0] % n[1], c // (n[0] * n[1])


def wells_ok(env, fig, m, shown):
    rest = [s for s in fig.meshes if s.name is None]
    env.same("one mark per well", len(rest), len(m.wells) if shown else 0)
    if not shown:
        return
    c = m.grid.get_cells_center(True, False, False)
    for s, w in zip(rest, m.wells):
        y = s.mesh
        env.eq("place of the well", [y.center[0], y.center[1]], [c[w][0], c[w][1]], scale=100.0)
        env.same("vertical", tuple(y.direction), (0, 0, 1))
        env.eq("radius of the well", y.radius, m.wells[w]["r"], scale=1.0)
        env.le("the well meets its cell", y.center[2] - y.height / 2, c[w][2])
        env.le("the well meets its cell", c[w][2], y.center[2] + y.height / 2)


def captions(env, texts, m, t, row):
    if not env.sym and all(v != v for v in row):
        return
    lo, hi, mean = extremes(env, row)
    by = lambda p: [x for x in texts if x.strip().startswith(p)]
    for p in ("current date", "current timestep", "initial pressure", "avg pressure", "min pressure", "max pressure"):
        env.same("captions", len(by(p)), 1)
    d = date(2020, 2, 27) + timedelta(days=2 * t)
    env.same("caption date", by("current date")[0].split(":")[1].strip(), d.strftime("%d.%m.%Y"))
    env.same("caption step", int(by("current timestep")[0].split(":")[1]), t)
    for p, v in (("initial", m.pi), ("avg", mean), ("min", lo), ("max", hi)):
        x = by(p + " pressure")[0]
        env.text("caption " + p, x, x.split(":")[0] + ": ", v)


def values(m, shape, prop, bound):
    a = m.solution.pressures if prop[0] in "pP" else m.solution.rates
    return [[a[t, c] for c in ids(shape, bound)] for t in range(m.solution.nsteps)]


def keep(env, m):
    s = m.solution
    return [env.np.array(x, copy=True) for x in (s.pressures, s.rates, m.grid.get_cells_center(True, False, False))]


def unchanged(env, m, old):
    s = m.solution
    for a, b in zip((s.pressures, s.rates, m.grid.get_cells_center(True, False, False)), old):
        env.eq("figures leave everything alone", a, b)


def data_ok(env, what, data, row):
    env.same(what + " cells", len(data), len(row))
    env.eq(what, env.arr(data), env.arr(row), scale=1.0)


def scene(env, fig, m, shape, prop, bound, wells, label):
    main = [s for s in fig.meshes if s.name]
    env.same("one grid is shown", len(main), 1)
    mesh_ok(env, main[0], m.grid, shape, bound)
    wells_ok(env, fig, m, wells)
    labels_ok(env, fig, m.grid, shape, bound, label)
    V = values(m, shape, prop, bound)
    lo, hi, mean = extremes(env, [x for r in V for x in r])
    env.eq("limits of colours", [main[0].kw["clim"][0], main[0].kw["clim"][1]], [lo, hi], scale=1.0)
    return main[0], V


def model(env, shape, comp, wells, bcs, n, prop, bound, show_wells, label, info, static):
    m = make(env, shape, comp, wells, bcs, n)
    old = keep(env, m)
    log = env.figures()
    m.show(prop, label=label, boundary=bound, wells=show_wells, info=info, static=static, notebook=static, opacity=0.5)
    env.same("one figure", len(log), 1)
    fig = log[0]
    main, V = scene(env, fig, m, shape, prop, bound, show_wells, label)
    env.same("shown once", len(fig.shows), 1)
    env.same("slider", len(fig.sliders), 0 if static else 1)
    k = [s is main for s in fig.meshes].index(True)
    data, texts = fig.shows[0]
    data_ok(env, "figure", data[k], V[n])
    if info:
        captions(env, texts, m, n, V[n])
    if not static:
        f, rng, value = fig.sliders[0]
        env.same("range of the slider", (tuple(int(x) for x in rng), int(value)), ((0, n), n))
        for t in [env.int("step", 0, n).realize() if env.sym else env.int("step", 0, n), n]:
            f(env.f(str(t)) if env.sym else float(t))
            data, texts = fig.snap()
            data_ok(env, "slider", data[k], V[t])
            if info:
                captions(env, texts, m, t, V[t])
    unchanged(env, m, old)
    # the next figure does not depend on this one
    m.show("rates" if prop[0] in "pP" else "pressures", boundary=bound, wells=False, info=False, static=True, notebook=True)
    data_ok(env, "other figure", log[1].shows[0][0][0], values(m, shape, "q" if prop[0] in "pP" else "p", bound)[n])
    unchanged(env, m, old)


def animation(env, shape, comp, wells, bcs, n, prop, bound, show_wells, info):
    m = make(env, shape, comp, wells, bcs, n)
    old = keep(env, m)
    log = env.figures()
    m.save_gif(prop, boundary=bound, wells=show_wells, info=info, file_name="never written.gif", fps=7)
    env.same("one figure", len(log), 1)
    fig = log[0]
    main, V = scene(env, fig, m, shape, prop, bound, show_wells, None)
    k = [s is main for s in fig.meshes].index(True)
    env.same("frames", (len(fig.frames), fig.closed, fig.gif[0], fig.gif[1].get("fps")), (n + 1, True, "never written.gif", 7))
    for t, (data, texts) in enumerate(fig.frames):
        data_ok(env, "frame", data[k], V[t])
        if info:
            captions(env, texts, m, t, V[t])
    unchanged(env, m, old)


def grids(env, shape, label, bound):
    g = grid(env, shape, d="cell")
    log = env.figures()
    g.show(label=label, boundary=bound, opacity=0.5, static=True, notebook=True)
    env.same("one figure", (len(log), len(log[0].shows), len(log[0].meshes)), (1, 1, 1))
    mesh_ok(env, log[0].meshes[0], g, shape, bound)
    labels_ok(env, log[0], g, shape, bound, label)


def refused(env, shape):
    m = make(env, shape, True, (("p", 0),), ("pressure",), 1)
    log = env.figures()
    env.check("unknown property", env.raises(lambda: m.show("saturation"), ValueError))
    env.check("unknown property", env.raises(lambda: m.save_gif("x"), ValueError))
    env.check("unknown label", env.raises(lambda: m.show("p", label="name", opacity=0.5), ValueError))
    env.check("unknown label", env.raises(lambda: m.grid.show(label="name", opacity=0.5), ValueError))
    env.same("nothing shown", sum(len(f.shows) + len(f.frames) for f in log), 0)
    u = env.rf.utils.pyvista
    env.check("unknown mode", env.raises(lambda: u.set_mode("blue"), ValueError))
    env.check("unknown size", env.raises(lambda: u.get_window_size("3k"), ValueError))


def charts(env, shape, comp, wells, n):
    """charts show the values of one cell over the steps, or of all cells (the
    interior cells in the image) at one step"""
    m = make(env, shape, comp, wells, ("pressure", "rate"), n)
    s = m.solution
    old = keep(env, m)
    log = env.plots()
    c = env.int("cell", 0, len(cells(shape)) - 1)
    c = c.realize() if env.sym else c
    t = env.int("step", 0, n)
    t = t.realize() if env.sym else t
    every = range(len(cells(shape)))
    inn = interior(shape)

    def drawn(what, kind, want):
        env.same(what + ": one chart", len(log.shown), 1)
        (k, v), = log.shown.pop()
        env.same(what + ": kind", k, kind)
        v = [x for x in (v if hasattr(v, "reshape") else env.arr(list(v))).reshape(-1)]
        env.same(what + ": number of values", len(v), len(want))
        for x, y in zip(v, want):
            env.eq(what, x, y, scale=1.0)

    for prop in ("pressures", "rates"):
        P = getattr(s, prop)
        m.plot(prop, id=c)
        drawn("cell over the steps", "line", [P[k, c] for k in range(n + 1)])
        m.plot(prop, tstep=t)
        drawn("cells at a step", "line", [P[t, x] for x in every])
        m.plot(prop)
        drawn("cells at the last step", "line", [P[n, x] for x in every])
        m.plot_grid(prop, tstep=t)
        drawn("image at a step", "image", [P[t, x] for x in inn])
        m.plot_grid(prop)
        drawn("image of the last step", "image", [P[n, x] for x in inn])
    m.plot()
    drawn("pressures unless asked for", "line", [s.pressures[n, x] for x in every])
    m.plot_grid()
    drawn("image of pressures unless asked for", "image", [s.pressures[n, x] for x in inn])
    unchanged(env, m, old)


def obligations(tier):
    out = []
    T = tier == "thorough"
    add = lambda f, b=200, **k: out.append(Obligation(f, k, max_paths=700, budget_s=b))
    S = [(2, 1, 1), (3, 1, 1), (1, 3, 1), (1, 1, 2), (2, 2, 1), (2, 1, 2), (2, 2, 2)]
    P = ["pressures", "rates", "p", "Q", "Pressure", "rate"]
    W = {1: (("q", 0),), 2: (("p", 1), ("q", 0)), 0: ()}
    for i, sh in enumerate(S):
        xy = sh[0] > 1 and not (sh[1] == 1 and sh[2] > 1)
        for j, bound in enumerate((True, False)):
            w = W[(i + j) % 3] if xy else ()
            small = sh in ((2, 1, 1), (1, 3, 1), (1, 1, 2))
            n = (i + j) % 3 if small or T else (1 if len(interior(sh)) > 3 else 1 + j)
            info = small and n < 2
            add(model, shape=sh, comp=bool(i % 2), wells=w, bcs=("pressure", "rate", None), n=n, prop=P[(2 * i + j) % 6], bound=bound,
                show_wells=bool(w) or bool(j), label=LABELS[(3 * i + j) % len(LABELS)] if i % 3 else None, info=info, static=bool((i + j) % 2))
            add(animation, shape=sh, comp=bool(j), wells=w, bcs=("pressure",), n=1 + (i + j) % 2, prop=P[(i + j) % 6], bound=bound, show_wells=not j, info=info)
    add(model, shape=(3, 1, 1), comp=True, wells=(("q", 2),), bcs=("pressure",), n=3, prop="p", bound=True, show_wells=True, label="dx", info=False, static=False)
    add(model, shape=(2, 2, 1), comp=True, wells=(("p", 3), ("q", 1)), bcs=("pressure",), n=2, prop="q", bound=False, show_wells=True, label=None, info=False, static=False)
    for i, lab in enumerate(LABELS + ["sphere", None, False]):
        for j in range(2 if not T else 4):
            add(grids, shape=S[(2 * i + 3 * j + 4) % len(S)], label=lab, bound=bool((i + j) % 2))
    add(refused, shape=(2, 1, 1))
    for i, (sh, w, n) in enumerate([((2, 1, 1), 1, 2), ((3, 1, 1), 2, 1), ((1, 3, 1), 0, 2), ((1, 1, 2), 0, 1), ((2, 2, 1), 2, 1), ((2, 1, 2), 0, 1), ((2, 1, 1), 0, 0), ((11, 1, 1), 0, 0)] + ([((5, 1, 1), 2, 3), ((2, 2, 2), 0, 2)] if T else [])):
        add(charts, shape=sh, comp=bool(i % 2), wells=W[w], n=n)
    # cell ids of three digits
    for sh in [(101, 1, 1), (9, 9, 1), (5, 4, 5)]:
        for b in (True, False):
            add(grids, shape=sh, label="id", bound=b)
    return out
