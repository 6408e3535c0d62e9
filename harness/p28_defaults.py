"""Arguments that are left out have their documented values."""
from datetime import date

from harness.common import *
from harness import p15_time_steps as p15
from harness import p17_dataframe as p17
from harness import p23_figures as p23

META = dict(
    bounds="3x1x1, 1x3x1, 1x1x3, 3x2x1, 2x1x3, 1x2x2, 2x2x2 interior cells, both array forms; every reading method of grids and models with optional arguments, each one left out alone and all of them together; constructors of grid, fluid and model; solve, run (ten steps), compile, get_df, scalers and figures; lengths, permeabilities, depths, pressures and conditions symbolic",
    outside="colours, cameras and sizes of figures; the start date (today); the number of terms of the analytical solution; caption texts; larger grids",
)


def topology(env, shape, unify):
    n = len(cells(shape))
    v = env.arr([env.real(f"v{i}") for i in range(n)])
    c = interior(shape)[-1]
    ijk = cells(shape)[c][1]
    B, F = dict(boundary=True, fshape=False), dict(by="id", fmt="tuple")
    ids = env.np.arange(n)
    xyz = env.np.array([t for _, t, _ in cells(shape)])
    left_out(env, lambda: grid(env, shape, unify=unify), [
        ("get_shape", {}, dict(boundary=False)),
        ("get_n", {}, dict(boundary=True)),
        ("get_n_max", {}, dict(boundary=True)),
        ("get_fshape", {}, dict(boundary=True, points=False)),
        ("get_order", {}, dict(type="natural", **B)),
        ("get_ones", {}, dict(sparse=False, **B)),
        ("get_zeros", {}, dict(sparse=False, **B)),
        ("get_cells_i", {}, dict(fmt="array", **B)),
        ("get_cells_id", {}, dict(fmt="array", **B)),
        ("get_cell_id", dict(coords=ijk), dict(boundary=True)),
        ("get_cell_coords", dict(id=c), dict(boundary=True)),
        ("get_cells_coords", {}, dict(fmt="tuple", **B)),
        ("get_cells_icoords", {}, dict(fmt="tuple", **B)),
        ("get_cell_neighbors", dict(id=c), dict(boundary=False, fmt="dict")),
        ("get_cell_neighbors", dict(coords=ijk), dict(boundary=False, fmt="dict")),
        ("get_cell_boundaries", dict(id=c), dict(fmt="dict")),
        ("get_cell_boundaries", dict(coords=ijk), dict(fmt="dict")),
        ("remove_boundaries", dict(in_data=v), dict(points=False, remove="both")),
        ("remove_boundaries", dict(in_data=xyz), dict(points=True, remove="both")),
        ("extract_boundaries", dict(in_data=ids), dict(points=False, fmt="tuple")),
        ("extract_boundaries", dict(in_data=xyz), dict(points=True, fmt="tuple")),
        ("get_boundaries", {}, F),
    ])
    env.observe("n", n)


def geometry(env, shape, d, unify):
    flat, wide = dict(boundary=True, fshape=False), dict(boundary=True, fshape=True)
    table = [("get_corners", {}, dict(boundary=True)), ("get_Vt", {}, dict(boundary=True, pyvista=False)), ("get_cells_V", {}, dict(pyvista=False, **flat)), ("get_cells_center", {}, dict(pyvista=False, **flat))]
    for s in "xyz":
        table += [("get_cells_d", dict(dir=s), flat), ("get_cells_d" + s, {}, flat), ("get_cells_A", dict(dir=s), wide), ("get_cells_A" + s, {}, wide)]
    left_out(env, lambda: grid(env, shape, d=d, unify=unify), table)
    env.observe("n", len(cells(shape)))


def properties(env, shape, how, unify):
    full = dict(boundary=True, fshape=True, fmt="array")
    table = [("get_prop", dict(name=n), full) for n in ("kx", "ky", "kz", "phi", "z")] + [("get_cells_k", dict(dir=s), full) for s in "xyz"]
    left_out(env, lambda: grid(env, shape, k=how, phi=how, z="sym", unify=unify), table)
    env.observe("n", len(cells(shape)))


def transmissibility(env, shape, d, k, unify):
    table = [("get_cells_G", {}, dict(boundary=False, sparse=True)), ("get_cells_G_diag_1", {}, dict(boundary=False))]
    if sum(n > 1 for n in shape) >= 2 and k == "sym":
        table.append(("get_cells_G_diag_2", {}, dict(boundary=False, diag_1=None)))
    for c in (interior(shape)[0], interior(shape)[-1]):
        table.append(("get_cell_G", dict(id=c), dict(boundary=True)))
    left_out(env, lambda: grid(env, shape, d=d, k=k, unify=unify), table)
    table = [("get_cells_trans", {}, dict(boundary=False, sparse=False, vectorize=True)), ("get_cells_trans_diag", {}, dict(boundary=False, diag_n=1))]
    for c in (interior(shape)[0], interior(shape)[-1]):
        table.append(("get_cell_trans", dict(cell_id=c), dict(boundary=False)))
        table.append(("get_cell_trans", dict(cell_coords=cells(shape)[c][1]), dict(boundary=False)))

    def model():
        return env.rf.models.BlackOil(grid(env, shape, d=d, k=k, unify=unify), fluid(env), pi=env.f("1000"), dtype="double")

    left_out(env, model, table)
    env.observe("n", len(cells(shape)))


def all_the_same(env, what, a, b, names):
    for n in names:
        x, y = (n(a), n(b)) if callable(n) else (getattr(a, n), getattr(b, n))
        alike(env, "left out: " + what, frozen(x), frozen(y))


def variants(env, what, make, given, rest, names):
    full = make(**given, **rest)
    for k in [None] + list(rest):
        some = make(**given, **({} if k is None else {x: v for x, v in rest.items() if x != k}))
        all_the_same(env, f"{what} without {k or 'all'}", some, full, names)


def objects(env, shape):
    """constructors of fluids, grids and models"""
    rf = env.rf
    dx, dy, dz = axis_lengths(env, shape, "sym")
    ks = {"k" + s: per_cell(env, "k" + s, shape, "sym", nice=(1, 100)) for s in "xyz"}
    base = dict(nx=shape[0], ny=shape[1], nz=shape[2], dx=dx, dy=dy, dz=dz, phi=env.real("phi", "+", nice=(0.05, 0.4)), **ks)
    own = ["unit", "units", "factors", lambda o: str(env.np.dtype(o.dtype)) if not env.sym else str(o.dtype), "verbose"]
    # depth zero, field units, arrays of three axes
    g = dict(z=0, unit="field", dtype="double", unify=True, verbose=False)
    variants(env, "grid", rf.grids.RegularCartesian, base, g, own + ["unify", lambda o: o.get_prop("z"), lambda o: o.get_fshape(True), lambda o: o.get_cells_G(False, False)])
    plain = rf.grids.RegularCartesian(**base)
    env.eq("left out: depth", plain.get_prop("z", True, False, "array"), env.arr([env.zero() for _ in cells(shape)]))
    env.same("left out: unit", (plain.unit, plain.unify, plain.verbose), ("field", True, False))
    f = dict(mu=env.real("mu", "+", nice=(0.3, 3)), B=env.real("B", "+", nice=(0.8, 1.5)), rho=env.real("rho", "+", nice=(30, 70)))
    variants(env, "fluid", rf.fluids.SinglePhase, f, dict(unit="field", dtype="double", verbose=False), own + ["mu", "B", "rho", "comp", "g"])
    oil = rf.fluids.SinglePhase(**f)
    env.eq("left out: compressibility", oil.comp, env.zero())
    bare = rf.fluids.SinglePhase(mu=f["mu"], B=f["B"])
    env.eq("left out: density", env.zero() + bare.rho, env.zero())
    env.eq("left out: gravity", env.zero() + bare.g, env.zero())
    a = dict(grid=plain, fluid=oil)
    pi = env.real("pi", nice=(1000, 3000))
    m = dict(well=None, dt=1, unit="field", dtype="double", verbose=False)
    names = own + ["pi", "dt", "wells", "w_pressures", "bdict", "comp", "scalers_dict", lambda o: o.init_pressures[0, interior(shape)[0]], lambda o: o.init_rates]
    variants(env, "model", rf.models.BlackOil, dict(pi=pi, start_date=date(2020, 2, 27), **a), m, names)
    b = rf.models.BlackOil(pi=pi, **a)
    env.eq("left out: duration of a step", env.zero() + b.dt, env.f("1"))
    env.same("left out: scalers", frozen(b.scalers_dict), frozen({"time": ["MinMax", (0, 1)], "space": ["MinMax", (-1, 1)], "pressure": ["MinMax", (-1, 1)], "rate": [None, None]}))
    for o in (plain, oil, b):
        o.set_units("metric")
        o.set_units()
        env.same("left out: system of units", (o.unit, frozen(o.units)), ("field", frozen(plain.units)))
    env.observe("pi", b.pi)


def scalers(env, n):
    """the columns are scaled each unless asked for otherwise"""
    S = env.rf.scalers
    v = env.arr([env.real(f"v{i}", nice=(-50, 50)) for i in range(2 * n)]).reshape((n, 2))
    for j in range(2):
        env.assume(v[0, j] < v[1, j])
    one, two, three = S.MinMax((0, 1)), S.MinMax((0, 1), None), S.MinMax(output_range=(0, 1), input_range=None)
    a, b, c = one.fit(v).transform(v), two.fit(v, axis=0).transform(v), three.fit_transform(v)
    env.eq("left out: axis", a, b)
    env.eq("left out: axis of fit_transform", c, b)
    env.eq("left out: smallest of each column", a[0, :] if n == 2 else a[0, :] - b[0, :], env.arr([env.zero(), env.zero()]))
    env.observe("a", a)


def steps(env, shape, comp, wells, bcs, z, how):
    """compile, solve and run without their optional arguments: sparse matrices,
    ten steps, every step is kept"""
    a, b, c = (p15.make(env, shape, comp, wells, bcs, z, False) for _ in range(3))
    c.compile(stype="numerical", method="FDM")
    env.same("matrices are sparse unless asked for", bool(c.solution.sparse), True)
    for x in interior(shape):  # the same state as the others
        c.solution.pressures[0, x] = a.solution.pressures[0, x]
    if how == "solve":
        n = 2
        for _ in range(n):
            a.solve(threading=False, vectorize=True, check_MB=True, update=True, print_arrays=False, isolver=None)
            b.solve()
            c.solve()
    else:
        n = 10
        a.run(nsteps=n, threading=True, vectorize=True, check_MB=True, print_arrays=False, isolver=None)
        b.run()
        c.run()
    A, B, C = p15.snap(env, a), p15.snap(env, b), p15.snap(env, c)
    p15.sizes(env, shape, b, n, "left out")
    p15.sizes(env, shape, c, n, "all left out")
    p15.same_rows(env, shape, A, B, n + 1, "left out")
    p15.same_rows(env, shape, A, C, n + 1, "all left out")
    env.same("left out: control", A["control"], B["control"])
    N = len(cells(shape))
    env.same("left out: shape of the model", (tuple(b.get_shape()), tuple(b.get_shape(True))), ((n + 1, N), (n + 1, N)))
    alike(env, "left out: times", frozen(b.get_time()), frozen(b.get_time(scale=False)))
    alike(env, "left out: centres", frozen(b.get_centers()), frozen(b.get_centers(scale=False, boundary=True)))
    env.observe("n", n)


def tables(env, shape, comp, wells, bcs, n):
    full = dict(columns=["time", "cells", "wells"], boundary=True, units=False, melt=False, scale=False, save=False, drop_nan=True, drop_zero=True)
    m, dt = p17.make(env, shape, comp, wells, bcs, False, n, "2", False, positive=True)
    with env.files() as files:
        # other models asked before
        for w, k in ((), 0), (wells, 0):
            o = p17.make(env, shape, comp, w, bcs, False, k, "2", False)[0]
            o.get_df(), o.get_df(drop_nan=False), o.get_df(units=True, drop_zero=False), o.get_df(melt=True, drop_nan=False)
        want = m.get_df(**full)
        want = [(str(c), list(want.iloc[:, i])) for i, c in enumerate(want.columns)]
        for k in [None] + list(full):  # all of them, then one at a time
            df = m.get_df(**({} if k is None else {x: (list(v) if isinstance(v, list) else v) for x, v in full.items() if x != k}))
            p17.compare(env, df, want, "left out: " + (k or "all"))
        env.same("nothing is saved unless asked for", len(files), 0)
    env.observe("columns", [c for c, _ in want])


def figures(env, shape, wells, n):
    """figures show pressures of the interior cells and the wells, without
    labels, with a slider"""
    m = p23.make(env, shape, True, wells, ("pressure", "rate"), n)
    log = env.figures()
    m.show()
    fig = log[0]
    main, V = p23.scene(env, fig, m, shape, "pressures", False, True, None)
    k = [s is main for s in fig.meshes].index(True)
    p23.data_ok(env, "figure without arguments", fig.shows[0][0][k], V[n])
    env.same("slider", len(fig.sliders), 1)
    m.grid.show()
    fig = log[1]
    env.same("one figure of the grid", (len(log), len(fig.shows)), (2, 1))
    p23.mesh_ok(env, fig.meshes[0], m.grid, shape, False)
    p23.labels_ok(env, fig, m.grid, shape, False, None)
    m.save_gif(file_name="never written.gif")
    p23.scene(env, log[2], m, shape, "pressures", False, True, None)
    env.observe("figures", len(log))


def obligations(tier):
    out = []
    T = tier == "thorough"
    add = lambda f, b=250, **k: out.append(Obligation(f, k, max_paths=700, budget_s=b))
    S = [(3, 1, 1), (1, 3, 1), (1, 1, 3), (3, 2, 1), (2, 1, 3), (1, 2, 2), (2, 2, 2)] + ([(3, 2, 2), (2, 3, 1), (1, 3, 2), (5, 1, 1)] if T else [])
    for s in S:
        for u in (True, False):
            add(topology, shape=s, unify=u)
            add(geometry, shape=s, d="sym" if u else "uniform", unify=u)
            add(properties, shape=s, how="sym" if u else "uniform", unify=u)
        for d, k in [("sym", "sym"), ("uniform", "uniform")]:
            add(transmissibility, shape=s, d=d, k=k, unify=s[1] > 1)
        add(objects, shape=s)
    for n in (2, 3) + ((4,) if T else ()):
        add(scalers, n=n)
    R = [(2, 1, 1), (3, 1, 1), (1, 3, 1), (2, 2, 1)]
    for j, sh in enumerate(R):
        for comp in (True, False):
            add(steps, shape=sh, comp=comp, wells=(("q", 0),) if j in (1, 3) else (), bcs=("pressure", "rate"), z=bool(j % 2), how="solve")
        if j < 3:
            add(steps, shape=sh, comp=False, wells=(), bcs=("rate", "pressure"), z=False, how="run")
    K = [("pressure", "rate"), ("rate", "pressure", None), ("gradient", "pressure"), (None, "rate")]
    W = [(), (("q", 0),), (("qp", 0),), (("p", 1), ("q", 0))]
    for j, sh in enumerate(R + [(2, 1, 2)]):
        for n in (0, 1, 2) if len(interior(sh)) < 3 else (1,):
            add(tables, shape=sh, comp=bool((n + j) % 2) or not n, wells=W[(n + j) % 4] if sh[0] > 1 and sh[2] == 1 else (), bcs=K[(n + j) % 3], n=n)
    for sh, w in [((2, 1, 1), (("q", 0),)), ((2, 2, 1), (("p", 3), ("q", 1))), ((1, 3, 1), ()), ((2, 1, 2), ()), ((2, 2, 2), (("q", 0),))]:
        for n in (0, 1):
            add(figures, shape=sh, wells=w, n=n)
    return out
