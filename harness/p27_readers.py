"""Looking changes nothing."""
import inspect
import itertools

from harness.common import *

META = dict(
    bounds="2x1x1, 3x1x1, 1x3x1, 1x1x2, 2x2x1, 2x2x2 interior cells; every public method that answers, with every combination of the arguments listed, before compiling, after compiling and after each of up to 2 steps; one step afterwards; values, states and conditions symbolic, coefficients concrete; grids alone with symbolic lengths and permeabilities",
    outside="changes made by the caller to an array that was answered; computed equations and errors kept for inspection (A, d, cells_eq, error); the last answer which methods of grids keep (n, n_max, shape, fshape, order, ones, zeros, cells_i); the fit of scalers, which scaled tables renew",
)
# working values: equations and errors are computed again by whoever needs them
WORK = {"A", "d_", "A_", "A_init", "cells_eq", "error", "cumulative_error", "ctime", "run_ctime", "cells_terms", "bdict_v", "model", "grid", "fluid", "solution", "solutions", "compilers", "run", "solve"}
# what users read and set; whatever else an object keeps for itself only counts by what follows from it
KNOWN = set("""dx dy dz nx ny nz A Ax Ay Az D V Vt cells_d_ cells_id comp comp_type d dtype dx_ dy_ dz_ factors fdir k kx ky kz nx_b ny_b nz_b phi unify unit units
    verbose z mu B rho g RHS bdict bdict_update boundaries_id dt init_pressures init_rates n pi scalers_dict start_date w_pressures wells
    As ds nsteps pressures rates sparse tstep Vmin Vmax""".split())
# methods of grids keep their last answer in an attribute of their name
LAST = {"n", "n_max", "shape", "fshape", "order", "ones", "zeros", "cells_i"}
GRID_KEEPS = {"A"}


def plain(v):
    v = frozen(v)
    return str(v) if hasattr(v, "isoformat") else v


def inside(o, skip):
    return {n: plain(v) if not hasattr(v, "__dict__") or hasattr(v, "dtype") or hasattr(v, "toarray") else type(v).__name__ for n, v in sorted(vars(o).items()) if n in KNOWN and n not in skip}


def state(env, g, m=None):
    """all there is, by object and attribute"""
    out = {"grid": inside(g, (WORK - GRID_KEEPS) | LAST)}
    base = env.rf.base
    out["tables"] = {f"{t}": frozen(getattr(base, t)) for t in ("UNITS", "FACTORS") if hasattr(base, t)}
    if m is None:
        return out
    s = m.solution
    out["fluid"] = inside(m.fluid, WORK)
    out["model"] = inside(m, WORK)
    out["names"] = {"solutions": sorted(m.solutions), "compilers": sorted(m.compilers), "compiler": str(m.compiler)}
    for n in ("time_scaler", "space_scaler", "pressures_scaler", "rates_scaler"):
        out[n] = inside(getattr(m, n), {"vmin", "vmax"})
    if s is not None:
        out["solution"] = inside(s, WORK | {"d"})
        out["solution"]["control"] = frozen({c: m.wells[c]["constrain"] for c in sorted(m.wells)})
    for f in ("get_df", "set_scalers", "update_scalers", "get_centers"):
        out["defaults " + f] = {"": frozen(getattr(type(m), f).__defaults__ or ())}
    return out


def untouched(env, what, before, after):
    """attributes that were there are what they were (others may have been added)"""
    for o in before:
        env.check(f"{what}: {o}", o in after)
        for n, v in before[o].items():
            if n in after[o]:
                if identical(v, after[o][n]):
                    continue
                alike(env, f"{what}: {o}.{n}", v, after[o][n])
            else:
                env.check(f"{what}: {o}.{n}", False)


def identical(a, b):
    """the very same values: nothing to decide"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(identical, a, b))
    return isinstance(a, (str, int, bool)) and a == b


def arguments(g, shape, sig, full):
    inn, b = interior(shape), boundary(shape)
    some = [inn[0], b[0]] + ([inn[-1]] if full else [])
    table = dict(
        boundary=[True, False], fshape=[True, False], points=[True, False], sparse=[False, True], dir=["x", "y", "z"], id=some, by=["id", "coords"],
        fmt=["dict", "list", "tuple", "set", "array"], type=["natural"], name=["kx", "ky", "phi", "z"], value=["id"], remove=["both", "left", "right"],
    )
    names = [p for p in sig.parameters if p in table]
    for p, q in sig.parameters.items():
        if q.default is q.empty and p not in names and p not in ("coords", "self"):
            return
    if "coords" in sig.parameters and sig.parameters["coords"].default is inspect.Parameter.empty:
        for c in some:
            ijk = g.get_cell_coords(c, True)
            for kw in combos(names, table):
                yield dict(kw, coords=ijk)
        return
    yield from combos(names, table)


def combos(names, table):
    for v in itertools.product(*[table[n] for n in names]):
        yield dict(zip(names, v))


def public(o, words=("get_", "is_")):
    for n in sorted(dir(type(o))):
        if n.startswith(words):
            yield n


def ask(f):
    try:
        f()
    except Exception as e:  # refused questions change nothing either
        if type(e).__name__ in ("Inconclusive", "PathAbort", "Stop"):
            raise
    return True


def grid_questions(env, g, shape, full):
    cls = type(g)
    for n in public(g):
        a = inspect.getattr_static(cls, n)
        if isinstance(a, property):
            yield n, lambda: getattr(g, n)
            continue
        if n == "get_pyvista_grid":
            continue
        f = getattr(g, n)
        for kw in arguments(g, shape, inspect.signature(f), full):
            yield n, lambda: f(**kw)
    N = len(cells(shape))
    x = env.real("data", nice=(1, 9))
    data = env.arr([x + env.f(str(i)) for i in range(N)])
    for n in ("extract_boundaries", "remove_boundaries"):
        f = getattr(g, n)
        for fmt in ("array", "list", "tuple", "set", "dict"):
            yield n, lambda: f(data, False, fmt=fmt) if n == "extract_boundaries" else f(data, False)


def same_grid(env, twin, g, shape):
    """answers of the grid that was looked at are those of the other"""
    i = interior(shape)[0]
    for b in (True, False):
        alike(env, "coefficients", frozen(twin.get_cells_G(boundary=b)), frozen(g.get_cells_G(boundary=b)))
        alike(env, "centres", frozen(twin.get_cells_center(b, False, False)), frozen(g.get_cells_center(b, False, False)))
        alike(env, "corners", frozen(twin.get_corners(b)), frozen(g.get_corners(b)))
        alike(env, "volumes", frozen(twin.get_cells_V(b, False)), frozen(g.get_cells_V(b, False)))
        alike(env, "neighbours", frozen(twin.get_cell_neighbors(i, None, b, "dict")), frozen(g.get_cell_neighbors(i, None, b, "dict")))
        alike(env, "ids", frozen(twin.get_cells_id(b, False, "array")), frozen(g.get_cells_id(b, False, "array")))
        alike(env, "permeability", frozen(twin.get_cells_k("x", b, False)), frozen(g.get_cells_k("x", b, False)))
    alike(env, "boundaries", frozen(twin.get_boundaries("id", "array")), frozen(g.get_boundaries("id", "array")))


def grid_alone(env, shape, k, full):
    how = dict(d="cell", k=k, phi=k, z=k if k == "sym" else None)
    g, twin = grid(env, shape, **how), grid(env, shape, **how)
    before = state(env, g)
    last = None
    for n, f in grid_questions(env, g, shape, full):
        if n != last and last is not None:
            untouched(env, f"after {last}", before, state(env, g))
        last = n
        ask(f)
    untouched(env, f"after {last}", before, state(env, g))
    same_grid(env, twin, g, shape)
    env.observe("V", frozen(g.get_cells_V(False, False))[2])


class Numbers:
    """the same names, numbers instead of unknowns"""

    def __init__(self, env):
        self.env = env

    def __getattr__(self, n):
        return getattr(self.env, n)

    def real(self, name, sign=None, nice=(1, 2)):
        h = sum((i + 1) * ord(c) for i, c in enumerate(name)) % 89 + 5
        lo, hi = nice
        return self.env.f(str(lo)) + (self.env.f(str(hi)) - self.env.f(str(lo))) * self.env.f(str(h)) / self.env.f("97")


def make(env, shape, comp, wells, bcs):
    z0 = env.real("z0", nice=(-20, 20))
    zz = env.arr([z0 + env.f(str((i * 5) % 7)) for i in range(len(cells(shape)))])
    g = concrete_grid(env, shape, z=zz, comp="0.00001" if comp else "0")
    f = concrete_fluid(env, comp="0.00002" if comp else "0")
    m = env.rf.models.BlackOil(g, f, pi=env.real("pi", nice=(1000, 3000)), dt=env.f("2"), dtype="double")
    for i, (kind, j) in enumerate(wells):
        add_well(env, m, interior(shape)[j], kind, str(i))
    B = {}
    for i, b in enumerate(flow_cells(shape)):
        k = bcs[i % len(bcs)]
        if k:
            B[b] = (k, bc_value(env, f"v{b}", k))
    m.set_boundaries(dict(B))
    return m


def tables(env, m, shape, done):
    cols = [["time", "cells", "wells"], ["date", "q"], ["p"], ["wells_rate", "time"], ["cells_pressure"]]
    for c in cols:
        for melt in (False, True):
            for bound in (True, False):
                yield "get_df", lambda: m.get_df(columns=list(c), boundary=bound, melt=melt, drop_zero=False)
        yield "get_df with units", lambda: m.get_df(columns=list(c), units=True, drop_nan=False, drop_zero=False)
    yield "get_df", lambda: m.get_df(melt=True)
    yield "get_centers", lambda: m.get_centers(False, False)
    yield "get_shape", lambda: (m.get_shape(True), m.get_shape(False))
    yield "get_solutions", lambda: m.get_solutions()


def scaled(env, m, shape, done):
    yield "get_df", lambda: m.get_df()
    if done:
        for melt in (False, True):
            yield "scaled get_df", lambda: m.get_df(scale=True, melt=melt)
        for s in (False, True):
            yield "get_time", lambda: m.get_time(s)
            yield "get_centers", lambda: m.get_centers(s, True)
            yield "get_domain", lambda: m.get_domain(s, True)


def equations(env, m, shape, done):
    s = m.solution
    inn = interior(shape)
    for c in (inn[0], inn[-1]):
        yield "get_cell_eq", lambda: s.get_cell_eq(c)
    yield "get_cells_eq", lambda: s.get_cells_eq(False)
    yield "get_matrices_symb", lambda: s.get_matrices_symb(False)
    yield "get_matrices_vect", lambda: s.get_matrices_vect(False)
    for v in (False, True):
        yield "solve(update=False)", lambda: s.solve(vectorize=v, update=False, check_MB=False, isolver=None)
    yield "check_MB", lambda: s.check_MB()
    for n in ("get_init_arrays", "get_alpha"):
        yield n, lambda: getattr(m, n)()


def transmissibilities(env, m, shape, done):
    for bound in (True, False):
        for c in (interior(shape)[0], boundary(shape)[0]):
            yield "get_cell_trans", lambda: m.get_cell_trans(c, None, bound)
        for sparse in (True, False):
            for v in (True, False):
                yield "get_cells_trans", lambda: m.get_cells_trans(bound, sparse, v)
        for d in (1, 2, 3):
            yield "get_cells_trans_diag", lambda: m.get_cells_trans_diag(bound, d)


def figures(env, m, shape, done):
    env.figures()
    for prop in ("pressures", "rates"):
        for bound in (True, False):
            yield "show", lambda: m.show(prop, boundary=bound, wells=True, info=True, static=True, notebook=True)
        yield "save_gif", lambda: m.save_gif(prop, boundary=False, wells=True, file_name="never written.gif")
    for label in ("id", "dx", "V", "center", "coords"):
        yield "show", lambda: m.show("p", label=label, boundary=True, wells=True, static=True, notebook=True, opacity=0.5)
        yield "grid.show", lambda: m.grid.show(label=label, boundary=False, opacity=0.5, static=True, notebook=True)
    yield "get_pyvista_grid", lambda: m.grid.get_pyvista_grid(True)


def of_grid(env, m, shape, done):
    yield from grid_questions(env, m.grid, shape, False)


KINDS = dict(tables=tables, scaled=scaled, equations=equations, transmissibilities=transmissibilities, figures=figures, grid=of_grid)


def looked(env, shape, comp, wells, bcs, kind, n, vect, numbers):
    """before compiling, then after every step, everything is asked"""
    if numbers:
        env = Numbers(env)
    m, twin = make(env, shape, comp, wells, bcs), make(env, shape, comp, wells, bcs)

    def look(done):
        before = state(env, m.grid, m)
        last = None
        for name, f in KINDS[kind](env, m, shape, done):
            if name != last and last is not None:
                untouched(env, f"after {last}", before, state(env, m.grid, m))
            last = name
            ask(f)
        untouched(env, f"after {last}", before, state(env, m.grid, m))

    if kind in ("transmissibilities", "grid"):
        look(0)
    for o in (m, twin):
        compiled(env, o, False)
        for c in interior(shape):
            o.solution.pressures[0, c] = env.real(f"o{c}", nice=(500, 3000))
    look(0)
    for t in range(n):
        for o in (m, twin):
            o.solve(vectorize=vect, check_MB=False, isolver=None)
        look(t + 1)
    # going on
    b = flow_cells(shape)[-1]
    v = env.real("new", nice=(500, 3000))
    for o in (m, twin):
        o.set_boundary(b, "pressure", v)
        o.run(1, vectorize=vect, check_MB=False, isolver=None, threading=False)
    untouched(env, "going on", state(env, twin.grid, twin), state(env, m.grid, m))
    same_grid(env, twin.grid, m.grid, shape)
    for c in interior(shape):
        alike(env, "transmissibility", frozen(twin.get_cell_trans(c, None, True)), frozen(m.get_cell_trans(c, None, True)))
    for scale in (False, True) if numbers else (False,):
        x, y = m.get_df(scale=scale, drop_nan=False, drop_zero=False), twin.get_df(scale=scale, drop_nan=False, drop_zero=False)
        env.same("columns", list(x.columns), list(y.columns))
        for c in x.columns:
            for t in range(n + 2):
                env.eq("table", x[c].values[t], y[c].values[t], scale=100.0)
    env.observe("p", [m.solution.pressures[m.solution.tstep, c] for c in interior(shape)])


def obligations(tier):
    out = []
    T = tier == "thorough"
    add = lambda f, b=250, **k: out.append(Obligation(f, k, max_paths=400, budget_s=b))
    K = [("pressure", "rate"), ("rate", "pressure", None), ("gradient", "pressure"), ("pressure",)]
    W = [(("q", 0),), (("qp", 0),), (("p", 0), ("q", 1)), ()]
    shapes = [(2, 1, 1), (3, 1, 1), (1, 3, 1), (1, 1, 2), (2, 2, 1)] + ([(2, 2, 2), (2, 1, 2), (1, 2, 2)] if T else [(2, 2, 2)])
    i = 0
    for sh in shapes:
        add(grid_alone, shape=sh, full=T, k="scaled")
        if sum(sh) < 5:
            add(grid_alone, shape=sh, full=T, k="sym")
        for kind in KINDS:
            i += 1
            w = W[i % 4] if sh[0] > 1 and (sh[1] > 1 or sh[2] == 1) else ()
            for n in (0, 1) + ((2,) if T else ()):
                add(looked, shape=sh, comp=bool(i % 3), wells=w, bcs=K[(i + n) % 4], kind=kind, n=n, vect=bool((i + n) % 2), numbers=kind in ("scaled", "figures"))
    return out
