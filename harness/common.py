"""Builders shared by the harnesses.  All of them work symbolically and on the
real package."""
from vsx.explore_types import Obligation  # noqa: F401

INF = float("inf")


def strides(shape):
    """interior shape -> (padded shape, active axes)"""
    nx, ny, nz = shape
    act = [n > 1 for n in shape]
    return tuple(n + 2 if a else n for n, a in zip(shape, act)), act


def cells(shape):
    """[(id, (i, j, k), is_boundary)] in natural order over the padded grid"""
    (bx, by, bz), act = strides(shape)
    out = []
    for k in range(bz):
        for j in range(by):
            for i in range(bx):
                ijk = (i, j, k)
                b = any(a and c in (0, n - 1) for a, c, n in zip(act, ijk, (bx, by, bz)))
                out.append((i + bx * (j + by * k), ijk, b))
    return out


def idof(shape, ijk):
    (bx, by, bz), _ = strides(shape)
    i, j, k = ijk
    return i + bx * (j + by * k)


def interior(shape):
    return [c for c, _, b in cells(shape) if not b]


def boundary(shape):
    return [c for c, _, b in cells(shape) if b]


def adjacent(shape):
    """[(axis, id, id_n)] for every pair of cells sharing a face (id < id_n)"""
    pad, act = strides(shape)
    out = []
    for c, ijk, _ in cells(shape):
        for ax in range(3):
            if not act[ax]:
                continue
            n = list(ijk)
            n[ax] += 1
            if n[ax] < pad[ax]:
                out.append(("xyz"[ax], c, idof(shape, n)))
    return out


def neighbors(shape, cid, with_boundary=True):
    """{axis: [ids]} cells sharing a face with cid"""
    bset = set(boundary(shape))
    out = {"x": [], "y": [], "z": []}
    for ax, a, b in adjacent(shape):
        o = b if a == cid else (a if b == cid else None)
        if o is not None and (with_boundary or o not in bset):
            out[ax].append(o)
    for ax in out:
        out[ax].sort()
    return out


def axis_lengths(env, shape, how="sym"):
    """cell lengths per axis (list when the axis is active, else one value)"""
    pad, act = strides(shape)
    out = []
    for ax, (n, a) in enumerate(zip(pad, act)):
        s = "xyz"[ax]
        if how == "uniform" or (how == "sym" and not a):
            out.append(env.real("d" + s, "+", nice=(5, 50)))
        elif how == "sym":
            out.append(env.arr([env.real(f"d{s}{i}", "+", nice=(5, 50)) for i in range(n)]))
        else:
            # x and y lengths have rational diagonals: 15/48 with 20/36
            vals = [[15, 48], [20, 36], [10, 20, 15, 30, 25]][ax]
            out.append(env.arr([env.f(str(vals[(i * (i + 1) // 2) % len(vals)])) for i in range(n)]) if a else env.f(str(vals[0])))
    return out


def per_cell(env, name, shape, how, sign="+", nice=None, conc=None):
    """property per padded cell: 'sym' one unknown per cell, 'uniform' one unknown"""
    n = len(cells(shape))
    if how == "uniform":
        return env.real(name, sign, nice=nice)
    if how == "sym":
        return env.arr([env.real(f"{name}{i}", sign, nice=nice) for i in range(n)])
    if how == "scaled":  # one unknown times fixed, different ratios
        x = env.real(name, sign, nice=nice)
        return env.arr([x * env.f(str(1 + (i * 7) % 11)) for i in range(n)])
    vals = conc or [10, 20, 15, 30, 25, 50, 35]
    return env.arr([env.f(str(vals[(i * 3 + i // 2) % len(vals)])) for i in range(n)])


def grid(env, shape, d="uniform", k="uniform", phi="uniform", z=None, comp=True, kdirs="xyz", unify=True, **kw):
    dx, dy, dz = axis_lengths(env, shape, d)
    ks = {"k" + s: per_cell(env, "k" + s, shape, k, nice=(1, 100)) for s in kdirs}
    p = per_cell(env, "phi", shape, phi, nice=(0.05, 0.4), conc=["0.1", "0.2", "0.25", "0.3"])
    args = dict(nx=shape[0], ny=shape[1], nz=shape[2], dx=dx, dy=dy, dz=dz, phi=p, unify=unify, **ks)
    if z == "sym":
        args["z"] = per_cell(env, "z", shape, "sym", sign="?", nice=(-100, 100))
    elif z is not None:
        args["z"] = z
    if comp:
        args["comp"] = env.real("cg", "+", nice=(0.000001, 0.00001)) if comp is True else comp
    args.update(kw)
    return env.rf.grids.RegularCartesian(**args)


def fluid(env, comp=True, **kw):
    a = dict(mu=env.real("mu", "+", nice=(0.3, 3)), B=env.real("B", "+", nice=(0.8, 1.5)), rho=env.real("rho", "+", nice=(30, 70)))
    if comp:
        a["comp"] = env.real("cf", "+", nice=(0.000001, 0.00001)) if comp is True else comp
    a.update(kw)
    return env.rf.fluids.SinglePhase(**a)


def magnitude(env):
    """factor of all concrete flow and storage coefficients; the pressures of a
    system without rates do not depend on it"""
    return getattr(env, "mag", None) or env.f("1")


def concrete_grid(env, shape, unify=True, comp="0.000001", hetero=True, z=None, iso=True, **kw):
    """grid with fixed rational data (heterogeneous), for multi-step histories.

    With iso, kx equals ky; the cell sizes then have rational diagonals, so that
    wells of radius well_r() get rational coefficients."""
    n = len(cells(shape))
    mag = magnitude(env)
    dx, dy, dz = axis_lengths(env, shape, "conc") if hetero else [env.f("15"), env.f("20"), env.f("10")]
    ks = {}
    for s, base in (("x", 10), ("y", 10 if iso else 8), ("z", 4)):
        ks["k" + s] = (
            env.arr([mag * env.f(str(base + (i * 7) % 11)) for i in range(n)]) if hetero else mag * env.f(str(base))
        )
    phi = env.arr([env.f(["0.1", "0.2", "0.25", "0.15"][i % 4]) for i in range(n)]) if hetero else env.f("0.2")
    a = dict(nx=shape[0], ny=shape[1], nz=shape[2], dx=dx, dy=dy, dz=dz, phi=phi, unify=unify, **ks)
    if comp is not None:
        a["comp"] = mag * env.f(comp)
    if z is not None:
        a["z"] = z
    a.update(kw)
    return env.rf.grids.RegularCartesian(**a)


def concrete_fluid(env, comp="0.000005", **kw):
    a = dict(mu=env.f("0.5"), B=env.f("1.25"), rho=env.f("50"))
    if comp is not None:
        a["comp"] = magnitude(env) * env.f(comp)
    a.update(kw)
    return env.rf.fluids.SinglePhase(**a)


def compiled(env, model, sparse=False):
    model.compile(stype="numerical", method="FDM", sparse=sparse)
    return model.solution


def dense(env, m):
    """matrix/array -> plain 2-D/1-D array"""
    if hasattr(m, "toarray"):
        m = m.toarray()
    return env.np.asarray(m)


# ---- reference formulas -------------------------------------------------
def two_point(env, g, ax, a, b):
    """transmissibility geometry between neighbouring cells"""
    d, A, k = g.d[ax], g.A[ax], g.k[ax]
    c = g.factors["transmissibility conversion"]
    return 2 * c / (d[a] / (A[a] * k[a]) + d[b] / (A[b] * k[b]))


def trans(env, m, ax, a, b):
    return two_point(env, m.grid, ax, a, b) / (m.fluid.mu * m.fluid.B)


def well_req(env, m, c):
    """(equivalent radius, horizontal permeability) for a vertical well in cell c"""
    g = m.grid
    fdir = g.get_fdir()
    dx, dy = g.d["x"][c], g.d["y"][c]
    if fdir == "x":
        req = env.f("0.14") * (dx**2 + dy**2) ** 0.5
        kh = g.k["x"][c]
    else:
        kx, ky = g.k["x"][c], g.k["y"][c]
        req = (
            env.f("0.28")
            * ((ky / kx) ** 0.5 * dx**2 + (kx / ky) ** 0.5 * dy**2) ** 0.5
            / ((ky / kx) ** 0.25 + (kx / ky) ** 0.25)
        )
        kh = (kx * ky) ** 0.5
    return req, kh


def well_index(env, m, c, r, s=None, check=False):
    """(equivalent radius, geometric factor) of a vertical well in cell c"""
    g = m.grid
    req, kh = well_req(env, m, c)
    skin = 0 if s is None else s
    den = env.np.log(req / r * 12) + skin
    if check:  # wells wider than their cell are outside
        env.assume(den > env.f("0.01"))
    G = 2 * env.np.pi * g.factors["transmissibility conversion"] * kh * g.d["z"][c] / den
    return req, G


def well_r(env, m, c):
    """wellbore radius for which the logarithm in the well index vanishes (a
    well with skin then has a rational index in concrete_grid)"""
    return 12 * well_req(env, m, c)[0]


def accumulation(env, m, c):
    """storage coefficient of a cell"""
    comp = m.fluid.comp + m.grid.comp
    g = m.grid
    return g.V[c] * g.phi[c] * comp / (m.factors["volume conversion"] * m.fluid.B * m.dt)


def opposite(shape, b):
    """(axis, interior neighbour) of a boundary cell, None for edges and corners"""
    nb = neighbors(shape, b, False)
    for ax in "xyz":
        for c in nb[ax]:
            return ax, c
    return None


def boundary_rate(env, m, shape, b, cond, v, p):
    """flow into the interior through boundary cell b; p maps cells to pressures"""
    o = opposite(shape, b)
    if o is None:
        return None, env.zero()
    ax, c = o
    g = m.grid
    if cond == "rate":
        return c, v
    T = trans(env, m, ax, c, b)
    if cond == "gradient":
        return c, T * g.d[ax][c] * v
    return c, 2 * T * ((v - p[c]) - m.fluid.g * (g.z[b] - g.z[c]))


def residual(env, m, shape, p, p_old, bcs, wells):
    """net inflow minus accumulation of each interior cell (oracle).

    bcs {boundary id: (cond, v)}; wells {cell: ("q", q) | ("pwf", pwf, G) | None}"""
    inn = interior(shape)
    bset = set(boundary(shape))
    g = m.grid
    R = {c: env.zero() for c in inn}
    for ax, a, b in adjacent(shape):
        if a in bset or b in bset:
            continue
        f = trans(env, m, ax, a, b) * ((p[b] - p[a]) - m.fluid.g * (g.z[b] - g.z[a]))
        R[a] = R[a] + f
        R[b] = R[b] - f
    for b, (cond, v) in bcs.items():
        c, q = boundary_rate(env, m, shape, b, cond, v, p)
        if c is not None:
            R[c] = R[c] + q
    for c, w in wells.items():
        if w is None:
            continue
        if w[0] == "q":
            R[c] = R[c] + w[1]
        else:
            R[c] = R[c] - w[2] / (m.fluid.B * m.fluid.mu) * (p[c] - w[1])
    for c in inn:
        R[c] = R[c] - accumulation(env, m, c) * (p[c] - p_old[c])
    return R


# ---- simulations with fixed coefficients and symbolic state -------------
def flow_cells(shape):
    """boundary cells with a face on the interior"""
    return [b for b in boundary(shape) if opposite(shape, b)]


def bc_value(env, name, kind):
    return env.real(name, nice=(500, 3000) if kind == "pressure" else (-2, 2))


def sim(env, shape, comp=True, z="sym", wells=(), bcs=("pressure", "rate"), which="flow", state=True, sparse=False, dt="2", **kw):
    """compiled model; wells is [(kind, index of the interior cell)] with kinds
    q, qp (rate with pressure limit), p, idle.

    Returns (model, conditions, wells) with the last two in the form taken by
    residual()."""
    n = len(cells(shape))
    inn = interior(shape)
    zz = None
    if z == "sym":
        zz = env.arr([env.real(f"z{i}", nice=(-20, 20)) for i in range(n)])
    g = concrete_grid(env, shape, z=zz, comp="0.00001" if comp else "0")
    f = concrete_fluid(env, comp="0.00002" if comp else "0")
    m = env.rf.models.BlackOil(g, f, pi=env.real("pi", nice=(1000, 3000)), dt=env.f(dt), dtype="double", **kw)
    W = {}
    for i, (kind, j) in enumerate(wells):
        c = inn[j]
        W[c] = add_well(env, m, c, kind, str(i))
    B = {}
    bs = flow_cells(shape) if which == "flow" else boundary(shape)
    for i, b in enumerate(bs):
        k = bcs[i % len(bcs)]
        if k:
            B[b] = (k, bc_value(env, f"v{b}", k))
    m.set_boundaries(dict(B))
    compiled(env, m, sparse)
    if state:
        for c in inn:
            m.solution.pressures[0, c] = env.real(f"o{c}", nice=(500, 3000))
    return m, B, W


def add_well(env, m, c, kind, tag=""):
    a = dict(cell_id=c, r=well_r(env, m, c), s=env.f("1.5"))
    G = well_index(env, m, c, a["r"], a["s"])[1]
    if kind in ("q", "qp"):
        a["q"] = env.real("q" + tag, nice=(-5, 5))
    if kind in ("p", "qp"):
        a["pwf"] = env.real("pwf" + tag, nice=(100, 400))
    m.set_well(**a)
    if kind == "idle":
        return None
    return ("q", a["q"]) if kind in ("q", "qp") else ("pwf", a["pwf"], G)


def controls(env, m, W):
    """wells as currently controlled, in the form taken by residual()"""
    out = {}
    for c in W:
        w = m.wells[c]
        if w["constrain"] == "q":
            out[c] = ("q", w["q_sp"])
        elif w["constrain"] == "pwf":
            out[c] = ("pwf", w["pwf_sp"], well_index(env, m, c, w["r"], w.get("s"))[1])
        else:
            out[c] = None
    return out


# ---- answers do not depend on the order of questions ---------------------
def frozen(v):
    """what was answered, by value: later changes of the object do not count"""
    if isinstance(v, dict):
        return ("dict", [(str(k), frozen(x)) for k, x in v.items()])
    if isinstance(v, (set, frozenset)):
        return ("set", sorted(frozen(x) for x in v))
    if hasattr(v, "toarray"):
        v = v.toarray()
    if hasattr(v, "dtype") and hasattr(v, "shape") and not hasattr(v, "index"):
        if not v.shape:
            return v.item() if hasattr(v, "item") else v
        return ("array", tuple(int(n) for n in v.shape), [x for x in v.reshape(-1).tolist()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [frozen(x) for x in v])
    return v


def alike(env, label, a, b):
    """two frozen answers are the same"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        env.same(label, len(a), len(b))
        if len(a) == len(b):
            for x, y in zip(a, b):
                alike(env, label, x, y)
        return
    plain = (str, bool, int, type(None))
    if isinstance(a, plain) or isinstance(b, plain):
        env.same(label, a, b)
    else:
        env.eq(label, a, b, scale=1.0)


def any_order(env, make, questions):
    """the same questions in the given order, in the opposite order, each on its
    own and each followed once more by all others have the same answers"""
    a, b = make(), make()
    qa, qb = questions(a), questions(b)
    first = [frozen(f()) for _, f in qa]
    back = [frozen(f()) for _, f in reversed(qb)][::-1]
    for (n, _), x, y in zip(qa, first, back):
        alike(env, "order: " + n, x, y)
    for q in (qa, qb):
        for (n, f), x in zip(q, first):
            alike(env, "again: " + n, x, frozen(f()))
    return first


def asks(label, obj, name, /, **kw):
    """the same question in every way of writing the call (cached answers are
    kept by the way the call is written)"""
    import inspect

    f = getattr(obj, name)
    sig = inspect.signature(f)
    kw = {k: kw[k] for k in sig.parameters if k in kw}
    last = max((i for i, k in enumerate(sig.parameters) if k in kw), default=-1)
    pos = [kw.get(k, p.default) for k, p in list(sig.parameters.items())[: last + 1]]
    few = {k: v for k, v in kw.items() if not (isinstance(v, (str, bool)) and sig.parameters[k].default == v)}
    calls = [((), kw), (tuple(pos), {}), ((), few), (tuple(pos[:1]), {k: v for i, (k, v) in enumerate(kw.items()) if k != next(iter(sig.parameters))})]
    return [(label, lambda a=a, k=k: f(*a, **k)) for a, k in calls]


def left_out(env, make, table):
    """arguments left out have their documented values: table lists (method,
    arguments given, values of those left out); both calls are made on objects
    of their own"""
    for name, given, rest in table:
        a, b = make(), make()
        short = getattr(a, name)(**given)
        full = getattr(b, name)(**given, **rest)
        env.same("left out: form of " + name, kind_of(short), kind_of(full))
        alike(env, "left out: " + name, frozen(short), frozen(full))
        for k in rest:  # each one on its own
            if len(rest) > 1:
                some = getattr(make(), name)(**given, **{x: v for x, v in rest.items() if x != k})
                env.same(f"left out: form of {name} without {k}", kind_of(some), kind_of(full))
                alike(env, f"left out: {name} without {k}", frozen(some), frozen(full))


def kind_of(v):
    if hasattr(v, "toarray"):
        return "sparse"
    if hasattr(v, "dtype") and hasattr(v, "shape"):
        return "array" if v.shape else "number"
    return type(v).__name__ if isinstance(v, (dict, list, tuple, set, str, bool)) else "number"
