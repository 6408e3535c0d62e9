"""Exported data are the solution."""
from datetime import date, datetime, timedelta

from harness.common import *

META = dict(
    bounds="2x1x1, 3x1x1, 1x3x1, 2x2x1, 2x1x2, 2x2x2 interior cells; 0 to 3 steps (dt symbolic for incompressible systems); wells of every kind; every selection and order of columns, with and without boundary cells, units, melting, scaling, dropping of undefined and zero columns; histories of 150 steps (thorough 1100) placed in the solution; pressures, values, depths symbolic, coefficients concrete; domain of 101x1x1, 9x9x1, 1x1x101, 5x4x5 (cell ids of three digits)",
    outside="larger grids; how pandas writes the csv file; text formatting of dates beyond day steps; plots",
)


def ends(env, xs):
    """(smallest, largest) of defined values"""
    x = env.arr([v for v in xs if not undefined(v)])
    return env.np.min(x), env.np.max(x)


def undefined(v):
    return isinstance(v, float) and v != v


def make(env, shape, comp, wells, bcs, z, n, dt="2", change=False, positive=False, **kw):
    if dt == "sym":
        kw["dt"] = env.real("dt", "+", nice=(0.5, 9))
    else:
        kw["dt"] = env.f(dt)
    dt = kw.pop("dt")
    num = len(cells(shape))
    zz = env.arr([env.real(f"z{i}", nice=(-20, 20)) for i in range(num)]) if z else None
    g = concrete_grid(env, shape, z=zz, comp="0.00001" if comp else "0")
    f = concrete_fluid(env, comp="0.00002" if comp else "0")
    m = env.rf.models.BlackOil(g, f, pi=env.real("pi", nice=(1000, 3000)), dt=dt, dtype="double", start_date=date(2020, 2, 27), **kw)
    inn = interior(shape)
    for i, (kind, j) in enumerate(wells):
        add_well(env, m, inn[j], kind, str(i))
    B = {}
    for i, b in enumerate(flow_cells(shape)):
        k = bcs[i % len(bcs)]
        if k:
            B[b] = (k, bc_value(env, f"v{b}", k))
            if positive and k == "pressure":
                env.assume(B[b][1] > 0)
    m.set_boundaries(dict(B))
    compiled(env, m)
    for c in inn:
        m.solution.pressures[0, c] = env.real(f"o{c}", "+" if positive else "?", nice=(500, 3000))
    for t in range(n):
        if change and t == 1:
            fb = flow_cells(shape)
            m.set_boundary(fb[0], "rate", env.real("nv", nice=(-2, 2)))
            m.set_boundary(fb[-1], "pressure", env.real("np", nice=(500, 3000)))
        m.solve(check_MB=False, isolver=None)
    return m, dt


def names(m, units, scale):
    s = m.scalers_dict
    u = lambda k, unit: "" if not units else (" [scaled]" if scale and s[k][0] is not None else f" [{m.units[unit]}]")
    return dict(time="Time" + u("time", "time"), q=u("rate", "rate"), p=u("pressure", "pressure"), date="Date" + (" [d.m.y]" if units else ""))


def expected(env, m, shape, dt, n, columns, boundary_, units, melt, scale):
    """[(name, values)] of a frame without dropping"""
    s = m.solution
    nm = names(m, units, scale)
    ids = [c for c, _, b in cells(shape) if boundary_ or not b]
    P = [[s.pressures[t, c] for c in ids] for t in range(n + 1)]
    Q = [[s.rates[t, c] for c in ids] for t in range(n + 1)]
    W = {c: [m.w_pressures[c][t] for t in range(n + 1)] for c in m.wells}
    T = [t * dt for t in range(n + 1)]
    D = [(date(2020, 2, 27) + timedelta(days=t * int(dt))).strftime("%d.%m.%Y") for t in range(n + 1)] if any(c.lower() in ("d", "date") for c in columns) else None
    one = env.f("1")
    fT = fP = fQ = lambda v: v
    if scale:
        fT = (lambda v: v / (n * dt))
        lo, hi = ends(env, [s.pressures[t, c] for t in range(n + 1) for c, _, _ in cells(shape)])
        fP = lambda v: v if undefined(v) else 2 * (v - lo) / (hi - lo) - one
        if m.scalers_dict["rate"][0] is not None:
            a, b = ends(env, [s.rates[t, c] for t in range(n + 1) for c, _, _ in cells(shape)])
            fQ = lambda v: (v - a) / (b - a)
    out = []
    if melt:
        axes = [ax for ax, a in zip("xyz", strides(shape)[1]) if a]
        out.append(("id", [c for _ in range(n + 1) for c in ids]))
        out.append(("Step", [t for t in range(n + 1) for _ in ids]))
        g = m.grid
        for ax in axes:
            x = centers(env, g, shape, ax)
            if scale:
                x0, x1 = ends(env, list(x.values()))
                x = {c: 2 * (v - x0) / (x1 - x0) - one for c, v in x.items()}
            out.append((ax, [x[c] for _ in range(n + 1) for c in ids]))
    for col in columns:
        k = col.lower()
        if k in ("t", "time"):
            v = [fT(x) for x in T]
            out.append((nm["time"], [x for x in v for _ in ids] if melt else v))
        if k in ("d", "date"):
            out.append((nm["date"], [x for x in D for _ in ids] if melt else D))
        if k in ("q", "rates", "cells", "cells_rate"):
            if melt:
                out.append(("Q" + nm["q"], [fQ(x) for r in Q for x in r]))
            else:
                out += [(f"Q{c}" + nm["q"], [fQ(r[i]) for r in Q]) for i, c in enumerate(ids)]
        if k in ("p", "pressures", "cells", "cells_pressure"):
            if melt:
                out.append(("P" + nm["p"], [fP(x) for r in P for x in r]))
            else:
                out += [(f"P{c}" + nm["p"], [fP(r[i]) for r in P]) for i, c in enumerate(ids)]
        if not melt and k in ("q", "rates", "wells", "wells_rate"):
            out += [(f"Qw{c}" + nm["q"], [fQ(s.rates[t, c]) for t in range(n + 1)]) for c in m.wells]
        if not melt and k in ("p", "pressures", "wells", "wells_pressure"):
            out += [(f"Pwf{c}" + nm["p"], [fP(x) for x in W[c]]) for c in m.wells]
    return out


def centers(env, g, shape, ax):
    """centre of every cell along an axis, boundary cells included"""
    pad, act = strides(shape)
    i = "xyz".index(ax)
    edge = {}
    for c, ijk, _ in cells(shape):
        if all(k == 0 for j, k in enumerate(ijk) if j != i):
            edge[ijk[i]] = g.d[ax][c]
    mid, x = {}, env.zero()
    for k in range(pad[i]):
        mid[k] = x + edge[k] / 2
        x = x + edge[k]
    return {c: mid[ijk[i]] for c, ijk, _ in cells(shape)}


def compare(env, df, want, what):
    env.same(f"{what}: columns", [str(c) for c in df.columns], [n for n, _ in want])
    for i, (name, vals) in enumerate(want):
        got = list(df.iloc[:, i])
        env.same(f"{what}: rows", len(got), len(vals))
        for g, v in zip(got, vals):
            if isinstance(v, (str, int)) and not isinstance(v, bool):
                env.same(f"{what}: {name[:4]}", g if isinstance(v, str) else int(g), v)
            else:
                env.eq(f"{what}: {name.rstrip('0123456789')[:6]}", g, v, scale=100.0 if env.sym is False and name[0] in "PQ" and "scaled" not in what else 1.0)


def keep(want, melt, drop_nan, drop_zero):
    """what remains after dropping; values are compared with zero by the solver"""
    if melt:
        if not drop_nan:
            return want
        rows = [i for i in range(len(want[0][1])) if not any(undefined(v[i]) for _, v in want)]
        return [(n, [v[i] for i in rows]) for n, v in want]
    out = want
    if drop_nan:
        out = [(n, v) for n, v in out if not all(undefined(x) for x in v)]
    if drop_zero:
        out = [(n, v) for n, v in out if any(isinstance(x, str) or undefined(x) or bool(x != 0) for x in v)]
    return out


def export(env, shape, comp, wells, bcs, z, n, columns, boundary_, units, melt, scale, drop_nan, drop_zero, dt="2", change=False, rate=False):
    m, dt = make(env, shape, comp, wells, bcs, z, n, dt, change, positive=drop_zero)
    if rate:
        m.set_scalers({"rate": ["MinMax", (0, 1)]})
    P = env.np.array(m.solution.pressures, copy=True)
    Q = env.np.array(m.solution.rates, copy=True)
    want = expected(env, m, shape, dt, n, columns, boundary_, units, melt, scale)
    want = keep(want, melt, drop_nan, drop_zero)
    cols = list(columns)
    df = m.get_df(columns=cols, boundary=boundary_, units=units, melt=melt, scale=scale, drop_nan=drop_nan, drop_zero=drop_zero)
    compare(env, df, want, "scaled" if scale else "values")
    if not melt:
        env.same("index", (df.index.name, [int(i) for i in df.index]), ("Step", list(range(n + 1))))
    env.same("columns asked for", cols, list(columns))
    for t in range(n + 1):
        for c, _, _ in cells(shape):
            env.eq("solution is left alone", m.solution.pressures[t, c], P[t, c])
            env.eq("solution is left alone", m.solution.rates[t, c], Q[t, c])
    again = m.get_df(columns=cols, boundary=boundary_, units=units, melt=melt, scale=scale, drop_nan=drop_nan, drop_zero=drop_zero)
    compare(env, again, want, "again" + (" scaled" if scale else ""))


def saved(env, shape, comp, wells, bcs, n, columns, boundary_, units, melt, scale, drop_nan):
    """the saved table is the returned one"""
    m, dt = make(env, shape, comp, wells, bcs, False, n)
    kw = dict(columns=list(columns), boundary=boundary_, units=units, melt=melt, scale=scale, drop_nan=drop_nan, drop_zero=False)
    with env.files() as tables:
        m.get_df(**kw)
        env.same("nothing is saved unless asked for", len(tables), 0)
        for k in range(2):
            if k:  # another state, saved again
                m.solve(check_MB=False, isolver=None)
            plain = m.get_df(**kw)
            df = m.get_df(save=True, **kw)
            compare(env, df, [(str(c), list(plain.iloc[:, i])) for i, c in enumerate(plain.columns)], "saving changes nothing")
            env.same("one table is saved", len(tables), 1)
            names, vals = list(tables.values())[0]
            want = [(str(c), list(df.iloc[:, i])) for i, c in enumerate(df.columns)]
            if not melt:
                want = [(str(df.index.name), [int(i) for i in df.index])] + want
            env.check("saved columns", all(x in names for x, _ in want))
            env.same("order of saved columns", [x for x in names if x in [y for y, _ in want]], [x for x, _ in want])
            for x, v in want:
                got = vals[names.index(x)]
                env.same("saved rows", len(got), len(v))
                for a, b in zip(got, v):
                    if isinstance(b, str):
                        env.same("saved text", str(a), b)
                    elif undefined(b) or isinstance(a, str):
                        env.check("saved values", undefined(b) and not isinstance(a, str) and undefined(a))
                    else:
                        env.eq("saved values", a, b)


def replaced(env, shape, comp, wells, again, when, n, scale):
    """columns belong to the wells they are named after, whatever happened to
    the wells before"""
    m, dt = make(env, shape, comp, wells if when != "late" else wells[:1], ("pressure", "rate"), False, 1 if when == "later" else 0)
    if when == "late":
        m.solve(check_MB=False, isolver=None)
        for i, (kind, j) in enumerate(wells[1:]):
            add_well(env, m, interior(shape)[j], kind, f"l{i}")
    for j in again:
        c = interior(shape)[j]
        m.set_well(env.rf.wells.SingleCell(cell_id=c, q=env.real(f"n{c}", nice=(-5, 5)), r=well_r(env, m, c), s=env.f("1.5")))
    for _ in range(n):
        m.solve(check_MB=False, isolver=None)
    s = m.solution
    T = int(s.tstep) + 1
    df = m.get_df(columns=["wells_pressure", "time", "wells_rate"], boundary=True, units=False, melt=False, scale=scale, drop_nan=False, drop_zero=False)
    f = lambda v: v
    if scale:
        lo, hi = ends(env, [s.pressures[t, c] for t in range(T) for c, _, _ in cells(shape)])
        f = lambda v: 2 * (v - lo) / (hi - lo) - env.f("1")
    env.same("columns", sorted(str(c) for c in df.columns), sorted(["Time"] + [f"{k}{c}" for c in m.wells for k in ("Pwf", "Qw")]))
    for c in m.wells:
        env.same("length of history", len(m.w_pressures[c]), T)
        p, q = list(df[f"Pwf{c}"]), list(df[f"Qw{c}"])
        for t in range(T):
            env.eq("rate of the named well", q[t], s.rates[t, c], scale=100.0)
            env.eq("pressure of the named well", p[t], f(m.w_pressures[c][t]), scale=100.0)


def domain(env, shape, comp, n, boundary_, dt):
    """time and space of a solution"""
    m, dt = make(env, shape, comp, (), ("pressure", "rate"), False, n, dt)
    t, x = m.get_domain(False, boundary_)
    env.eq("time", t, env.np.array([[k * dt] for k in range(n + 1)]))
    axes = [ax for ax, a in zip("xyz", strides(shape)[1]) if a]
    C = {ax: centers(env, m.grid, shape, ax) for ax in axes}
    ids = [c for c, _, b in cells(shape) if boundary_ or not b]
    env.eq("centres", x, env.np.array([[C[ax][c] for ax in axes] for c in ids]))
    if n == 0:
        return
    t, x = m.get_domain(True, boundary_)
    env.eq("scaled time", t, env.np.array([[env.f("1") * k / n] for k in range(n + 1)]), scale=1.0)
    for i, ax in enumerate(axes):
        v = list(C[ax].values())
        lo, hi = (env.np.min(env.arr(v)), env.np.max(env.arr(v)))
        env.eq("scaled centres", [x[j, i] for j in range(len(ids))], [2 * (C[ax][c] - lo) / (hi - lo) - 1 for c in ids], scale=1.0)
    m.solve(check_MB=False, isolver=None)
    env.eq("time goes on", m.get_time(), env.np.array([[k * dt] for k in range(n + 2)]))


def long(env, shape, steps, melt, scale, boundary_):
    """exporting a history of many steps; the last ones are free"""
    m, dt = make(env, shape, True, (), ("pressure", "rate"), False, 0, "2")
    s = m.solution
    num = len(cells(shape))
    P = env.np.full((steps + 1, num), env.f("1"))
    P[:, :] = s.pressures[0, :]
    Q = env.np.zeros((steps + 1, num))
    for t in (1, steps // 2, steps - 1, steps):
        for c in range(num):
            P[t, c] = env.real(f"p{t}_{c}", nice=(500, 3000))
            Q[t, c] = env.real(f"q{t}_{c}", nice=(-5, 5))
    s.pressures, s.rates, s.nsteps, s.tstep = P, Q, steps + 1, steps
    columns = ["time", "cells"]
    want = expected(env, m, shape, dt, steps, columns, boundary_, False, melt, scale)
    df = m.get_df(columns=columns, boundary=boundary_, units=False, melt=melt, scale=scale, drop_nan=False, drop_zero=False)
    compare(env, df, want, "long")
    if not melt:
        env.same("index", (df.index.name, [int(i) for i in df.index]), ("Step", list(range(steps + 1))))


DAYS = ["0.25", "0.5", "1", "1.5", "7", "29", "30", "31", "60", "90", "365", "366", "1000"]


def dates(env, n, melt):
    """dates follow the steps for every step size"""
    dt = env.choice("days", DAYS)
    m, d = make(env, (2, 1, 1), True, (), ("pressure",), False, n, dt)
    df = m.get_df(columns=["date", "time"], melt=melt, boundary=False, units=False, scale=False, drop_nan=False, drop_zero=False)
    want = [(datetime(2020, 2, 27) + timedelta(days=float(dt) * t)).strftime("%d.%m.%Y") for t in range(n + 1)]
    k = 2 if melt else 1
    env.same("dates", [str(x) for x in df["Date"]], [w for w in want for _ in range(k)])
    env.eq("time", list(df["Time"]), [d * t for t in range(n + 1) for _ in range(k)])


def refused(env):
    m, dt = make(env, (2, 1, 1), True, (), ("pressure",), False, 1)
    env.check("unknown columns are refused", env.raises(lambda: m.get_df(columns=["time", "depth"]), ValueError))


def obligations(tier):
    out = []
    T = tier == "thorough"
    add = lambda f, b=200, **k: out.append(Obligation(f, k, max_paths=700, budget_s=b))
    S = [(2, 1, 1), (3, 1, 1), (1, 3, 1), (2, 2, 1), (2, 1, 2)] + ([(2, 2, 2)] if T else [])
    COL = [["time", "cells", "wells"], ["t", "q", "p"], ["date", "cells_pressure", "wells_rate"], ["Date", "Rates", "Pressures"], ["wells_pressure", "cells_rate", "time"], ["cells"], ["wells", "d"]]
    K = [("pressure", "rate"), ("rate", "pressure", None), ("gradient", "pressure"), (None, "rate")]
    W = [(), (("q", 0),), (("qp", 0),), (("p", 1), ("q", 0)), (("idle", 1), ("q", 0))]
    i = 0
    for sh in S:
        flat = sh[0] > 1 and sh[2] == 1
        big = len(interior(sh)) > 3
        for cols in COL:
            for melt in (False, True):
                if melt and all("wells" in c for c in cols[:1]) and len(cols) < 3:
                    continue
                for scale in (False, True):
                    i += 1
                    if big and scale and not T and i % 3:
                        continue
                    add(export, shape=sh, comp=bool(i % 2), wells=W[i % 5] if flat else (), bcs=K[i % 4], z=False,
                        n=(1 if scale and (big or i % 2) else 2) if scale else (0, 1, 2, 3)[i % 4], columns=cols, boundary_=bool(i % 3), units=bool(i // 2 % 2), melt=melt, scale=scale,
                        drop_nan=bool(i % 5), drop_zero=bool(i % 4 == 1) and not scale and sh[2] == 1, rate=bool(i % 7 == 0))
    for k, (w, b) in enumerate([((), ("rate", "pressure")), ((("q", 0),), (None, "pressure")), ((("idle", 0),), ("gradient", None)), ((("p", 0),), (None, None))]):
        for n in (0, 1, 2):
            add(export, shape=(2, 1, 1), comp=k > 0, wells=w, bcs=b, z=False, n=n, columns=["time", "cells", "wells"], boundary_=True, units=False, melt=False, scale=False, drop_nan=True, drop_zero=True)
        add(export, shape=(2, 1, 1), comp=False if k < 2 else True, wells=w, bcs=b, z=False, n=2, columns=["time", "cells", "wells"], boundary_=True, units=True, melt=bool(k % 2), scale=False, drop_nan=True, drop_zero=False, dt="sym" if k < 2 else "3")
        if k < 2:
            add(export, shape=(3, 1, 1), comp=True, wells=w, bcs=("pressure", None), z=False, n=2, columns=["time", "cells"], boundary_=True, units=False, melt=bool(k % 2), scale=bool(k), drop_nan=False, drop_zero=False, change=True)
    for sh in S:
        for n in (0, 1, 2, 3):
            i += 1
            add(domain, shape=sh, comp=False, n=n, boundary_=bool(i % 2), dt="sym")
    for n in (1, 2, 3):
        for melt in (False, True):
            add(dates, n=n, melt=melt)
    for steps in (150,) + ((1100,) if T else ()):
        for melt in (False, True):
            for b in (False, True):
                add(long, shape=(2, 1, 1), steps=steps, melt=melt, scale=False, boundary_=b)
    add(refused)
    for j, (w, a) in enumerate([((("q", 0), ("q", 1)), (0,)), ((("q", 1), ("q", 0)), (1,)), ((("q", 1), ("p", 0)), (0,)), ((("q", 0), ("idle", 1)), (1, 0))]):
        for when in ("before", "later", "late"):
            add(replaced, shape=(2, 1, 1) if j % 2 else (2, 2, 1), comp=bool(j % 3), wells=w, again=a, when=when, n=1, scale=j == 1)
    for j, cols in enumerate([["time", "cells", "wells"], ["date", "p", "t"], ["q", "time"], ["wells", "cells_pressure", "d"], ["time", "cells"], ["cells", "t"]]):
        for melt in (False, True):
            if melt and j == 3:
                continue
            add(saved, shape=[(2, 1, 1), (1, 2, 1), (2, 2, 1)][j % 3], comp=bool(j % 2), wells=W[2] if j in (0, 3) else (), bcs=K[j % 4], n=1 + j % 2, columns=cols, boundary_=bool((j + melt) % 2), units=bool(j // 2 % 2), melt=melt, scale=j == 4, drop_nan=bool((j + 1) % 3))
    # cell ids of three digits
    for sh in [(101, 1, 1), (9, 9, 1), (1, 1, 101), (5, 4, 5)]:
        for b in (True, False):
            add(domain, shape=sh, comp=False, n=0, boundary_=b, dt="sym")
    return out
