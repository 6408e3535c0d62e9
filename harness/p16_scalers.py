"""Scalers map the data onto the output range and back."""
from harness.common import *

META = dict(
    bounds="vectors of up to 4 values, tables of up to 3x2 values (thorough 3x3), arrays of 2x1x2 values, all symbolic in every order, every axis; input and output ranges symbolic (given as tuples or lists, in increasing or decreasing order); fitted before, again or not at all; values outside of the fitted range",
    outside="constant data (the range is empty and the scale undefined); larger arrays (the scaler works element by element)",
)


def arr(env, name, shape):
    n = 1
    for s in shape:
        n *= s
    return env.arr([env.real(f"{name}{i}", nice=(-50, 50)) for i in range(n)]).reshape(shape)


def groups(shape, axis):
    """positions fitted together"""
    import itertools

    pos = list(itertools.product(*[range(s) for s in shape]))
    if axis is None or len(shape) == 1:
        return [pos]
    out = {}
    for p in pos:
        out.setdefault(p[:axis] + p[axis + 1:], []).append(p)
    return list(out.values())


def rng(env, kind):
    a = env.real("Vmin", nice=(-3, 0))
    b = env.real("Vmax", nice=(1, 5))
    env.assume(a < b)
    return {"tuple": (a, b), "list": [a, b], "down": (b, a)}[kind], a, b


def spread(env, name, shape, gs):
    """any values which are not constant within a group: an order chosen by the
    solver and the gaps between consecutive values.

    Returns (array, [(smallest, largest)] of the groups)"""
    import itertools

    val, ends = {}, []
    for k, g in enumerate(gs):
        perms = list(itertools.permutations(range(len(g))))
        i = env.int(f"{name}order{k}", 0, len(perms) - 1)
        x = lo = env.real(f"{name}low{k}", nice=(-50, 50))
        total = env.zero()
        for j, q in enumerate(perms[i.realize() if env.sym else i]):
            if j:
                d = env.real(f"{name}gap{k}_{j}", "0+", nice=(1, 30))
                x, total = x + d, total + d
            val[g[q]] = x
        env.assume(total > 0)
        ends.append((lo, x))
    pos = sorted(val)
    return env.arr([val[p] for p in pos]).reshape(shape), ends


def scaled(env, shape, axis, kind):
    gs = groups(shape, axis)
    v, ends = spread(env, "v", shape, gs)
    keep = env.np.array(v, copy=True)
    (V0, V1), a, b = (lambda r: (r[0], r[1], r[2]))(rng(env, kind))
    s = env.rf.scalers.MinMax(output_range=(V0, V1) if kind != "list" else [V0, V1])
    env.check("fit returns the scaler", s.fit(v, axis=axis) is s)
    w = s.transform(v)
    env.same("shape", tuple(w.shape), tuple(shape))
    env.eq("data is left alone", v, keep)
    for g, (lo, hi) in zip(gs, ends):
        for p in g:
            env.eq("linear", (w[p] - V0) * (hi - lo), (V1 - V0) * (v[p] - lo), scale=100.0)
            env.le("within the range", a, w[p], scale=1.0)
            env.le("within the range", w[p], b, scale=1.0)
    env.eq("back", s.inverse_transform(w), v, scale=100.0)
    env.eq("data is left alone", v, keep)
    env.eq("again", s.transform(v), w)
    f = env.rf.scalers.MinMax(output_range=(V0, V1))
    env.eq("fit and transform", f.fit_transform(v, axis=axis), w)
    # other values with the same fit
    u = arr(env, "u", shape)
    y = s.transform(u)
    env.eq("other values and back", s.inverse_transform(y), u, scale=100.0)
    env.eq("back and forth", s.transform(s.inverse_transform(u)), u, scale=100.0)
    for g, (lo, hi) in zip(gs, ends):
        for p in g:
            env.eq("other values are extrapolated", (y[p] - V0) * (hi - lo), (V1 - V0) * (u[p] - lo), scale=100.0)
    # a second fit replaces the first
    z = env.np.array(keep, copy=True)
    for k, g in enumerate(gs):  # another column with known ends
        lo = env.real(f"zlow{k}", nice=(-50, 0))
        for j, p in enumerate(g):
            z[p] = lo + j * env.real(f"zgap{k}", "+", nice=(1, 50))
    h = env.rf.scalers.MinMax(output_range=(V0, V1))
    h.fit(v, axis=axis)
    y = h.fit_transform(z, axis=axis)  # fitted before
    f.fit(z, axis=axis)
    env.eq("fit and transform again", y, f.transform(z))
    env.eq("fit and transform again", h.transform(v), f.transform(v))
    for g in gs:
        lo, hi = z[g[0]], z[g[-1]]
        for p in g:
            env.eq("fitted again", (f.transform(v)[p] - V0) * (hi - lo), (V1 - V0) * (v[p] - lo), scale=100.0)


def ranges(env, shape, kind):
    """input range given instead of fitted"""
    v = arr(env, "v", shape)
    (V0, V1), a, b = (lambda r: (r[0], r[1], r[2]))(rng(env, kind))
    lo, hi = env.real("lo", nice=(-50, -10)), env.real("hi", nice=(10, 50))
    env.assume(lo < hi)
    s = env.rf.scalers.MinMax(output_range=(V0, V1), input_range=(lo, hi))
    w = s.transform(v)
    env.eq("given range", (w - V0) * (hi - lo), (V1 - V0) * (v - lo), scale=100.0)
    env.eq("back", s.inverse_transform(w), v, scale=100.0)
    for x, want in ((lo, V0), (hi, V1)):
        env.eq("ends", s.transform(env.arr([x]))[0], want, scale=1.0)
    U0, U1 = env.real("U0", nice=(-9, -4)), env.real("U1", nice=(6, 9))
    env.assume(U0 < U1)
    env.check("range returns the scaler", s.set_output_range((U0, U1)) is s)
    y = s.transform(v)
    env.eq("changed output range", (y - U0) * (hi - lo), (U1 - U0) * (v - lo), scale=100.0)
    env.eq("back", s.inverse_transform(y), v, scale=100.0)
    s.set_output_range([U1, U0])
    y = s.transform(v)
    env.eq("reversed output range", (y - U1) * (hi - lo), (U0 - U1) * (v - lo), scale=100.0)
    env.eq("back", s.inverse_transform(y), v, scale=100.0)
    # another scaler is independent
    o = env.rf.scalers.MinMax(output_range=(V0, V1), input_range=(lo, hi))
    env.eq("scalers are independent", o.transform(v), w)


def refused(env):
    a, b = env.real("a", nice=(-3, 0)), env.real("b", nice=(1, 5))
    s = env.rf.scalers.MinMax(output_range=(a, b))
    v = arr(env, "v", (3,))
    env.check("not fitted", env.raises(lambda: s.transform(v), ValueError))
    env.check("not fitted", env.raises(lambda: s.inverse_transform(v), ValueError))
    x = arr(env, "x", (2, 2, 2))
    env.check("arrays have no columns", env.raises(lambda: s.fit(x, axis=0), ValueError))
    env.check("a refused fit does not count", env.raises(lambda: s.transform(v), ValueError))


def dummy(env, shape):
    d = env.rf.scalers.Dummy(None)
    v = arr(env, "v", shape)
    keep = env.np.array(v, copy=True)
    env.eq("kept", d.fit(v).transform(v), keep)
    env.eq("kept", d.fit_transform(v), keep)
    env.eq("kept", d.inverse_transform(v), keep)
    env.check("range", d.set_output_range((0, 1)) is d)
    env.eq("kept", d.transform(v), keep)


def model(env, column, name, comp):
    """scalers of a model"""
    m, B, W = sim(env, (3, 1, 1), comp)
    env.same("defaults", {k: v[0] is None for k, v in m.scalers_dict.items()}, dict(time=False, space=False, pressure=False, rate=True))
    a, b = env.real("Vmin", nice=(-3, 0)), env.real("Vmax", nice=(1, 5))
    env.assume(a < b)
    attr = dict(time="time_scaler", space="space_scaler", pressure="pressures_scaler", rate="rates_scaler")
    before = {k: getattr(m, x) for k, x in attr.items()}
    m.set_scalers({name: ["MinMax", (a, b)]})
    if column == "all":
        v, ((lo, hi),) = spread(env, "v", (3,), groups((3,), None))
        for k, x in attr.items():
            w = getattr(m, x).fit_transform(v, axis=None)
            env.eq("all are scaled", (w - a) * (hi - lo), (b - a) * (v - lo), scale=1.0)
            env.eq("settings", list(m.scalers_dict[k][1]), [a, b])
        env.same("scalers are not shared", len({id(getattr(m, x)) for x in attr.values()}), 4)
        m.set_scalers({name: [None, None]})
        for k, x in attr.items():
            env.eq("all are turned off", getattr(m, x).fit_transform(v, axis=None), v)
            env.same("turned off", list(m.scalers_dict[k]), [None, None])
        return
    for k, x in attr.items():
        if k != column:
            env.check("others are kept", getattr(m, x) is before[k])
    s = getattr(m, attr[column])
    v, ((lo, hi),) = spread(env, "v", (3,), groups((3,), None))
    w = s.fit_transform(v, axis=None)
    env.eq("scaled", (w - a) * (hi - lo), (b - a) * (v - lo), scale=1.0)
    env.eq("settings", list(m.scalers_dict[column][1]), [a, b])
    m.set_scalers({name: [None, None]})
    env.eq("turned off", getattr(m, attr[column]).fit_transform(v, axis=None), v)
    env.same("turned off", list(m.scalers_dict[column]), [None, None])
    for off in (["MinMax", None], ("minmaxscaler", None), [None, (a, b)]):  # either left out
        m.set_scalers({name: ["MinMax", (a, b)]})
        m.set_scalers({name: off})
        env.eq("turned off", getattr(m, attr[column]).fit_transform(v, axis=None), v)
        env.check("turned off", m.scalers_dict[column][0] is None)
    m.set_scalers({name: ["minMAXscaler", (a, b)]})
    env.eq("turned on", getattr(m, attr[column]).fit_transform(v, axis=None), w)
    m.set_scalers({name: [None, None]})
    env.check("unknown columns are refused", env.raises(lambda: m.set_scalers({"depth": ["MinMax", (a, b)]}), ValueError))
    env.check("unknown scalers are refused", env.raises(lambda: m.set_scalers({name: ["Standard", (a, b)]}), ValueError))
    env.same("refused settings change nothing", list(m.scalers_dict[column]), [None, None])


def obligations(tier):
    out = []
    T = tier == "thorough"
    add = lambda f, b=200, **k: out.append(Obligation(f, k, max_paths=700, budget_s=b))
    S = [((2,), 0), ((3,), 0), ((3,), None), ((2, 2), 0), ((2, 2), 1), ((2, 2), None), ((3, 2), 0), ((3, 2), 1), ((2, 3), 0), ((2, 3), 1), ((2, 1, 2), None), ((3, 1), 0), ((1, 3), 1)]
    if T:
        S += [((4,), 0), ((3, 3), 0), ((3, 3), 1), ((4, 2), 0), ((2, 4), 1)]
    for i, (sh, ax) in enumerate(S):
        for k in ("tuple", "list", "down") if T or len(sh) == 1 else (("tuple", "list", "down")[i % 3],):
            add(scaled, shape=sh, axis=ax, kind=k)
    for sh in ((2,), (2, 2), (2, 2, 2)):
        for k in ("tuple", "down"):
            add(ranges, shape=sh, kind=k)
        add(dummy, shape=sh)
    add(refused)
    for i, (c, n) in enumerate([("time", "time"), ("time", "t"), ("space", "space"), ("space", "xyz"), ("pressure", "pressure"), ("pressure", "p"), ("rate", "rate"), ("rate", "Q"), ("rate", "rates"), ("pressure", "Pressures"), ("all", "all"), ("all", "All")]):
        add(model, column=c, name=n, comp=bool(i % 2))
    return out
