"""Superposition, reference levels, mirrored, turned, scaled and extruded
reservoirs."""
from itertools import permutations

from harness.common import *

META = dict(
    bounds="2x1x1, 3x1x1, 4x1x1, 1x3x1, 1x1x3, 2x2x1, 3x2x1, 2x1x2, 2x2x2 (thorough also 3x3x1, 5x1x1) interior cells; 1 to 3 steps; heterogeneous concrete coefficients with symbolic pressures, depths, conditions and targets; for assembled equations all coefficients symbolic; mirrored equations also on 101x1x1, 9x9x1 (cell ids of three digits)",
    outside="wells in reservoirs turned into directions without a defined well index (y, z, xz, yz); larger grids; truncation error of the scheme",
)


def data(env, shape, comp, wells, bcs, tag="", z=True, sym=False, hetero=True, rho="50"):
    """everything that defines a run, keyed by coordinates"""
    pad, act = strides(shape)
    C = [ijk for _, ijk, _ in cells(shape)]
    D = dict(shape=shape, comp=comp, mu=env.f("0.5"), B=env.f("1.25"), rho=env.f(rho), dt=env.f("2"), phi=env.f("0.2"))
    base = {"x": 15, "y": 20, "z": 10}
    D["d"] = {}
    for ax, n, a in zip("xyz", pad, act):
        if sym:
            D["d"][ax] = [env.real(f"d{ax}{i}", "+", nice=(5, 50)) for i in range(n)] if a else [env.real(f"d{ax}", "+", nice=(5, 50))]
        else:
            D["d"][ax] = [env.f(str(base[ax] * (1 + (i * 2) % 3 if (a and hetero) else 1))) for i in range(n if a else 1)]
    D["k"] = {}
    for s, b in (("x", 10), ("y", 10), ("z", 4)):
        D["k"][s] = {ijk: (env.real(f"k{s}{c}", "+", nice=(1, 100)) if sym else env.f(str(b + ((c * 7) % 11 if hetero else 0)))) for c, ijk, _ in cells(shape)}
    if not sym:  # isotropic in the plane: rational well indices
        D["k"]["y"] = dict(D["k"]["x"])
    D["z"] = {ijk: env.real(f"z{c}", nice=(-20, 20)) for c, ijk, _ in cells(shape)} if z else None
    inn = {c: ijk for c, ijk, b in cells(shape) if not b}
    D["p"] = {ijk: env.real(f"o{tag}{c}", nice=(500, 3000)) for c, ijk in inn.items()}
    D["b"] = {}
    for i, b in enumerate(flow_cells(shape)):
        kind = bcs[i % len(bcs)]
        if kind:
            ijk = dict((c, x) for c, x, _ in cells(shape))[b]
            D["b"][ijk] = (kind, env.real(f"v{tag}{b}", nice=(500, 3000) if kind == "pressure" else (-2, 2)))
    D["w"] = {}
    for kind, j in wells:
        c = interior(shape)[j]
        a = {}
        if kind in ("q", "qp"):
            a["q"] = env.real(f"q{tag}{c}", nice=(-5, 5))
        if kind in ("p", "qp"):
            a["pwf"] = env.real(f"pwf{tag}{c}", nice=(100, 400))
        D["w"][inn[c]] = a
    return D


def model(env, D, sparse=False):
    shape = D["shape"]
    order = [ijk for _, ijk, _ in cells(shape)]
    ids = {ijk: c for c, ijk, _ in cells(shape)}
    arr = lambda m: env.arr([m[x] for x in order])
    d = {ax: (env.arr(v) if len(v) > 1 else v[0]) for ax, v in D["d"].items()}
    g = env.rf.grids.RegularCartesian(
        nx=shape[0], ny=shape[1], nz=shape[2], dx=d["x"], dy=d["y"], dz=d["z"], kx=arr(D["k"]["x"]), ky=arr(D["k"]["y"]), kz=arr(D["k"]["z"]),
        phi=D["phi"], comp=D.get("cg", env.f("0.00001" if D["comp"] else "0")), **({} if D["z"] is None else dict(z=arr(D["z"]))))
    f = env.rf.fluids.SinglePhase(mu=D["mu"], B=D["B"], rho=D["rho"], comp=D.get("cf", env.f("0.00002" if D["comp"] else "0")))
    m = env.rf.models.BlackOil(g, f, pi=env.f("2000"), dt=D["dt"], dtype="double")
    for ijk, a in D["w"].items():
        m.set_well(cell_id=ids[ijk], r=well_r(env, m, ids[ijk]), s=env.f("1.5"), **a)
    for ijk, (kind, v) in D["b"].items():
        m.set_boundary(ids[ijk], kind, v)
    compiled(env, m, sparse)
    for ijk, p in D["p"].items():
        m.solution.pressures[0, ids[ijk]] = p
    return m, ids


def play(env, D, n, vect, sparse=False):
    m, ids = model(env, D, sparse)
    for _ in range(n):
        m.solve(vectorize=vect, check_MB=False, isolver=None)
    s = m.solution
    return dict(
        p=[{x: s.pressures[t, ids[x]] for x in D["p"]} for t in range(1, n + 1)],
        q=[{x: s.rates[t, ids[x]] for x in ids} for t in range(1, n + 1)],
        w={x: list(m.w_pressures[ids[x]])[1:] for x in D["w"]},
        c={x: m.wells[ids[x]]["constrain"] for x in D["w"]})


def compare(env, a, b, n, move=lambda x: x, dp=0, fq=None, what="", rates=True):
    for t in range(n):
        for x in a["p"][t]:
            env.eq(f"{what}: pressure", a["p"][t][x] + dp, b["p"][t][move(x)], scale=1000.0)
        if rates:
            for x in a["q"][t]:
                q = a["q"][t][x]
                env.eq(f"{what}: rate", q if fq is None else q * fq, b["q"][t][move(x)], scale=100.0)
    for x in a["w"]:
        for t in range(n):
            env.eq(f"{what}: bottom-hole pressure", a["w"][x][t] + dp, b["w"][move(x)][t], scale=1000.0)
        env.same(f"{what}: control", a["c"][x], b["c"][move(x)])


def superposition(env, shape, comp, wells, bcs, z, vect, n, rho="50"):
    """the result of a mixture is the mixture of the results"""
    a = data(env, shape, comp, wells, bcs, "A", z, rho=rho)
    b = data(env, shape, comp, wells, bcs, "B", z, rho=rho)
    s = env.real("mix", nice=(0.1, 0.9))
    mix = lambda x, y: s * x + (1 - s) * y
    c = dict(a)
    c["p"] = {x: mix(a["p"][x], b["p"][x]) for x in a["p"]}
    c["b"] = {x: (k, mix(v, b["b"][x][1])) for x, (k, v) in a["b"].items()}
    c["w"] = {x: {k: mix(v, b["w"][x][k]) for k, v in w.items()} for x, w in a["w"].items()}
    A, B, M = (play(env, D, n, vect) for D in (a, b, c))
    for R in (A, B, M):  # limits are not linear
        for x, w in a["w"].items():
            if R["c"][x] != ("q" if "q" in w else "pwf"):
                return
    for t in range(n):
        for x in A["p"][t]:
            env.eq("pressure", M["p"][t][x], mix(A["p"][t][x], B["p"][t][x]), scale=1000.0)
        for x in A["q"][t]:
            env.eq("rate", M["q"][t][x], mix(A["q"][t][x], B["q"][t][x]), scale=100.0)
    for x in A["w"]:
        for t in range(n):
            env.eq("bottom-hole pressure", M["w"][x][t], mix(A["w"][x][t], B["w"][x][t]), scale=1000.0)


def levels(env, shape, comp, wells, bcs, z, vect, n, sparse, rho="50"):
    """adding to all pressures, or to all depths, moves nothing"""
    a = data(env, shape, comp, wells, bcs, "", z, rho=rho)
    s = env.real("shift", nice=(-300, 900))
    h = env.real("level", nice=(-50, 50)) if z else env.zero()
    b = dict(a)
    b["p"] = {x: v + s for x, v in a["p"].items()}
    b["b"] = {x: (k, v + s if k == "pressure" else v) for x, (k, v) in a["b"].items()}
    b["w"] = {x: {k: (v + s if k == "pwf" else v) for k, v in w.items()} for x, w in a["w"].items()}
    if z:
        b["z"] = {x: v + h for x, v in a["z"].items()}
    A, B = play(env, a, n, vect, sparse), play(env, b, n, vect, sparse)
    compare(env, A, B, n, dp=s, what="levels")


def turned(D, perm, flip):
    """axis perm[i] of the old reservoir becomes axis i; flip lists new axes to
    be mirrored; -> (data, map of coordinates)"""
    shape = tuple(D["shape"][p] for p in perm)
    pad, _ = strides(shape)

    def move(x):
        y = [x[p] for p in perm]
        return tuple(pad[i] - 1 - v if i in flip and pad[i] > 1 else v for i, v in enumerate(y))

    E = dict(D, shape=shape)
    names = "xyz"
    E["d"] = {names[i]: (D["d"][names[p]][::-1] if i in flip else list(D["d"][names[p]])) for i, p in enumerate(perm)}
    E["k"] = {names[i]: {move(x): v for x, v in D["k"][names[p]].items()} for i, p in enumerate(perm)}
    for key in ("p", "b", "w", "z"):
        if D[key] is not None:
            E[key] = {move(x): v for x, v in D[key].items()}
    return E, move


def turn(env, shape, comp, wells, bcs, z, vect, n, perm, flip, sparse, rho="50"):
    """turning or mirroring the reservoir turns or mirrors the results"""
    a = data(env, shape, comp, wells, bcs, "", z, rho=rho)
    b, move = turned(a, perm, flip)
    compare(env, play(env, a, n, vect, sparse), play(env, b, n, vect, sparse), n, move=move, what="turned")


def equations(env, shape, comp, bcs, perm, flip, vect):
    """the same for assembled equations and any coefficients"""
    a = data(env, shape, comp, (), bcs, "", True, sym=True)
    for D in (a,):
        D["mu"], D["B"], D["rho"] = env.real("mu", "+", nice=(0.3, 3)), env.real("B", "+", nice=(0.8, 1.5)), env.real("rho", "+", nice=(30, 70))
    b, move = turned(a, perm, flip)
    out = []
    for D in (a, b):
        m, ids = model(env, D)
        A, d = (m.solution.get_matrices_vect(False) if vect else m.solution.get_matrices_symb(False))
        pos = {x: i for i, x in enumerate(x for _, x, bd in cells(D["shape"]) if not bd)}
        out.append((dense(env, A), dense(env, d).reshape(-1), pos))
    (A, d, pa), (Bm, e, pb) = out
    for x, i in pa.items():
        env.eq("right-hand side", d[i], e[pb[move(x)]], scale=100.0)
        for y, j in pa.items():
            env.eq("matrix", A[i, j], Bm[pb[move(x)], pb[move(y)]], scale=1.0)


def indices(env, shape, flip):
    """the well index of every cell follows when x and y are exchanged, for any
    permeabilities and lengths"""
    a = data(env, shape, True, (), ("rate",), "", False, sym=True)
    b, move = turned(a, (1, 0, 2), flip)
    ma, ia = model(env, a)
    mb, ib = model(env, b)
    inn = [ijk for _, ijk, bd in cells(shape) if not bd]
    i = env.int("cell", 0, len(inn) - 1)
    x = inn[i.realize() if env.sym else i]
    s = env.real("skin", nice=(3, 9))
    r = env.real("r", "+", nice=(0.1, 3))
    dx, dy = a["d"]["x"][x[0]], a["d"]["y"][x[1]]
    req, kh = well_req(env, ma, ia[x])
    env.assume(env.np.log(req / r * 12) + s > env.f("0.01"))
    for m, c in ((ma, ia[x]), (mb, ib[move(x)])):
        m.set_well(cell_id=c, q=env.f("-1"), s=s, r=r)
    wa, wb = ma.wells[ia[x]], mb.wells[ib[move(x)]]
    env.eq("equivalent radius", wa["r_eq"], wb["r_eq"])
    env.eq("well index", wa["G"], wb["G"])


def scaled(env, shape, comp, wells, bcs, z, vect, n, how):
    """changes of coefficients that cancel"""
    a = data(env, shape, comp, wells, bcs, "", z)
    b = dict(a)
    s = env.f("3")
    fq = None
    if how == "mobility":  # k and viscosity
        b["mu"] = a["mu"] * s
        b["k"] = {ax: {x: v * s for x, v in m.items()} for ax, m in a["k"].items()}
    elif how == "storage":  # porosity and compressibility
        b["phi"] = a["phi"] * env.f("0.5")
        b["cg"], b["cf"] = env.f("0.00002") if comp else env.f("0"), env.f("0.00004") if comp else env.f("0")
    elif how == "time":  # time step and compressibility
        b["dt"] = a["dt"] * s
        b["cg"], b["cf"] = env.f("0.00003") if comp else env.f("0"), env.f("0.00006") if comp else env.f("0")
    elif how == "split":  # compressibility of rock or fluid
        b["cg"], b["cf"] = (env.f("0.00003") if comp else env.f("0")), env.f("0")
    elif how == "rate":  # all permeabilities and compressibility: rates follow
        b["k"] = {ax: {x: v * s for x, v in m.items()} for ax, m in a["k"].items()}
        b["cg"], b["cf"] = env.f("0.00003") if comp else env.f("0"), env.f("0.00006") if comp else env.f("0")
        b["b"] = {x: (k, v * s if k == "rate" else v) for x, (k, v) in a["b"].items()}
        b["w"] = {x: {k: (v * s if k == "q" else v) for k, v in w.items()} for x, w in a["w"].items()}
        fq = s
    elif how == "volume factor":  # rates at surface
        b["B"] = a["B"] * s
        b["b"] = {x: (k, v / s if k == "rate" else v) for x, (k, v) in a["b"].items()}
        b["w"] = {x: {k: (v / s if k == "q" else v) for k, v in w.items()} for x, w in a["w"].items()}
        fq = 1 / s
    compare(env, play(env, a, n, vect), play(env, b, n, vect), n, fq=fq, what=how)


def extruded(env, shape, axis, comp, bcs, z, vect, n):
    """equal rows side by side behave like one of them"""
    a = data(env, shape, comp, (), bcs, "", z)
    big = list(shape)
    big[axis] = 2
    big = tuple(big)
    b = dict(a, shape=big)
    low = lambda x: tuple(0 if i == axis else v for i, v in enumerate(x))
    new = [ijk for _, ijk, _ in cells(big)]
    ax = "xyz"[axis]
    b["d"] = dict(a["d"])
    b["d"][ax] = [a["d"][ax][0]] * 4
    b["k"] = {s: {x: m[low(x)] for x in new} for s, m in a["k"].items()}
    if z:
        b["z"] = {x: a["z"][low(x)] for x in new}
    inside = [x for x in new if x[axis] in (1, 2)]
    b["p"] = {x: a["p"][low(x)] for x in inside if low(x) in a["p"]}
    b["b"] = {x: a["b"][low(x)] for x in inside if low(x) in a["b"]}
    A, B = play(env, a, n, vect), play(env, b, n, vect)
    for t in range(n):
        for x in B["p"][t]:
            env.eq("pressure", B["p"][t][x], A["p"][t][low(x)], scale=1000.0)
        for x in inside:
            env.eq("rate", B["q"][t][x], A["q"][t][low(x)], scale=100.0)
        for x in new:
            if x not in inside:
                env.eq("closed sides", B["q"][t][x], 0, scale=100.0)


def obligations(tier):
    out = []
    T = tier == "thorough"
    add = lambda f, b=200, **k: out.append(Obligation(f, k, max_paths=400, budget_s=b))
    S = [(2, 1, 1), (3, 1, 1), (1, 3, 1), (2, 2, 1), (3, 2, 1), (2, 1, 2)] + ([(3, 3, 1), (5, 1, 1), (2, 2, 2)] if T else [])
    K = [("pressure", "rate"), ("rate", "pressure", None), ("gradient", "pressure"), ("pressure", "gradient", "rate")]
    W = [(), (("q", 0),), (("p", 1),), (("p", 1), ("q", 0))]
    WL = [(), (("qp", 0),), (("qp", 1),), (("p", 1), ("qp", 0))]
    i = 0
    for sh in S:
        flat = sh[0] > 1 and sh[2] == 1
        small = len(interior(sh)) < 4
        for comp in (True, False):
            for n in (1, 2) if small or T else (1,):
                i += 1
                add(superposition, shape=sh, comp=comp, wells=W[i % 4] if flat else (), bcs=K[i % 4], z=bool(i % 3), vect=bool(i % 2), n=n, rho="0" if i % 3 == 1 else "50")
                add(levels, shape=sh, comp=comp, wells=WL[(i // 2) % 4] if flat else (), bcs=K[(i + 1) % 4], z=bool(i % 3), vect=bool(i % 4 > 1), n=n, sparse=bool(i % 5 > 2), rho="0" if i % 4 == 2 else "50")
            hows = ["mobility", "time", "rate", "volume factor"] + (["storage", "split"] if comp else [])
            for how in hows if small or T else hows[i % 2 :: 2]:
                i += 1
                add(scaled, shape=sh, comp=comp, wells=W[i % 4] if flat else (), bcs=K[i % 4], z=bool(i % 3), vect=bool(i % 2), n=2 if small else 1, how=how)
    # mirrored along one or more axes, and turned
    for sh in [(2, 1, 1), (3, 1, 1), (4, 1, 1), (2, 2, 1), (3, 2, 1), (2, 1, 2), (2, 2, 2), (1, 2, 2)] + ([(3, 3, 1), (5, 1, 1)] if T else []):
        flat = sh[0] > 1 and sh[2] == 1
        acts = [j for j in range(3) if sh[j] > 1]
        small = len(interior(sh)) < 4
        jobs = [((0, 1, 2), tuple(acts))] + [((0, 1, 2), (j,)) for j in acts if len(acts) > 1]
        for p in permutations(range(3)):
            if p != (0, 1, 2):
                jobs.append((p, ()))
        jobs.append(((1, 0, 2), tuple(acts)[:1]))
        seen = set()
        for perm, flip in jobs:
            key = (tuple(sh[p] for p in perm), tuple(p for p in perm if sh[p] > 1), flip)
            if key in seen:
                continue
            seen.add(key)
            i += 1
            new = key[0]
            w = W[i % 4] if flat and ((new[0] > 1 and new[2] == 1)) else ()
            if perm != (0, 1, 2) and sh[1] == 1:
                w = ()
            add(turn, shape=sh, comp=bool(i % 3), wells=w, bcs=K[i % 4], z=bool(i % 4), vect=bool(i % 2), n=2 if small else 1, perm=perm, flip=flip, sparse=bool(i % 5 > 2), rho="0" if i % 4 == 3 else "50")
            if len(interior(sh)) <= (4 if not T else 8):
                add(equations, shape=sh, comp=bool(i % 2), bcs=K[(i + 1) % 4], perm=perm, flip=flip, vect=bool(i % 3))
    for sh in ((2, 2, 1), (3, 2, 1), (2, 2, 2)):
        for flip in ((), (0,), (0, 1, 2)):
            add(indices, shape=sh, flip=flip)
    for sh, axes in (((2, 1, 1), (1, 2)), ((3, 1, 1), (1, 2)), ((1, 2, 1), (0, 2)), ((1, 1, 2), (0, 1)), ((2, 2, 1), (2,)), ((2, 1, 2), (1,))):
        for ax in axes:
            for comp in (True, False):
                i += 1
                add(extruded, shape=sh, axis=ax, comp=comp, bcs=K[i % 4], z=bool(i % 3), vect=bool(i % 2), n=2 if len(interior(sh)) < 3 else 1)
    # cell ids of three digits
    for sh in [(101, 1, 1), (9, 9, 1)]:
        add(equations, shape=sh, comp=True, bcs=("pressure", "rate"), perm=(0, 1, 2), flip=(0,), vect=sh[0] == 9)
    return out
