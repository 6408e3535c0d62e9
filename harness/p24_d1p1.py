"""Analytical solution of one-dimensional flow between two pressures."""
from itertools import permutations

from harness.common import *

META = dict(
    bounds="2 to 5 cells along x, y or z, 0 to 3 steps, 1 to 6 terms of the series with all coefficients symbolic (one permeability, porosity, cell length), the 1000 terms of run() with concrete coefficients; pressures symbolic; clipped and not, scaled and not",
    outside="heterogeneous reservoirs (the series does not apply); the truncation error of the series; constant data (initial and boundary pressures all equal); incompressible systems",
)


def make(env, shape, coef, unit="field", **kw):
    ax = [i for i in range(3) if shape[i] > 1][0]
    if coef == "sym":
        d = env.real("d", "+", nice=(5, 50))
        lens = [d if i == ax else env.real(f"w{i}", "+", nice=(5, 50)) for i in range(3)]
        ks = {"k" + s: env.real("k" + s, "+", nice=(1, 100)) for s in "xyz"}
        phi, mu, B = env.real("phi", "+", nice=(0.05, 0.4)), env.real("mu", "+", nice=(0.3, 3)), env.real("B", "+", nice=(0.8, 1.5))
        cg, cf = env.real("cg", "+", nice=(0.001, 0.01)), env.real("cf", "0+", nice=(0.001, 0.01))
        dt = env.real("dt", "+", nice=(0.5, 5))
    else:
        lens = [env.f(x) for x in ("30", "40", "20")]
        ks = {"kx": env.f("12"), "ky": env.f("7"), "kz": env.f("3")}
        phi, mu, B, cg, cf, dt = (env.f(x) for x in ("0.25", "0.5", "1.25", "0.004", "0.001", "2"))
    if coef == "irregular":
        n = shape[ax] + 2
        lens[ax] = env.arr([env.real(f"d{i}", "+", nice=(5, 50)) for i in range(n)])
    g = env.rf.grids.RegularCartesian(nx=shape[0], ny=shape[1], nz=shape[2], dx=lens[0], dy=lens[1], dz=lens[2], phi=phi, comp=cg, unit=unit, **ks)
    f = env.rf.fluids.SinglePhase(mu=mu, B=B, comp=cf, unit=unit)
    order = list(permutations(range(3)))
    k = env.int("order", 0, 5)
    low = env.real("low", nice=(500, 3000))
    if coef == "conc":
        env.fold()
        g1 = env.real("gap1", lo=0, hi=1000, nice=(1, 900))
        g2 = env.f("1000") - g1
    else:
        g1, g2 = env.real("gap1", "0+", nice=(1, 900)), env.real("gap2", "0+", nice=(1, 900))
        env.assume(g1 + g2 > 0)
    vals = [low, low + g1, low + g1 + g2]
    pi, a, b = (vals[i] for i in order[k.realize() if env.sym else k])
    m = env.rf.models.BlackOil(g, f, pi=pi, dt=dt, unit=unit, dtype="double", **kw)
    bs = boundary(shape)
    m.set_boundaries({bs[0]: ("pressure", a), bs[1]: ("pressure", b)})
    m.compile("analytical", "D1P1")
    k = ks["k" + "xyz"[ax]]
    c = {"field": ("0.001127", "5.614583"), "metric": ("0.0864", "1"), "lab": ("1", "1")}[unit]
    alpha = env.f(c[0]) * env.f(c[1]) * k / (mu * phi * (cg + cf))
    return m, pi, a, b, alpha, dt, ax, low, low + g1 + g2


def centers(env, m, shape, ax):
    n = shape[ax] + 2
    stride = 1
    d = [m.grid.d["xyz"[ax]][c * stride] for c in range(n)]
    out, x = [], env.zero()
    for v in d:
        out.append(x + v / 2)
        x = x + v
    return out


def reference(env, m, shape, ax, pi, a, b, alpha, dt, nt, N):
    """series for constant pressures at the centres of the boundary cells"""
    x = centers(env, m, shape, ax)
    L = x[-1] - x[0]
    out = []
    for t in range(nt + 1):
        row = []
        for i in range(len(x)):
            if i in (0, len(x) - 1):
                row.append(a if i == 0 else b)
                continue
            xi = (x[i] - x[0]) / L
            p = a + (b - a) * xi
            for n in range(1, N + 1):
                # 2 * integral of (pi - a - (b - a) x) sin(n pi x) from 0 to 1
                sg = 1 if n % 2 == 0 else -1
                cn = 2 * ((pi - a) * (1 - sg) + (b - a) * sg) / (n * env.np.pi)
                e = env.np.exp(-(n**2) * env.np.pi**2 * alpha * t * dt / L**2)
                p = p + cn * env.np.sin(n * env.np.pi * xi) * e
            row.append(p)
        out.append(row)
    return out


def series(env, shape, coef, N, nt, clean, scale, unit="field"):
    m, pi, a, b, alpha, dt, ax, lo, hi = make(env, shape, coef, unit)
    s = m.solution
    if nt:
        s.nsteps, s.tstep = nt + 1, nt
    X, p = s.calc_solution(N=N, scale=scale, clean=clean)
    n = shape[ax] + 2
    env.same("one row per step, one column per cell", tuple(p.shape), (nt + 1, n))
    env.same("domain", tuple(X.shape), (nt + 1, n, 2))
    ref = reference(env, m, shape, ax, pi, a, b, alpha, dt, nt, N)
    x = centers(env, m, shape, ax)
    for t in range(nt + 1):
        for i in range(n):
            want = ref[t][i]
            if clean:
                want = env.np.minimum(env.np.maximum(want, lo), hi)
            if scale:
                want = 2 * (want - lo) / (hi - lo) - 1
                if nt:
                    env.eq("scaled time", X[t, i, 0], env.f("1") * t / nt, scale=1.0)
                env.eq("scaled place", X[t, i, 1], 2 * (x[i] - x[0]) / (x[-1] - x[0]) - 1, scale=1.0)
            else:
                env.eq("time", X[t, i, 0], t * dt, scale=1.0)
                env.eq("place", X[t, i, 1], x[i], scale=1.0)
            if coef == "conc":
                env.near("pressure", p[t, i], want, env.f("0.000001"))
            else:
                env.eq("pressure", p[t, i], want, scale=1000.0)
    env.observe("p", p)


def whole(env, shape, nt, again):
    """run() keeps the history of its steps, equal to calc_solution()"""
    m, pi, a, b, alpha, dt, ax, lo, hi = make(env, shape, "conc", verbose=False)
    s = m.solution
    m.run(nt)
    n = shape[ax] + 2
    P = env.np.array(s.pressures, copy=True)
    env.same("one row per step, one column per cell", tuple(P.shape), (nt + 1, n))
    env.same("steps", (s.nsteps, s.tstep), (nt + 1, nt))
    X, p = s.calc_solution()
    env.near("calculated again", p, P, env.f("0.000001"))
    N = 12  # the rest vanishes after the first step
    ref = reference(env, m, shape, ax, pi, a, b, alpha, dt, nt, N)
    for t in range(nt + 1):
        env.eq("ends", [P[t, 0], P[t, n - 1]], [a, b], scale=1000.0)
        for i in range(n):
            if t:
                env.near("series", P[t, i], ref[t][i], env.f("0.001"))
            env.le("within the data", lo, P[t, i] + env.f("0.000001"), scale=1000.0)
            env.le("within the data", P[t, i], hi + env.f("0.000001"), scale=1000.0)
    if again:
        m.run(nt)
        env.near("run again", s.pressures, P, env.f("0.000001"))
        m.run(nt + 1)  # longer, and back
        env.same("longer run", (tuple(s.pressures.shape), s.nsteps, s.tstep), ((nt + 2, n), nt + 2, nt + 1))
        env.near("longer run: first steps", s.pressures[: nt + 1], P, env.f("0.000001"))
        m.run(nt)
        env.same("shorter run", (tuple(s.pressures.shape), s.nsteps, s.tstep), ((nt + 1, n), nt + 1, nt))
        env.near("shorter run", s.pressures, P, env.f("0.000001"))
    env.eq("time", m.get_time(), env.np.array([[k * dt] for k in range(nt + 1)]))
    env.check("single steps are not available", env.raises(lambda: m.solve(), NotImplementedError))
    env.observe("p", P)


def obligations(tier):
    out = []
    T = tier == "thorough"
    add = lambda f, b=200, **k: out.append(Obligation(f, k, max_paths=700, budget_s=b))
    S = [(2, 1, 1), (3, 1, 1), (1, 2, 1), (1, 1, 3)]
    for i, sh in enumerate(S):
        for N in (1, 2, 3):
            add(series, shape=sh, coef="sym", N=N, nt=(N + i) % 3, clean=False, scale=bool((N + i) % 2))
        for N in (1, 2) if not T else (1, 2, 4):
            add(series, shape=sh, coef="conc", N=N, nt=1 + (i + N) % 2, clean=True, scale=bool((N + i) % 2))
    for i, (sh, u) in enumerate([((2, 1, 1), "metric"), ((1, 2, 1), "lab"), ((1, 1, 2), "metric"), ((3, 1, 1), "lab")]):
        add(series, shape=sh, coef="sym", N=2, nt=1, clean=False, scale=False, unit=u)
        add(series, shape=sh, coef="irregular", N=1 + i % 2, nt=1, clean=False, scale=bool(i % 2))
    for sh, nt in (((2, 1, 1), 1), ((1, 2, 1), 2), ((1, 1, 2), 1)) + ((((4, 1, 1), 2), ((1, 3, 1), 3)) if T else ()):
        add(whole, shape=sh, nt=nt, again=nt == 1)
    return out
