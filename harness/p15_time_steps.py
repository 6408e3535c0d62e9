"""Time steps append to the history; runs compose."""
from harness.common import *

META = dict(
    bounds="2x1x1, 3x1x1, 1x3x1, 2x2x1, 2x1x2 interior cells (thorough also 2x2x2); up to 4 steps (thorough 6) in every split into runs and single steps; wells of every kind, conditions of every kind, wells and conditions changed between steps; pressures, depths, values symbolic, coefficients concrete; two cells for up to 131 steps (thorough 300)",
    outside="larger grids and longer histories (each step only depends on the step before, which is checked for arbitrary states); wall-clock times",
)


def snap(env, m):
    s = m.solution
    return dict(
        pressures=env.np.array(s.pressures, copy=True), rates=env.np.array(s.rates, copy=True),
        w={c: list(v) for c, v in m.w_pressures.items()},
        control={c: m.wells[c]["constrain"] for c in m.wells}, tstep=s.tstep, nsteps=s.nsteps,
        As=env.np.array(s.As, copy=True), ds=env.np.array(s.ds, copy=True),
    )


def same_rows(env, shape, a, b, n, what):
    """the first n rows of two histories are equal"""
    inn = interior(shape)
    for t in range(n):
        env.eq(f"{what}: pressures", [a["pressures"][t, c] for c in inn], [b["pressures"][t, c] for c in inn], scale=1000.0)
        for x in boundary(shape):  # may be undefined
            env.eq(f"{what}: boundary pressures", a["pressures"][t, x], b["pressures"][t, x], scale=1000.0)
        env.eq(f"{what}: rates", a["rates"][t], b["rates"][t], scale=100.0)
        env.eq(f"{what}: matrices", a["As"][t], b["As"][t], scale=10.0)
        env.eq(f"{what}: right-hand sides", a["ds"][t], b["ds"][t], scale=1000.0)
    env.same(f"{what}: wells", sorted(a["w"]), sorted(b["w"]))
    for c in a["w"]:
        env.eq(f"{what}: bottom-hole pressures", a["w"][c][:n], b["w"][c][:n], scale=1000.0)


def sizes(env, shape, m, n, what):
    s = m.solution
    N, k = len(cells(shape)), len(interior(shape))
    env.same(f"{what}: step", (int(s.tstep), int(s.nsteps)), (n, n + 1))
    env.same(f"{what}: pressures", tuple(s.pressures.shape), (n + 1, N))
    env.same(f"{what}: rates", tuple(s.rates.shape), (n + 1, N))
    env.same(f"{what}: matrices", tuple(s.As.shape), (n + 1, k * k))
    env.same(f"{what}: right-hand sides", tuple(s.ds.shape), (n + 1, k))
    env.same(f"{what}: shape", (tuple(m.get_shape(True)), tuple(m.get_shape(False))), ((n + 1, N), (n + 1, k)))
    for c in m.w_pressures:
        env.same(f"{what}: bottom-hole pressures", len(m.w_pressures[c]), n + 1)


def make(env, shape, comp, wells, bcs, z, sparse):
    m, B, W = sim(env, shape, comp, z="sym" if z else None, wells=wells, bcs=bcs, sparse=sparse, verbose=False)
    return m


def advance(m, how, vect, mb, thr, isolver):
    if how == 0:
        m.solve(threading=thr, vectorize=vect, check_MB=mb, isolver=isolver)
    else:
        m.run(nsteps=how, threading=thr, vectorize=vect, check_MB=mb, isolver=isolver)


def compose(env, shape, comp, wells, bcs, z, sparse, vect, split, mb=False, thr=False, isolver=None, mag="1"):
    """split lists run lengths (0 is a single solve); one run of the same
    number of steps has the same history"""
    env.mag = env.f(mag)
    n = sum(x or 1 for x in split)
    a = make(env, shape, comp, wells, bcs, z, sparse)
    done = 0
    for x in split:
        before = snap(env, a)
        advance(a, x, vect, mb, thr, isolver)
        after = snap(env, a)
        same_rows(env, shape, before, after, done + 1, "earlier steps stay")
        done += x or 1
        sizes(env, shape, a, done, "after a run")
    b = make(env, shape, comp, wells, bcs, z, sparse)
    advance(b, n, vect, mb, thr, isolver)
    A, Bs = snap(env, a), snap(env, b)
    same_rows(env, shape, A, Bs, n + 1, "runs compose")
    env.same("control", A["control"], Bs["control"])
    sizes(env, shape, b, n, "one run")
    for t in range(1, n + 1):  # each step is the solution of its equations
        p = [A["pressures"][t, c] for c in interior(shape)]
        k = len(p)
        M = A["As"][t].reshape(k, k)
        for i in range(k):
            s = env.zero()
            for j in range(k):
                s = s + M[i, j] * p[j]
            env.eq("stored equations hold", s / env.mag, A["ds"][t][i] / env.mag, scale=1000.0)


def preview(env, shape, comp, wells, bcs, z, sparse, vect, n):
    """solving without update changes nothing"""
    a = make(env, shape, comp, wells, bcs, z, sparse)
    b = make(env, shape, comp, wells, bcs, z, sparse)
    for t in range(n):
        before = snap(env, a)
        a.solve(vectorize=vect, check_MB=False, update=False, isolver=None)
        after = snap(env, a)
        same_rows(env, shape, before, after, t + 1, "preview")
        env.same("preview: control", before["control"], after["control"])
        sizes(env, shape, a, t, "preview")
        a.solve(vectorize=vect, check_MB=False, isolver=None)
        b.solve(vectorize=vect, check_MB=False, isolver=None)
    same_rows(env, shape, snap(env, a), snap(env, b), n + 1, "after previews")


def markov(env, shape, comp, wells, bcs, z, sparse, vect, n, change):
    """a step only depends on the step before and what is in force"""
    a = make(env, shape, comp, wells, bcs, z, sparse)
    inn = interior(shape)
    fb = flow_cells(shape)
    for t in range(n):
        a.solve(vectorize=vect, check_MB=False, isolver=None)
        if t == 0 and change == "boundary":
            a.set_boundary(fb[-1], "pressure", env.real("nb", nice=(500, 3000)))
        if t == 0 and change in ("rate", "gradient"):
            a.set_boundary(fb[-1], change, env.real("nb", nice=(-2, 2)))
        if t == 0 and change == "conditions":
            a.set_boundaries({fb[0]: ("rate", env.real("nb", nice=(-2, 2))), fb[-1]: ("pressure", env.real("nc", nice=(500, 3000)))})
        if t == 0 and change == "well":
            c = inn[-1]
            a.set_well(cell_id=c, q=env.real("nq", nice=(-20, 20)), r=well_r(env, a, c), s=env.f("1.5"))
    ctl = {c: dict(w) for c, w in a.wells.items()}
    bd = dict(a.bdict)
    a.solve(vectorize=vect, check_MB=False, isolver=None)
    # the last step again, as the first one of a new model
    b = make(env, shape, comp, wells, bcs, z, sparse)
    if change == "well":
        c = inn[-1]
        b.set_well(cell_id=c, q=env.real("nq", nice=(-20, 20)), r=well_r(env, b, c), s=env.f("1.5"))
    for c, w in ctl.items():
        b.wells[c].update(w)
    b.set_boundaries(bd)
    for c in inn:
        b.solution.pressures[0, c] = a.solution.pressures[n, c]
    b.solve(vectorize=vect, check_MB=False, isolver=None)
    env.eq("pressures", [a.solution.pressures[n + 1, c] for c in inn], [b.solution.pressures[1, c] for c in inn], scale=1000.0)
    env.eq("rates", a.solution.rates[n + 1], b.solution.rates[1], scale=100.0)
    for c in a.wells:
        env.eq("bottom-hole pressure", a.w_pressures[c][-1], b.w_pressures[c][-1], scale=1000.0)
        env.same("control", a.wells[c]["constrain"], b.wells[c]["constrain"])


def settings(env, shape, comp, z, verbose):
    """runs leave the settings of the model alone"""
    m, B, W = sim(env, shape, comp, z="sym" if z else None, verbose=verbose)
    g, f, dt, pi = m.grid, m.fluid, m.dt, m.pi
    m.run(nsteps=1, threading=False, vectorize=True, check_MB=False)
    env.same("verbose", m.verbose, verbose)
    m.solve(check_MB=False, isolver=None)
    m.run(nsteps=0, check_MB=False)
    sizes(env, shape, m, 2, "no steps")
    env.same("verbose", m.verbose, verbose)
    env.check("objects", m.grid is g and m.fluid is f)
    env.eq("time step", m.dt, dt)
    env.eq("initial pressure", m.pi, pi)
    env.le("time adds up", m.solution.run_ctime, m.solution.ctime)
    env.same("solutions", (len(m.solutions), list(m.solutions.values())[0] is m.solution), (1, True))


def obligations(tier):
    out = []
    T = tier == "thorough"
    add = lambda f, b=200, **k: out.append(Obligation(f, k, max_paths=400, budget_s=b))
    S = [(2, 1, 1), (3, 1, 1), (1, 3, 1), (2, 2, 1), (2, 1, 2)] + ([(2, 2, 2), (4, 1, 1)] if T else [])
    K = [("pressure", "rate"), ("rate", "pressure", None), ("gradient", "pressure"), ("pressure", "gradient", "rate")]
    W = [((),), ((("q", 0),),), ((("qp", 0),),), ((("p", 1), ("q", 0)),), ((("idle", 1), ("qp", 0)),)]
    SP = [(2, 1), (0, 2), (1, 0, 1), (0, 0, 0), (3, 0), (1, 1, 1)] + ([(2, 3), (0, 4, 1), (2, 2, 2)] if T else [])
    i = 0
    for j, mag in enumerate(("0.000000001", "1000000000") * 2):
        add(compose, shape=(3, 1, 1), comp=j < 2, wells=(), bcs=K[j], z=True, sparse=bool(j % 3), vect=bool(j % 2), split=(1, 0), mag=mag)
    for sh in S:
        flat = sh[0] > 1 and (sh[2] == 1)
        for sp in SP:
            for comp in (True, False):
                i += 1
                w = W[i % len(W)][0] if flat else ()
                if len(interior(sh)) > 3 and sum(x or 1 for x in sp) > 3 and not T:
                    continue
                add(compose, shape=sh, comp=comp, wells=w, bcs=K[i % 4], z=bool(i % 3), sparse=bool(i % 4 > 1), vect=bool(i % 5 > 1), split=sp, thr=bool(i % 7 == 0))
        for comp in (True, False):
            i += 1
            w = W[i % len(W)][0] if flat else ()
            add(preview, shape=sh, comp=comp, wells=w, bcs=K[i % 4], z=True, sparse=bool(i % 4 > 1), vect=bool(i % 2), n=2)
            for ch in ("none", "boundary", "rate", "gradient", "conditions") + (("well",) if flat else ()):
                i += 1
                w = W[i % len(W)][0] if flat else ()
                add(markov, shape=sh, comp=comp, wells=w, bcs=K[i % 4] if comp or ch not in ("rate", "gradient") else K[0], z=bool(i % 3), sparse=bool(i % 4 > 1), vect=bool(i % 3), n=2 if len(interior(sh)) < 4 else 1, change=ch)
            add(settings, shape=sh, comp=comp, z=True, verbose=bool(i % 2))
    for j, sp in enumerate([(70, 0, 60), (1, 104)] + ([(300,), (128, 0, 129)] if T else [])):
        add(compose, b=400, shape=(2, 1, 1), comp=True, wells=(), bcs=(None,) if j else ("rate",), z=not j, sparse=bool(j), vect=not j, split=sp)
    return out
