"""How the equations are assembled and solved does not change the solution."""
from harness.common import *

META = dict(
    bounds="3x1x1, 2x2x1, 1x3x1, 2x2x2 interior cells (assembled systems also 101x1x1 and 1x9x9); up to 2 steps with up to 2 changes; one or two wells; every setting (sparse, vectorize, threading in 3 task orders, print_arrays, solver name, verbose) against the reference setting; pressures, rates, conditions and depths symbolic, coefficients concrete",
    outside="larger grids; convergence of the iterative solvers (modelled as exact when they report success); preemptive interleavings inside a task (tasks are run whole, in any of the orders tried)",
)

BASE = dict(sparse=False, vectorize=True, threading=False, print_arrays=False, isolver=None)


def build(env, shape, comp, z, well, bcs, verbose=False):
    n = len(cells(shape))
    zz = env.arr([env.real(f"z{i}", nice=(-20, 20)) for i in range(n)]) if z else None
    g = concrete_grid(env, shape, z=zz, comp="0.00001" if comp else "0")
    f = concrete_fluid(env, comp="0.00002" if comp else "0")
    m = env.rf.models.BlackOil(g, f, pi=env.real("pi", nice=(1000, 3000)), dt=env.f("2"), dtype="double", verbose=verbose)
    inn = interior(shape)
    if "q" in well:
        m.set_well(cell_id=inn[0], q=env.real("q", nice=(-5, 5)), pwf=env.real("pwf0", nice=(100, 400)), r=well_r(env, m, inn[0]), s=env.f("1.5"))
    if "p" in well:
        m.set_well(cell_id=inn[-1], pwf=env.real("pwf", nice=(100, 400)), r=well_r(env, m, inn[-1]), s=env.f("2"))
    bs = boundary(shape)
    d = {}
    if not comp:
        # incompressible flow needs a pressure somewhere
        bcs = ["pressure"] + list(bcs[1:])
    for i, b in enumerate(bs):
        k = bcs[i % len(bcs)]
        if k:
            d[b] = (k, env.real(f"v{b}", nice=(500, 3000) if k == "pressure" else (-2, 2)))
    m.set_boundaries(d)
    return m


def drive(env, m, shape, cfg, nsteps, change, run=False):
    cfg = {**BASE, **cfg}
    compiled(env, m, cfg["sparse"])
    s = m.solution
    for c in interior(shape):
        s.pressures[0, c] = env.real(f"o{c}", nice=(500, 3000))
    kw = dict(threading=cfg["threading"], vectorize=cfg["vectorize"], print_arrays=cfg["print_arrays"], isolver=cfg["isolver"], check_MB=False)
    for i in range(nsteps):
        if run:
            s.run(nsteps=1, **kw)
        else:
            s.solve(**kw)
        if change and i == 0:
            bs = [b for b in boundary(shape) if opposite(shape, b)]
            if change == "bc":
                m.set_boundary(bs[1], "pressure", env.real("cv0", nice=(500, 3000)))
                m.set_boundary(bs[0], "gradient", env.real("cv1", nice=(-2, 2)))
            elif change == "new":
                m.set_boundaries({bs[-1]: ("pressure", env.real("cv0", nice=(500, 2000)))})
            else:
                m.set_well(cell_id=interior(shape)[-1], q=env.real("cq", nice=(-2, 2)), r=well_r(env, m, interior(shape)[-1]), s=env.f("1"))
    return s


def agree(env, shape, comp, z, well, bcs, nsteps, change, alt, order="fifo", run=False, verbose=False, mag="1"):
    env.mag = env.f(mag)
    env.thread_order(order)
    if alt.get("isolver"):
        env.exact_solvers()
    a = build(env, shape, comp, z, well, bcs)
    sa = drive(env, a, shape, {}, nsteps, change)
    b = build(env, shape, comp, z, well, bcs, verbose)
    sb = drive(env, b, shape, alt, nsteps, change, run)
    rtol = 1e-6
    env.eq("pressures", sb.pressures, sa.pressures, scale=1.0, rtol=rtol)
    env.eq("rates", sb.rates, sa.rates, scale=1.0, rtol=rtol)
    for k in a.w_pressures:
        env.eq("bottom-hole pressures", env.arr(list(b.w_pressures[k])), env.arr(list(a.w_pressures[k])), rtol=rtol)
    env.same("controls", {k: v["constrain"] for k, v in b.wells.items()}, {k: v["constrain"] for k, v in a.wells.items()})
    env.same("steps", (sb.tstep, sb.nsteps), (sa.tstep, sa.nsteps))
    if len(sa.As) == len(sb.As):
        env.eq("stored matrices", sb.As[:, :] / env.mag, sa.As[:, :] / env.mag, rtol=rtol)
    env.observe("p", sb.pressures)


def matrices(env, shape, comp, z, well, bcs, order, change, threading=True, step=True):
    """matrices of every assembly, at the start and after a step, also asked twice"""
    env.thread_order(order)
    ms = []
    for sp in (False, True):
        m = build(env, shape, comp, z, well, bcs)
        compiled(env, m, sp)
        for c in interior(shape):
            m.solution.pressures[0, c] = env.real(f"o{c}", nice=(500, 3000))
        ms.append(m)

    def look(what):
        ref = None
        for m in ms:
            s = m.solution
            for how in ("vect", "symb", "symb-threads", "vect-threads"):
                if not threading and how.endswith("threads"):
                    continue
                A, d = (s.get_matrices_vect if how.startswith("vect") else s.get_matrices_symb)(how.endswith("threads"))
                A, d = dense(env, A), dense(env, d)
                if ref is None:
                    ref = (A.copy(), d.copy())
                env.eq(f"{what} A {how} {'sparse' if s.sparse else 'dense'}", A, ref[0])
                env.eq(f"{what} d {how} {'sparse' if s.sparse else 'dense'}", d, ref[1])

    look("start")
    if not step:
        return
    for i, m in enumerate(ms):
        m.solve(vectorize=bool(i), isolver=None, check_MB=False)
    look("after a step")
    if change:
        bs = [b for b in boundary(shape) if opposite(shape, b)]
        for m in ms:
            m.set_boundary(bs[0], change, env.real("cv0", nice=(500, 3000)))
        look("after a change")


ALTS = [
    dict(vectorize=False),
    dict(sparse=True),
    dict(sparse=True, vectorize=False),
    dict(sparse=True, isolver="cgs"),
    dict(threading=True),
    dict(vectorize=False, threading=True),
    dict(sparse=True, vectorize=False, threading=True, isolver="bicgstab"),
    dict(print_arrays=True),
    dict(sparse=True, print_arrays=True, threading=True),
]
ORDERS = ["fifo", "lifo", [1, 0, 2, 3, 4, 5, 6, 7]]
ISOLVERS = ["bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "minres", "qmr", "gcrotmk", "tfqmr"]
B = [["pressure", "rate"], ["gradient", "pressure", None], [None, "rate", "gradient"]]


def obligations(tier):
    out = []
    add = lambda f, **k: out.append(Obligation(f, k, max_paths=400, budget_s=250))
    i = 0
    for shape, z in [((3, 1, 1), True), ((2, 2, 1), True), ((1, 3, 1), False), ((1, 1, 3), True), ((2, 2, 2), False)]:
        for alt in ALTS:
            wells = (["q", "p", "qp", ""] if shape[0] > 1 else [""])
            for ch in (None, "bc", "well" if shape[0] > 1 else "new"):
                i += 1
                add(agree, shape=shape, comp=i % 3 > 0, z=z, well=wells[i % len(wells)], bcs=B[i % 3] if i % 3 else B[0], nsteps=2, change=ch, alt=alt, order=ORDERS[i % 3], run=i % 4 == 0)
    for j, alt in enumerate(ALTS):
        for mag in ("0.000000001", "1000000000"):
            add(agree, shape=[(3, 1, 1), (2, 2, 1)][j % 2], comp=bool(j % 3), z=True, well=["", "q", "p"][j % 3], bcs=B[j % 2], nsteps=2, change=None, alt=alt, mag=mag)
    # cell ids of three digits
    add(matrices, shape=(101, 1, 1), comp=True, z=True, well="q", bcs=B[0], order="fifo", change=None, step=False)
    add(matrices, shape=(1, 9, 9), comp=True, z=True, well="", bcs=B[1], order="lifo", change=None, step=False)
    for j, n in enumerate(ISOLVERS):
        add(agree, shape=(3, 1, 1), comp=bool(j % 2), z=True, well="q", bcs=B[0], nsteps=1, change=None, alt=dict(sparse=True, isolver=n))
    for alt in ALTS[:4]:
        add(agree, shape=(2, 1, 1), comp=True, z=True, well="p", bcs=B[0], nsteps=2, change="bc", alt=alt, verbose=True, run=bool(alt.get("sparse")))
        add(agree, shape=(2, 1, 1), comp=True, z=True, well="q", bcs=B[0], nsteps=2, change="new", alt=alt)
    for shape, z in [((3, 1, 1), True), ((2, 2, 1), True), ((3, 2, 1), True), ((2, 2, 2), True), ((2, 1, 2), True), ((1, 2, 2), True), ((1, 2, 1), True)]:
        for k, well in enumerate(["q", "p", "qp", ""] if shape in ((3, 1, 1), (2, 2, 1), (2, 2, 2)) else [""]):
            for ch in (None, "pressure", "rate"):
                add(matrices, shape=shape, comp=k != 1, z=z, well=well, bcs=B[k % 3] if k != 1 else B[0], order=ORDERS[k % 3], change=ch)
    if tier == "thorough":
        for shape in [(4, 1, 1), (3, 2, 1), (3, 2, 2), (3, 3, 1)]:
            for alt in ALTS:
                for ch in (None, "bc", "well", "new"):
                    i += 1
                    add(agree, shape=shape, comp=i % 2 > 0, z=i % 3 == 0, well=["q", "p", "qp", ""][i % 4], bcs=B[i % 2], nsteps=3, change=ch, alt=alt, order=ORDERS[i % 3], run=i % 4 == 0)
    return out
