"""The assembled equations are the mass balance of each cell."""
from harness.common import *

META = dict(
    bounds="shapes up to 3x1x1, 2x2x1/2x1x2/1x2x2 and 2x2x2 interior cells, and 101x1x1 and 9x9x1 (cell ids of three digits) with concrete coefficients; one well (two in histories); every boundary cell of 1D grids takes every kind of condition; geometry, permeability, porosity, depth, fluid, pressures, rates and dt symbolic; up to 3 steps with changes of wells and boundaries in between",
    outside="larger grids; more steps; floating point rounding",
)


def compare(env, m, shape, bcs, wells, what, how=("vect", "symb")):
    s = m.solution
    inn = interior(shape)
    p = {c: env.real(f"p{c}", nice=(500, 3000)) for c in range(len(cells(shape)))}
    p_old = {c: s.pressures[s.tstep, c] for c in inn}
    R = residual(env, m, shape, p, p_old, bcs, wells)
    want = env.arr([R[c] for c in inn])
    x = env.arr([p[c] for c in inn])
    for h in how:
        A, d = s.get_matrices_vect() if h == "vect" else s.get_matrices_symb(threading=h == "symb-threads")
        A, d = dense(env, A), dense(env, d)
        env.same(f"{what} size", (tuple(A.shape), tuple(d.shape)), ((len(inn), len(inn)), (len(inn), 1)))
        env.eq(f"{what} {h}", A @ x - d.reshape(-1), want, scale=1.0)
    env.observe("R " + what, want)


def make(env, shape, fill, comp, z, unit="field"):
    u = dict(unit=unit)
    c = dict(comp=True) if comp else dict(comp=env.f("0"))
    if fill == "sym":
        g = grid(env, shape, d="sym", k="scaled", phi="sym", z=z, **c, **u)
        f = fluid(env, **c, **u)
    elif fill == "uniform":
        g = grid(env, shape, d="uniform", k="uniform", phi="uniform", z=z, **c, **u)
        f = fluid(env, **c, **u)
    else:
        zz = None if z is None else per_cell(env, "z", shape, "sym", sign="?", nice=(-100, 100))
        g = concrete_grid(env, shape, z=zz, comp="0.00001" if comp else "0", **u)
        f = concrete_fluid(env, comp="0.00002" if comp else "0", **u)
    dt = env.real("dt", "+", nice=(0.5, 5)) if fill != "conc" else env.f("2")
    return env.rf.models.BlackOil(g, f, pi=env.real("pi", nice=(500, 3000)), dt=dt, dtype="double", **u)


def set_state(env, m, shape, symbolic=True):
    """arbitrary pressures at the last step"""
    s = m.solution
    for c in interior(shape):
        s.pressures[s.tstep, c] = env.real(f"o{c}", nice=(500, 3000)) if symbolic else s.pressures[s.tstep, c]


def pick_bcs(env, shape, kinds):
    """condition of each boundary cell; kinds: 'any' or a cyclic list"""
    bcs = {}
    for i, b in enumerate(boundary(shape)):
        if kinds == "any":
            k = env.choice(f"kind{b}", [None, "rate", "pressure", "gradient"])
        else:
            k = kinds[i % len(kinds)]
        if k is not None:
            bcs[b] = (k, env.real(f"v{b}", nice=(500, 3000) if k == "pressure" else (-2, 2)))
    return bcs


def place(env, m, shape, kind, c, tag=""):
    """a well in cell c -> oracle entry"""
    r, s = env.f("3.5"), env.f("1.5")
    if kind == "none":
        return {}
    well_index(env, m, c, r, None if kind in ("pwf", "idle") else s, check=True)
    q, pwf = env.real("q" + tag, nice=(-50, 50)), env.real("pwf" + tag, nice=(100, 400))
    if kind == "q":
        m.set_well(cell_id=c, q=q, r=r, s=s)
        return {c: ("q", q)}
    if kind == "q+pwf":
        m.set_well(cell_id=c, q=q, pwf=pwf, r=r, s=s)
        return {c: ("q", q)}
    if kind == "pwf":
        m.set_well(cell_id=c, pwf=pwf, r=r)
        return {c: ("pwf", pwf, well_index(env, m, c, r)[1])}
    m.set_well(cell_id=c, r=r)
    return {c: None}


def one(env, shape, fill, comp, z, kinds, well, sparse, unit="field", how=("vect", "symb")):
    """one step from arbitrary pressures"""
    m = make(env, shape, fill, comp, z, unit)
    wells = {}
    if well != "none":
        inn = interior(shape)
        c = env.choice("cell", inn) if len(inn) <= 3 else inn[len(inn) // 2]
        wells = place(env, m, shape, well, c)
    bcs = pick_bcs(env, shape, kinds)
    m.set_boundaries(dict(bcs))
    compiled(env, m, sparse)
    set_state(env, m, shape)
    compare(env, m, shape, bcs, wells, "first step", how)
    compare(env, m, shape, bcs, wells, "asked again", how)


def history(env, shape, sparse, vect, script):
    """equations after steps and changes; coefficients concrete, state symbolic"""
    m = make(env, shape, "conc", True, "sym")
    inn = interior(shape)
    bs = [b for b in boundary(shape) if opposite(shape, b)]
    bcs, wells = {}, {}
    n = 0
    done = False
    for act in script:
        n += 1
        if act == "compile":
            compiled(env, m, sparse)
            set_state(env, m, shape)
            done = True
        elif act == "step":
            m.solve(vectorize=vect, isolver=None, check_MB=False)
            for c, w in m.wells.items():
                # the control may have switched
                if w["constrain"] == "pwf":
                    wells[c] = ("pwf", w["pwf_sp"], w["G"])
                elif w["constrain"] == "q":
                    wells[c] = ("q", w["q_sp"])
        elif act.startswith("well"):
            kind, i = act[5:].split("@")
            c = inn[int(i)]
            kw = dict(cell_id=c, r=well_r(env, m, c), s=env.f("1.5"))
            if kind == "q":
                kw.update(q=env.real(f"q{n}", nice=(-5, 5)))
            else:
                kw.update(pwf=env.real(f"w{n}", nice=(100, 400)))
            m.set_well(**kw)
            if kind == "q":
                wells[c] = ("q", kw["q"])
            else:
                wells[c] = ("pwf", kw["pwf"], well_index(env, m, c, kw["r"], kw["s"])[1])
        elif act.startswith("bc"):
            k, i = act[3:].split("@")
            b = bs[int(i) % len(bs)]
            v = env.real(f"v{n}", nice=(500, 3000) if k == "pressure" else (-2, 2))
            m.set_boundary(b, k, v)
            bcs[b] = (k, v)
        elif act.startswith("all"):
            k = act[4:]
            v = env.real(f"v{n}", nice=(500, 3000) if k == "pressure" else (-2, 2))
            m.set_all_boundaries(k, v)
            bcs = {b: (k, v) for b in boundary(shape)}
        elif act.startswith("new"):
            bcs = {}
            for j, k in enumerate(act[4:].split("+")):
                if k:
                    bcs[bs[j]] = (k, env.real(f"v{n}_{j}", nice=(500, 3000) if k == "pressure" else (-2, 2)))
            m.set_boundaries(dict(bcs))
        if done:
            compare(env, m, shape, bcs, wells, f"after {n}:{act}", ("vect", "symb") if n % 2 else ("symb", "vect"))


SCRIPTS = [
    ["bc:pressure@0", "well:q@0", "compile", "step", "bc:rate@0", "step", "bc:pressure@1"],
    ["compile", "well:q@0", "step", "well:q@1", "bc:gradient@1"],
    ["all:pressure", "compile", "step", "all:rate", "step", "all:gradient"],
    ["new:rate+pressure", "compile", "step", "new:pressure+", "step", "new:+gradient", "new:"],
    ["well:pwf@0", "bc:pressure@1", "compile", "step", "well:pwf@0", "step"],
]


def obligations(tier):
    out = []
    add = lambda f, **k: out.append(Obligation(f, k, max_paths=1500, budget_s=300))
    for sp in (False, True):
        for comp in (True, False):
            add(one, shape=(2, 1, 1), fill="sym", comp=comp, z="sym", kinds="any", well="none", sparse=sp)
    for w in ("q", "pwf", "q+pwf", "idle"):
        add(one, shape=(3, 1, 1), fill="sym", comp=True, z="sym", kinds=["pressure", "rate"], well=w, sparse=w in ("pwf", "idle"))
        add(one, shape=(3, 1, 1), fill="uniform", comp=w == "q", z=None, kinds=["gradient", "pressure"], well=w, sparse=w in ("q",))
    for s in [(1, 3, 1), (1, 1, 3), (1, 1, 2), (1, 2, 1)]:
        add(one, shape=s, fill="sym", comp=True, z="sym", kinds="any", well="none", sparse=s == (1, 3, 1))
    P = ["pressure", "rate", "gradient", None]
    for s in [(2, 2, 1), (3, 2, 1), (2, 1, 2), (1, 2, 2), (2, 1, 3), (1, 3, 2)]:
        for i in range(2):
            add(one, shape=s, fill="sym" if i else "uniform", comp=True, z="sym", kinds=P[i:] + P[:i], well="none", sparse=bool(i))
    for w in ("q", "pwf", "q+pwf"):
        add(one, shape=(2, 2, 1), fill="sym", comp=True, z="sym", kinds=P, well=w, sparse=w == "pwf")
        add(one, shape=(3, 2, 1), fill="conc", comp=True, z="sym", kinds=P, well=w, sparse=w == "q")
    add(one, shape=(2, 2, 2), fill="uniform", comp=True, z="sym", kinds=P, well="none", sparse=False)
    add(one, shape=(2, 2, 2), fill="sym", comp=True, z="sym", kinds=["pressure", None, "rate"], well="none", sparse=True)
    add(one, shape=(2, 2, 2), fill="conc", comp=True, z="sym", kinds=["pressure", "gradient", "rate"], well="q", sparse=True)
    add(one, shape=(2, 2, 2), fill="conc", comp=False, z="sym", kinds=["pressure", "rate"], well="pwf", sparse=False)
    # cell ids of three digits
    add(one, shape=(101, 1, 1), fill="conc", comp=True, z="sym", kinds=["pressure", "rate"], well="q", sparse=False)
    add(one, shape=(9, 9, 1), fill="conc", comp=False, z="sym", kinds=P, well="pwf", sparse=True)
    for u in ("metric", "lab"):
        add(one, shape=(3, 1, 1), fill="sym", comp=True, z="sym", kinds=["pressure", "gradient"], well="q", sparse=False, unit=u)
        add(one, shape=(2, 2, 1), fill="sym", comp=True, z="sym", kinds=P, well="pwf", sparse=False, unit=u)
    for i, sc in enumerate(SCRIPTS):
        for sp, ve in ([(False, True), (True, False)] if tier == "quick" else [(a, b) for a in (0, 1) for b in (0, 1)]):
            add(history, shape=(3, 1, 1), sparse=bool(sp), vect=bool(ve), script=sc)
        add(history, shape=(2, 2, 1), sparse=bool(i % 2), vect=bool((i + 1) % 2), script=sc)
    if tier == "thorough":
        for s in [(4, 1, 1), (1, 4, 1), (3, 3, 1), (3, 1, 3), (1, 3, 3), (3, 2, 2)]:
            for w in ("q", "pwf", "none"):
                if w != "none" and s[0] == 1:
                    continue
                for f in ("sym", "uniform"):
                    if f == "sym" and s == (3, 2, 2):
                        continue
                    add(one, shape=s, fill=f, comp=True, z="sym", kinds=P, well=w, sparse=f == "sym")
        for s in [(4, 1, 1), (3, 2, 1), (2, 2, 2)]:
            for i, sc in enumerate(SCRIPTS):
                add(history, shape=s, sparse=bool(i % 2), vect=bool(i % 3), script=sc)
        add(one, shape=(2, 1, 1), fill="sym", comp=True, z="sym", kinds="any", well="q", sparse=False)
        add(one, shape=(2, 1, 1), fill="sym", comp=True, z="sym", kinds="any", well="pwf", sparse=True)
    return out
