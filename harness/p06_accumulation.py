"""Compressibility and accumulation."""
from harness.common import *

META = dict(
    bounds="shapes up to 3x1x1, 2x2x1, 2x2x2; cell volumes, porosities, compressibilities (zero or positive), B and dt symbolic; field, metric and lab units; single shapes 101x1x1, 9x9x1, 1x1x101, 5x4x5 (cell ids of three digits)",
    outside="larger grids; fluid or grid properties changed after the model was created (the coefficients are fixed at creation)",
)


def coefficients(env, shape, d, phi, unit):
    cf = env.real("cf", "0+", nice=(0.000001, 0.00001))
    cg = env.real("cg", "0+", nice=(0.000001, 0.00001))
    dt = env.real("dt", "+", nice=(0.5, 9))
    g = grid(env, shape, d=d, k=d, phi=phi, comp=cg, unit=unit)
    f = fluid(env, comp=cf, unit=unit)
    m = env.rf.models.BlackOil(g, f, pi=env.f("1000"), dt=dt, unit=unit, dtype="double")
    env.eq("compressibility", m.comp, cf + cg)
    for o, c in ((g, cg), (f, cf), (m, cf + cg)):
        env.same("type", o.comp_type, "incompressible" if bool(c == 0) else "compressible")
        env.eq("value", o.comp, c)
    a = {"field": env.f("5.614583"), "metric": env.f("1"), "lab": env.f("1")}[unit]
    n = len(cells(shape))
    want = env.arr([g.V[c] * g.phi[c] * (cf + cg) / (a * f.B * dt) for c in range(n)])
    env.eq("coefficients", m.RHS, want)
    along = g.get_fdir() if len(g.get_fdir()) == 1 else "x"
    if not bool(cf + cg == 0):
        b = {"field": env.f("0.001127"), "metric": env.f("0.0864"), "lab": env.f("1")}[unit]
        env.eq("diffusivity", m.get_alpha(), env.arr([b * g.k[along][c] * a / (f.mu * g.phi[c] * (cf + cg)) for c in range(n)]))
        for c in range(n):
            env.lt("positive", 0, m.RHS[c])
    env.observe("RHS", m.RHS)


def setters(env, who):
    """set_comp classifies and refuses negative values"""
    c = env.real("c", "?", nice=(-0.001, 0.001))
    if who == "fluid":
        o = env.rf.fluids.SinglePhase(mu=1, B=1)
        mk = lambda v: env.rf.fluids.SinglePhase(mu=1, B=1, comp=v)
    elif who == "grid":
        o = env.rf.grids.RegularCartesian(nx=2, ny=1, nz=1, dx=10, dy=10, dz=10, kx=1, phi=env.f("0.2"))
        mk = lambda v: env.rf.grids.RegularCartesian(nx=2, ny=1, nz=1, dx=10, dy=10, dz=10, kx=1, phi=env.f("0.2"), comp=v)
    else:
        g = env.rf.grids.RegularCartesian(nx=2, ny=1, nz=1, dx=10, dy=10, dz=10, kx=1, phi=env.f("0.2"))
        f = env.rf.fluids.SinglePhase(mu=1, B=1)
        o = env.rf.models.BlackOil(g, f, pi=1, dtype="double")
        mk = None
    env.same("default", o.comp_type, "incompressible")
    if bool(c < 0):
        env.check("negative values are refused", env.raises(lambda: o.set_comp(c), ValueError))
        if mk:
            env.check("negative values are refused", env.raises(lambda: mk(c), ValueError))
    else:
        o.set_comp(c)
        env.eq("value", o.comp, c)
        env.same("type", o.comp_type, "incompressible" if bool(c == 0) else "compressible")
        if mk:
            p = mk(c)
            env.eq("value", p.comp, c)
            env.same("type", p.comp_type, o.comp_type)
            o.set_comp(0)
            env.same("type", o.comp_type, "incompressible")
    env.observe("type", str(o.comp_type))


def own(env):
    """coefficients of several models, also on the same grid, are their own"""
    g = grid(env, (2, 1, 1), d="uniform", k="sym", phi="sym", comp=env.real("cg", "+", nice=(0.000001, 0.00001)))
    ms = []
    for i in range(3):
        f = env.rf.fluids.SinglePhase(mu=env.f("1"), B=env.real(f"B{i}", "+"), rho=env.f("50"), comp=env.real(f"cf{i}", "+", nice=(0.000001, 0.00001)))
        ms.append((env.rf.models.BlackOil(g, f, pi=env.f("100"), dt=env.real(f"dt{i}", "+"), dtype="double"), f))
    for _ in range(2):
        for i, (m, f) in enumerate(ms):
            a = env.f("5.614583")
            env.eq("coefficients", m.RHS, env.arr([g.V[c] * g.phi[c] * (f.comp + g.comp) / (a * f.B * env.real(f"dt{i}", "+")) for c in range(4)]))
            env.eq("diffusivity", m.get_alpha(), env.arr([env.f("0.001127") * g.k["x"][c] * a / (f.mu * g.phi[c] * (f.comp + g.comp)) for c in range(4)]))
    env.observe("RHS", ms[1][0].RHS)


def obligations(tier):
    out = []
    shapes = [(2, 1, 1), (3, 1, 1), (1, 3, 1), (1, 1, 2), (2, 2, 1), (2, 1, 2), (2, 2, 2)]
    if tier == "thorough":
        shapes += [(1, 2, 2), (3, 2, 1), (3, 2, 2), (3, 3, 1)]
    for s in shapes:
        for u in ("field", "metric", "lab"):
            for d, p in [("sym", "sym"), ("uniform", "uniform")]:
                out.append(Obligation(coefficients, dict(shape=s, d=d, phi=p, unit=u)))
    for w in ("fluid", "grid", "model"):
        out.append(Obligation(setters, dict(who=w)))
    out.append(Obligation(own))
    # cell ids of three digits
    for s in [(101, 1, 1), (9, 9, 1), (1, 1, 101), (5, 4, 5)]:
        out.append(Obligation(coefficients, dict(shape=s, d="sym", phi="sym", unit="field" if s[0] > 8 else "metric")))
    return out
