"""A solver that fails is reported and leaves the history as it was."""
from harness.common import *
from harness.p15_time_steps import same_rows, sizes, snap

META = dict(
    bounds="2x1x1, 3x1x1, 1x2x1, 2x2x1 (thorough also 2x1x2, 4x1x1) interior cells; any non-zero exit code between -12 and 12 of any available iterative solver, or a direct solver that raises, in any solver call of up to 3 steps (including calls repeated within a step for a well that changes its control); pressures, conditions and targets symbolic, coefficients concrete",
    outside="singular systems that floating-point solvers do not notice; failures outside of the solver (memory, interrupts)",
    assumptions=["the result of an iterative solver that reports an error is arbitrary; one that reports 0 is exact"],
)
SOLVERS = ["cgs", "bicg", "bicgstab", "cg", "gmres", "lgmres", "qmr", "gcrotmk", "tfqmr", "minres"]


def make(env, shape, comp, wells, bcs, z, sparse, verbose=False):
    m, B, W = sim(env, shape, comp, z="sym" if z else None, wells=wells, bcs=bcs, sparse=sparse, verbose=verbose)
    return m


def fails(env, shape, comp, wells, bcs, z, vect, solver, before, how, mb=False):
    """solver is the name of an iterative solver or None (direct)"""
    sparse = solver is not None or bool(before % 2)
    quiet = dict(vectorize=vect, check_MB=mb, isolver=solver, threading=False)
    env.fault(0)
    m = make(env, shape, comp, wells, bcs, z, sparse, verbose=how > 1)
    ref = make(env, shape, comp, wells, bcs, z, sparse)
    for _ in range(before):
        m.solve(**quiet)
        ref.solve(**quiet)
    old = snap(env, m)
    last = 1 + max(how - 1, 0) + (1 if any(k == "qp" for k, _ in wells) else 0)
    at = env.choice("call", list(range(last)))
    if solver is not None:
        code = env.int("code", -12, 12)
        env.assume(code != 0)
        env.fault(code, at)
    else:
        env.fault_direct(at)
    n = max(how, 1)  # steps asked for
    act = (lambda: m.solve(**quiet)) if how == 0 else (lambda: m.run(nsteps=how, **quiet))
    failed = env.raises(act)
    s = m.solution
    done = int(s.tstep) - before
    env.fault(0)
    env.same("settings of the model", bool(m.verbose), how > 1)
    if at == 0:
        env.check("a failing solver is reported", failed)
    if not failed:  # fewer calls were needed
        env.check("all steps are done", done == n)
        calls = n + (1 if any(k == "qp" for k, _ in wells) else 0)
        env.check("a failing solver is reported", at >= n and calls > n)
    else:
        env.check("only complete steps", 0 <= done and done < n)
    sizes(env, shape, m, before + done, "after the failure")
    now = snap(env, m)
    same_rows(env, shape, old, now, before + 1, "history before the failure")
    # carry on: as if it had not happened
    for _ in range(n - done):
        m.solve(**quiet)
    for _ in range(n):
        ref.solve(**quiet)
    a, b = snap(env, m), snap(env, ref)
    sizes(env, shape, m, before + n, "carried on")
    same_rows(env, shape, a, b, before + n + 1, "carried on")
    env.same("control", a["control"], b["control"])


def unknown(env, shape, comp, bcs, vect, sparse):
    """unknown solvers are refused without a step"""
    m = make(env, shape, comp, (), bcs, True, True)
    env.fault(0)
    m.solve(vectorize=vect, check_MB=False, isolver="cgs")
    old = snap(env, m)
    for name in ("CGS", "lu", "direct", "gmres2", 1):
        env.check("unknown solvers are refused", env.raises(lambda: m.solve(vectorize=vect, check_MB=False, isolver=name), ValueError))
        env.check("unknown solvers are refused", env.raises(lambda: m.run(nsteps=2, vectorize=vect, check_MB=False, isolver=name, threading=False), ValueError))
        sizes(env, shape, m, 1, "refused")
        same_rows(env, shape, old, snap(env, m), 2, "refused")
    env.same("settings of the model", bool(m.verbose), False)


def obligations(tier):
    out = []
    T = tier == "thorough"
    add = lambda f, b=200, **k: out.append(Obligation(f, k, max_paths=400, budget_s=b))
    S = [(2, 1, 1), (3, 1, 1), (1, 2, 1), (2, 2, 1)] + ([(2, 1, 2), (4, 1, 1)] if T else [])
    K = [("pressure", "rate"), ("rate", "pressure", None), ("gradient", "pressure")]
    W = [(), (("qp", 0),), (("q", 0),), (("p", 1), ("qp", 0))]
    i = 0
    for sh in S:
        flat = sh[0] > 1 and sh[2] == 1
        for before in (0, 1):
            for how in (0, 1, 2):
                for sv in (None, SOLVERS[i % 10]) if not T else [None] + SOLVERS:
                    i += 1
                    add(fails, shape=sh, comp=bool(i % 3), wells=W[i % 4] if flat else (), bcs=K[i % 3], z=bool(i % 2), vect=bool(i % 4 > 1), solver=sv, before=before, how=how, mb=False)
        add(unknown, shape=sh, comp=True, bcs=K[i % 3], vect=bool(i % 2), sparse=True)
    for j, sv in enumerate(SOLVERS):
        add(fails, shape=(2, 1, 1), comp=bool(j % 2), wells=W[j % 4], bcs=K[j % 3], z=True, vect=True, solver=sv, before=1, how=2, mb=False)
    return out
