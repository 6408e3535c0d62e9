#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only SUBSTR] [-v]

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: inconclusive (error of the check)."""
import argparse
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix == "/usr":
    if os.path.exists(PY) and not os.environ.get("VSX_REEXEC"):
        os.environ["VSX_REEXEC"] = "1"
        os.execv(PY, [PY] + sys.argv)

os.environ.update(
    MPLBACKEND="Agg", PYVISTA_OFF_SCREEN="true", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
    OPENBLAS_NUM_THREADS="1",
)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
sys.set_int_max_str_digits(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from vsx import runner

    if a.self_test or not a.prop:
        from vsx.z3load import z3

        x = z3.Real("x")
        s = z3.Solver()
        s.add(x * x < 0)
        assert s.check() == z3.unsat
        import reservoirflow  # noqa: F401

        print("z3", z3.get_version_string(), "and", reservoirflow.__file__)
        return 0
    names = [f[:-3] for f in os.listdir(os.path.join(ROOT, "harness")) if f.lower().startswith(a.prop.lower() + "_")]
    if len(names) != 1:
        print("unknown property", a.prop)
        return 2
    m = importlib.import_module("harness." + names[0])
    obs = m.obligations(a.tier)
    if a.tier == "thorough":
        for o in obs:
            o.max_paths, o.budget_s = 5 * o.max_paths, 4 * o.budget_s
    if a.only:
        obs = [o for o in obs if a.only in o.name]
    for o in obs:
        o.prop = a.prop
        o.module = o.module or m.__name__
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ev, lines, problems, results = runner.run_property(a.prop, obs, m.META, a.tier, seed)
    if not a.only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if a.v:
        for r in sorted(results, key=lambda r: -r.get("wall", 0))[:60]:
            if "error" in r:
                print("  ERR", r["name"], r["error"])
            else:
                print(
                    f"  {r['name']}: paths={r['paths']} inf={r['infeasible']} checks={r['checks']} {r['how']} "
                    f"wall={r['wall']:.1f}s solver={r['solver_s']:.1f}s cands={[(c['label'], c['what'][:120]) for c in r['cands'][:3]]}"
                )
    c = ev["coverage"]
    print(
        f"{a.prop} [{a.tier}] {c['verdict']}: {c['obligations']} obligations, {c['states']} paths, "
        f"{c['assertions_decided']} assertions, {c['solver_queries']} queries, solver {c['solver_seconds']}s, "
        f"{c['traces_validated_against_impl']} traces validated, wall {ev['wall_s']}s"
    )
    for x in problems[: 40 if a.v else 12]:
        print("  problem:", str(x)[: 1500 if a.v else 600])
    for x in lines:
        print(x)
    if lines:
        return 1
    return 2 if problems else 0


if __name__ == "__main__":
    sys.exit(main())
