"""Runs all obligations of one property and writes its evidence."""
from __future__ import annotations

import json
import math
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSX_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
JOBS = int(os.environ.get("VSX_JOBS", "8"))


def child_env():
    e = dict(os.environ)
    e.update(
        MPLBACKEND="Agg", PYVISTA_OFF_SCREEN="true", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
    )
    return e


def _work(ob_nv):
    ob, nv = ob_nv
    from .explore import explore

    class Late(BaseException):
        pass

    def late(*a):
        raise Late()

    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(ob.budget_s * 1.5) + 20)
    try:
        return explore(ob, nv)
    except Late:
        return dict(name=ob.name, error="obligation ran past its time limit", cfg=ob.cfg, module=ob.module, fn=ob.fn)
    except BaseException as e:  # noqa: BLE001
        return dict(
            name=ob.name, error=f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}", cfg=ob.cfg,
            module=ob.module, fn=ob.fn,
        )
    finally:
        signal.alarm(0)


def _serve(conn):
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        conn.send(_work(job))


def spread(jobs, per=12, enough=None):
    """results of _work for all jobs, by forked workers; the obligation of a
    worker that dies is an error.  When enough(result) is true (a violation was
    confirmed) the rest is not explored (None)."""
    from multiprocessing.connection import wait

    ctxm = mp.get_context("fork")
    out = [None] * len(jobs)
    todo = list(range(len(jobs)))[::-1]
    live = {}

    def start():
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=_serve, args=(b,), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None, 0]
        give(a)

    def give(a):
        w = live[a]
        if todo and w[2] < per:
            w[1] = todo.pop()
            w[2] += 1
            try:
                a.send(jobs[w[1]])
            except OSError:
                pass
            return
        stop(a)
        if todo:
            start()

    def stop(a):
        p = live.pop(a)[0]
        try:
            a.send(None)
        except OSError:
            pass
        a.close()
        p.join(10)
        if p.is_alive():
            p.kill()

    for _ in range(min(JOBS, len(jobs))):
        start()
    def leave():
        for p, _, _ in live.values():
            p.kill()
        for p, _, _ in live.values():
            p.join(10)
        return out

    while live:
        if enough is not None and enough(None):
            return leave()
        for a in wait(list(live), timeout=5):
            p, k, _ = live[a]
            try:
                out[k] = a.recv()
                if enough is not None and enough(out[k]):
                    return leave()
                give(a)
            except (EOFError, OSError):
                p.join(10)
                ob = jobs[k][0]
                out[k] = dict(name=ob.name, error=f"the process exploring it ended ({p.exitcode})", cfg=ob.cfg, module=ob.module, fn=ob.fn)
                live[a][2] = per
                stop(a)
                if todo:
                    start()
    return out


def run_replays(jobs, tag):
    """jobs -> results, in parallel batches of separate processes"""
    if not jobs:
        return []
    n = min(JOBS, max(1, (len(jobs) + 2) // 3))
    out = [None] * len(jobs)
    tmp = tempfile.mkdtemp(prefix="vsx-")
    procs = []
    for b in range(n):
        idx = list(range(b, len(jobs), n))
        i, o = os.path.join(tmp, f"i{b}.json"), os.path.join(tmp, f"o{b}.json")
        json.dump([jobs[k] for k in idx], open(i, "w"), default=str)
        p = subprocess.Popen(
            [PY, os.path.join(ROOT, "vsx", "replay.py"), i, o], env=child_env(), cwd=tmp,
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
        )
        procs.append((p, idx, o))
    for p, idx, o in procs:
        try:
            _, err = p.communicate(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
        if os.path.exists(o):
            for k, r in zip(idx, json.load(open(o))):
                out[k] = r
        else:
            for k in idx:
                out[k] = dict(fails=[], exc=None, crash=(err or b"").decode()[-1500:], obs={}, assumed=True, skipped=False)
    import shutil

    shutil.rmtree(tmp, ignore_errors=True)
    return out


def failed(rep):
    return bool(rep and not rep.get("crash") and (rep["fails"] or (rep["assumed"] and rep["exc"] and rep["exc"] != "timeout")))


def confirm(prop, tries=8, done=3):
    """a function for spread: replays the first counterexamples of an
    obligation on the real code as soon as they are found, and says when there
    are enough confirmed ones"""
    if known_findings(prop) or os.environ.get("VSX_ALL"):
        return None
    n = dict(tried=0, hit=0, t=None)

    def enough(r):
        if r is None or "error" in r or n["tried"] >= tries:
            return n["hit"] > 0 and time.time() - n["t"] > 20
        jobs = [dict(module=r["module"], fn=r["fn"], cfg=r["cfg"], val=v) for c in r["cands"][:2] for v in c["vals"][:1]]
        if jobs and n["hit"] < done:
            n["tried"] += 1
            if any(failed(x) for x in run_replays(jobs, prop)):
                n["hit"] += 1
                n["t"] = n["t"] or time.time()
        return n["hit"] >= done or n["hit"] > 0 and time.time() - n["t"] > 20

    return enough


def rounds(jobs, info, prop, first=32):
    """replay; with many counterexamples, a first batch (one per obligation
    before second ones) decides whether the others are needed"""
    cand = [i for i, x in enumerate(info) if x[0] == "cand"]
    if len(cand) <= first:
        return run_replays(jobs, prop)
    seen, a, b = set(), [], []
    for i in cand:
        k = info[i][1]["name"]
        (b if k in seen else a).append(i)
        seen.add(k)
    step = max(1, len(a) // first)
    batch = (a[::step] + b)[:first]
    out = [None] * len(jobs)
    for i, r in zip(batch, run_replays([jobs[i] for i in batch], prop)):
        out[i] = r
    kf = known_findings(prop)
    if not kf and any(failed(out[i]) for i in batch):
        return out
    rest = [i for i in range(len(jobs)) if out[i] is None]
    for i, r in zip(rest, run_replays([jobs[i] for i in rest], prop)):
        out[i] = r
    return out


def mismatch(a, b, path=""):
    """first difference between predicted and observed values"""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        flat = [abs(x) for x in a if isinstance(x, (int, float)) and not isinstance(x, bool) and math.isfinite(x)]
        big = max(flat, default=0.0)
        for i, (x, y) in enumerate(zip(a, b)):
            r = mismatch2(x, y, f"{path}[{i}]", big)
            if r:
                return r
        return None
    return mismatch2(a, b, path, 0.0)


def mismatch2(a, b, path, big):
    if isinstance(a, list) or isinstance(b, list):
        return mismatch(a, b, path) if isinstance(a, list) and isinstance(b, list) else f"{path}: {a} vs {b}"
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{path}: keys {sorted(a)} vs {sorted(b)}"
        for k in a:
            r = mismatch(a[k], b[k], f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
            return None if (a != a and b != b) else f"{path}: {a} vs {b}"
        if math.isinf(a) or math.isinf(b):
            return None if a == b else f"{path}: {a} vs {b}"
        if abs(a - b) > 1e-5 * max(abs(a), abs(b)) + 1e-8 * big + 1e-9:
            return f"{path}: predicted {a} observed {b}"
        return None
    if a != b:
        return f"{path}: {a!r} vs {b!r}"
    return None


def known_findings(prop):
    """[(label, obligation-prefix, text)] of recorded findings"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN property="):
                d = json.loads(line.split(" ", 2)[2])
                if line.split(" ", 2)[1] == "property=" + prop:
                    out.append(d)
    return out


def run_property(prop, obs, meta, tier, seed=1):
    t0 = time.time()
    from . import core, loader  # noqa: F401  (imported before forking)

    nv = 1 if tier == "quick" else 3
    obs = sorted(obs, key=lambda o: -o.budget_s)
    results = spread([(o, nv) for o in obs], enough=confirm(prop))
    left = sum(r is None for r in results)
    results = [r for r in results if r is not None]
    t_explore = time.time() - t0
    problems, violations, kf_hit = [], [], []

    # ---- replay
    jobs, info = [], []
    cap = 24 if tier == "quick" else 160
    pool_ = [(r, v) for r in results if "error" not in r for v in r["valid"]]
    byfn = {}
    for r, v in pool_:
        byfn.setdefault(r["fn"], []).append((r["name"], id(v)))
    chosen = set()
    rng = random.Random(seed)
    for q in byfn.values():
        rng.shuffle(q)
    while len(chosen) < min(cap, len(pool_)):
        for q in byfn.values():
            if q and len(chosen) < cap:
                chosen.add(q.pop())
    for r in results:
        if "error" in r:
            problems.append(f"{r['name']}: {r['error']}")
            continue
        for ci, c in enumerate(r["cands"]):
            for v in c["vals"]:
                jobs.append(dict(module=r["module"], fn=r["fn"], cfg=r["cfg"], val=v))
                info.append(("cand", r, ci, None))
        for v in r["valid"]:
            if (r["name"], id(v)) not in chosen:
                continue
            jobs.append(dict(module=r["module"], fn=r["fn"], cfg=r["cfg"], val=v["val"]))
            info.append(("valid", r, None, v))
    reps = rounds(jobs, info, prop)
    t_replay = time.time() - t0 - t_explore
    ran = {(i[1]["name"], i[2]) for i, x in zip(info, reps) if x is not None}
    hit = {}
    validated = 0
    agree = {}
    for job, (kind, r, ci, v), rep in zip(jobs, info, reps):
        if rep is None:
            continue
        if rep.get("crash"):
            problems.append(f"{r['name']}: replay process failed: {rep['crash'][-300:]}")
            continue
        bad = None
        if rep["assumed"] and rep["exc"] and rep["exc"] != "timeout":
            bad = "exception " + rep["exc"]
        elif rep["fails"]:  # found before an assumption failed, if one did
            bad = "; ".join(f"{a}: {b}" for a, b in rep["fails"][:3])
        if bad:
            hit.setdefault((r["name"], ci if kind == "cand" else "v"), (r, job, bad, rep))
        if kind == "valid":
            ok = True
            why = None
            if rep["exc"] == "timeout":
                ok, why = False, "timeout"
            elif not rep["assumed"]:
                ok, why = False, "an assumption does not hold in floating point"
            elif not bad:
                for k, x in v["obs"].items():
                    if k not in rep["obs"]:
                        ok, why = False, f"{k} was not observed"
                        break
                    why = mismatch(x, rep["obs"][k], k)
                    if why:
                        ok = False
                        break
            if ok and not bad:
                validated += 1
                agree[r["name"]] = True
            elif not bad:
                agree.setdefault(r["name"], why)
    for n, why in agree.items():
        if why is not True:
            problems.append(f"{n}: trace of the real code disagrees with the encoding: {why}")
    for r in results:
        if "error" in r:
            continue
        for ci, c in enumerate(r["cands"]):
            if (r["name"], ci) not in hit and not (hit and (r["name"], ci) not in ran):
                if c["hard"]:
                    problems.append(
                        f"{r['name']}: counterexample to '{c['label']}' did not reproduce ({c['what']}) {c['vals'][:1]}"
                    )
        if r["unknown"]:
            problems.append(f"{r['name']}: solver gave no verdict on {r['unknown'][:2]}")
        for x in r["incon"]:
            problems.append(f"{r['name']}: {x}")
        if not r["witness"] and not r["cands"]:
            problems.append(f"{r['name']}: vacuous (no satisfiable path reaches the end)")

    kfs = known_findings(prop)
    seen = set()
    for (n, ci), (r, job, bad, rep) in hit.items():
        k = next((d for d in kfs if n.startswith(d["obligation"]) and d["fails"] in bad), None)
        if k:
            kf_hit.append(k["what"])
            continue
        key = (n, bad[:80])
        if key in seen:
            continue
        seen.add(key)
        violations.append((r, job, bad))

    # ---- report
    rd = os.path.join(ROOT, "replays")
    lines = []
    for i, (r, job, bad) in enumerate(violations[:5]):
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, f"{prop}-{i}.json")
        json.dump(dict(property=prop, obligation=r["name"], what=bad, job=job), open(p, "w"), indent=1, default=str)
        lines.append(f"VIOLATION property={prop} replay={p}")
        print(f"  {r['name']}: {bad}", flush=True)
    for w in sorted(set(kf_hit)):
        print(f"KNOWN-FINDING: property={prop} {w}")
    good = [r for r in results if "error" not in r]
    wall = time.time() - t0
    S = lambda k: sum(r[k] for r in good)  # noqa: E731
    funcs = sorted(set(f for r in good for f in r["funcs"]))
    by = {k: sum(r["by"][k] for r in good) for k in ("nf", "lin", "smt", "nlsat", "cross")}
    verdict = "violated" if violations else ("inconclusive" if problems else "held")
    samples = []
    for job, (kind, r, ci, v), rep in zip(jobs, info, reps):
        if kind == "valid" and rep and len(samples) < 6:
            samples.append(dict(obligation=r["name"], inputs=job["val"], observed=_short(rep.get("obs"))))
    if not samples:
        samples = [dict(obligation=r["name"], paths=r["paths"], checks=r["checks"]) for r in good[:6]]
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        wall_s=round(wall, 2),
        violations=len(violations),
        coverage=dict(
            states=S("paths"),
            transitions=S("branches"),
            traces_validated_against_impl=validated,
            samples=samples,
            obligations=len(results),
            assertions_decided=S("checks"),
            infeasible_paths=S("infeasible"),
            solver_queries=S("queries"),
            solver_seconds=round(S("solver_s"), 3),
            decided_by={k: v for k, v in by.items() if k != "cross"},
            normal_form_equalities_confirmed_by_solver=by["cross"],
            counterexamples_from_solver=sum(len(r["cands"]) for r in good),
            concrete_replays=sum(1 for x in reps if x is not None),
            explore_s=round(t_explore, 1),
            replay_s=round(t_replay, 1),
            functions_encoded=funcs,
            obligations_left_after_violation=left,
            reachability_witnesses=sum(1 for r in good if r["witness"]),
            verdict=verdict,
            explanation="states = symbolic paths explored, transitions = branch decisions resolved by the solver",
            bounds=meta.get("bounds", ""),
            outside=meta.get("outside", ""),
        ),
        assumptions=meta.get("assumptions", []),
        details=[
            dict(name=r["name"], paths=r["paths"], checks=r["checks"], wall_s=round(r["wall"], 2), reached=r["reached"])
            for r in good
        ],
        problems=problems[:20],
    )
    return ev, lines, problems, results


def _short(o):
    t = json.dumps(o, default=str)
    return o if len(t) < 1200 else t[:1200] + "..."
