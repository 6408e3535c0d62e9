"""Path exploration of one obligation."""
from __future__ import annotations

import importlib
import random
import time
import traceback

from . import core, env as envm, loader


class Result:
    def __init__(self, ob):
        self.ob = ob
        self.name = ob.name
        self.paths = 0
        self.infeasible = 0
        self.skipped = 0
        self.branches = 0
        self.nchecks = 0
        self.how = {}
        self.reached = set()
        self.unknown = []
        self.cands = []  # dict(label, what, vals, hard)
        self.valid = []  # dict(val, obs)
        self.incon = []
        self.witness = False
        self.funcs = set()
        self.stats = None
        self.wall = 0.0
        self._rng = random.Random(20240229)

    def candidate(self, env, label, node, what, hard):
        c = env.c
        same = [x for x in self.cands if x["label"] == label]
        if len(same) >= 2:
            same[-1]["more"] = same[-1].get("more", 0) + 1
            return
        extra = []
        if node[0] != "const":
            extra = [core.node_z3(core.nnot(node))]
        vals = []
        try:
            for v in c.sample(core.nnot(node) if node[0] != "const" else None, want=2):
                vals.append(pack(v))
        except Exception as e:  # noqa: BLE001
            self.incon.append("sample: %s" % e)
        try:
            for v in c.models(extra, self._rng, tries=3):
                vals.append(pack(v))
        except core.z3.Z3Exception as e:
            self.incon.append("model: %s" % e)
        self.cands.append(dict(label=label, what=str(what)[:3000], vals=vals, hard=hard))

    def out(self):
        st = self.stats
        return dict(
            name=self.name, cfg=self.ob.cfg, module=self.ob.module, fn=self.ob.fn, paths=self.paths,
            infeasible=self.infeasible, skipped=self.skipped, branches=st.branches, checks=self.nchecks, how=self.how,
            reached=sorted(self.reached), unknown=self.unknown[:5], cands=self.cands, valid=self.valid,
            incon=self.incon[:5], witness=self.witness, funcs=sorted(self.funcs), queries=st.queries + st.feas,
            solver_s=st.solver_s, by=dict(nf=st.by_nf, lin=st.by_lin, smt=st.by_smt, nlsat=st.by_nlsat, cross=st.cross),
            wall=self.wall, bound=self.ob.bound,
        )


def pack(v):
    out = {}
    for k, x in v.items():
        if isinstance(x, core.F):
            out[k] = str(x) if len(str(x)) < 60 else repr(float(x))
        else:
            out[k] = x
    return out


def unpack(v):
    return {k: (core.F(x) if isinstance(x, str) else x) for k, x in v.items()}


def flip(dec):
    v, _ = dec
    if isinstance(v, tuple):
        return ((False, v[1]), False)
    return (not v, False)


def explore(ob, nvalid=1):
    res = Result(ob)
    st = core.Stats()
    res.stats = st
    loader.Trace.funcs = set()
    mod = importlib.import_module(ob.module)
    fn = getattr(mod, ob.fn)
    todo = [[]]
    t0 = time.time()
    while todo:
        prefix = todo.pop()
        if res.paths >= ob.max_paths:
            res.incon.append(f"path bound {ob.max_paths} reached")
            break
        if time.time() - t0 > ob.budget_s:
            res.incon.append(f"time budget {ob.budget_s}s reached")
            break
        if len(res.cands) >= 6 or time.time() - t0 > 30 and any(x["hard"] for x in res.cands):
            break
        c = core.Ctx(prefix, st)
        core.Ctx.cur = c
        res.paths += 1
        ncand = len(res.cands)
        e = None
        ended = "ok"
        try:
            try:
                e = envm.SymEnv(c, res)
                fn(e, **ob.cfg)
                if c.dead is not None:
                    raise c.dead
            except BaseException as x:
                if c.dead is not None:
                    raise c.dead from x
                raise
        except core.PathAbort:
            res.infeasible += 1
            ended = "infeasible"
        except envm.Skip:
            res.skipped += 1
            ended = "skip"
        except (core.Unsupported, core.Inconclusive) as x:
            ended = "incon"
            res.incon.append(f"{type(x).__name__}: {x} at {where(x)}")
            if e is not None:
                res.candidate(e, "(inconclusive path)", core.nconst(True), str(x), hard=False)
        except (KeyboardInterrupt, MemoryError, SystemExit):
            raise
        except Exception as x:  # the code under test raised
            ended = "exc"
            r, _ = c.check_z3([])
            if r == core.z3.unsat:
                res.infeasible += 1
                ended = "infeasible"
            else:
                what = f"{type(x).__name__}: {x} at {where(x)}"
                res.candidate(e, "unexpected exception", core.nconst(True), what, hard=True)
        # new prefixes
        new = []
        for i in range(len(prefix), len(c.decisions)):
            if c.decisions[i][1]:
                new.append(c.decisions[:i] + [flip(c.decisions[i])])
        todo.extend(new)
        if ended == "ok":
            if not res.witness:
                # reachability twin: `assert False` at the end must be violated
                how, _ = c.prove(core.nconst(False))
                res.witness = how == "sat" and bool(res.nchecks)
            if res.paths == 1:
                crosscheck(res, c, e)
            if len(res.cands) == ncand and len(res.valid) < nvalid and (res.paths == 1 or not todo or res._rng.random() < 0.3):
                validate(res, c, e)
    res.funcs = set(loader.Trace.funcs)
    res.wall = time.time() - t0
    core.Ctx.cur = None
    return res.out()


def crosscheck(res, c, e):
    """equalities decided by the normal form, handed to the solver as they are"""
    z3 = core.z3
    # (numbers such as sin(1) reach the solver rounded to 40 digits)
    gs = [(a, x, y) for a, x, y in e.goals if len(x.t) + len(y.t) <= 40 and not rounded(c, x.t) and not rounded(c, y.t)]
    if not gs:
        return
    goal = z3.Or([core.real_z3(x) != core.real_z3(y) for _, x, y in gs])
    r, _ = c.check_z3([goal], 2000)
    if r == z3.unsat:
        c.stats.cross += len(gs)
    elif r == z3.sat:
        res.incon.append("solver and normal form disagree on one of %s" % sorted({a for a, _, _ in gs}))


def rounded(c, t):
    return any(core.const_atom(c.atoms[a]) is not False for m in t for a, _ in m)


def validate(res, c, e):
    for v in c.sample(None) or c.models([], res._rng, tries=1):
        ev = core.Evaluator(c, v)
        obs = {}
        for k, x in e.obs.items():
            try:
                obs[k] = evalobs(ev, x)
            except (core.NoValue, ArithmeticError, ValueError, core.z3.Z3Exception):
                continue
        res.valid.append(dict(val=pack(v), obs=obs, n=len(obs)))
        return


def evalobs(ev, x):
    import numpy as np

    if isinstance(x, np.ndarray):
        return [evalobs(ev, y) for y in x] if x.ndim else evalobs(ev, x.item())
    if isinstance(x, (list, tuple)):
        return [evalobs(ev, y) for y in x]
    if isinstance(x, dict):
        return {str(k): evalobs(ev, y) for k, y in x.items()}
    if isinstance(x, (core.SymReal, core.SymInt, core.SymBool)):
        return ev.real(x)
    if getattr(x, "_sp", False):
        return evalobs(ev, x.a)
    return envm._plain(x)


def where(x):
    tb = traceback.extract_tb(x.__traceback__)
    fr = [f for f in tb if loader.REPO in f.filename]
    f = (fr or tb)[-1] if (fr or tb) else None
    return f"{f.filename.split('/')[-1]}:{f.lineno}" if f else "?"
