"""Replays inputs against the real package (separate process, no
instrumentation).   usage: replay.py jobs.json out.json"""
import contextlib
import importlib
import io
import json
import os
import signal
import sys
import traceback
import warnings
from fractions import Fraction as F

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSX_REPO", "/repo")


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_job(job):
    from vsx.env import ConEnv, Skip

    val = {k: (F(x) if isinstance(x, str) else x) for k, x in job["val"].items()}
    out = dict(fails=[], exc=None, skipped=False, obs={}, assumed=True)
    sink = io.StringIO()
    cwd = os.getcwd()
    env = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(job.get("timeout", 100)))
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn = getattr(importlib.import_module(job["module"]), job["fn"])
            env = ConEnv(val)
            fn(env, **job["cfg"])
    except Skip:
        out["skipped"] = True
    except Timeout:
        out["exc"] = "timeout"
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        fr = [f for f in tb if REPO + "/" in f.filename] or tb[-1:]
        out["exc"] = f"{type(e).__name__}: {e} at {fr[-1].filename}:{fr[-1].lineno}"
    finally:
        signal.alarm(0)
        os.chdir(cwd)
    if env is not None:
        env.close()
        out["fails"], out["obs"], out["assumed"] = env.fails, env.obs, env.assumed
    return out


def main(inp, outp):
    sys.path.insert(0, REPO)
    sys.path.insert(0, HERE)
    import numpy as np

    np.seterr(all="ignore")
    jobs = json.load(open(inp))
    res = []
    for j in jobs:
        res.append(run_job(j))
    json.dump(res, open(outp, "w"), default=str)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
