"""Obligation without engine imports (usable in the replay process)."""


class Obligation:
    def __init__(self, fn, cfg=None, name=None, max_paths=600, budget_s=240, bound="", module=None):
        self.fn = fn if isinstance(fn, str) else fn.__name__
        self.module = module or (None if isinstance(fn, str) else fn.__module__)
        self.prop = None
        self.cfg = cfg or {}
        self.name = name or self.fn + ("" if not self.cfg else "[" + ",".join(f"{k}={_s(v)}" for k, v in self.cfg.items()) + "]")
        self.max_paths = max_paths
        self.budget_s = budget_s
        self.bound = bound


def _s(v):
    if isinstance(v, (tuple, list)) and all(isinstance(x, int) for x in v):
        return "x".join(map(str, v))
    return v
