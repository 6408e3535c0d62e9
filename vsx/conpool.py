"""Deterministic stand-in for ThreadPoolExecutor used when a counterexample
that depends on task order is replayed against the real package."""


class _Future:
    def __init__(self, pool, fn, a):
        self.pool, self.fn, self.a = pool, fn, a
        self.d, self.e, self.v = False, None, None

    def run(self):
        if not self.d:
            self.d = True
            try:
                self.v = self.fn(*self.a)
            except Exception as e:  # noqa: BLE001
                self.e = e

    def result(self, timeout=None):
        self.pool.drain()
        if self.e is not None:
            raise self.e
        return self.v


class Pool:
    order = "fifo"

    def __init__(self, max_workers=None, *a, **k):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.q = []

    def submit(self, fn, *a):
        f = _Future(self, fn, a)
        self.q.append(f)
        return f

    def map(self, fn, *its, **k):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return (f.result() for f in fs)

    def drain(self):
        q, self.q = self.q, []
        if Pool.order in ("lifo",):
            q = q[::-1]
        elif isinstance(Pool.order, (list, tuple)):
            q = [q[i] for i in Pool.order if i < len(q)] + [q[i] for i in range(len(q)) if i not in Pool.order]
        for f in q:
            f.run()

    def shutdown(self, wait=True, **k):
        self.drain()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.drain()
        return False
