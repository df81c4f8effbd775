"""Environment stubs: task pools and randomness under solver control."""
import contextlib


class _Task:
    def __init__(self, pool, fn, a, k):
        self.pool, self.fn, self.a, self.k = pool, fn, a, k
        self.state, self.val, self.exc = 0, None, None

    def run(self):
        if self.state:
            return
        self.state = 1
        try:
            self.val = self.fn(*self.a, **self.k)
        except Exception as e:
            self.exc = e
        self.state = 2

    def result(self, timeout=None):
        self.pool._until(self)
        if self.exc is not None:
            raise self.exc
        return self.val

    def exception(self, timeout=None):
        self.pool._until(self)
        return self.exc

    def done(self):
        return self.state == 2

    def add_done_callback(self, f):
        self.pool._until(self)
        f(self)


def pool_class(ctx, limit=40):
    """A ThreadPoolExecutor whose pending tasks run in an order the solver
    chooses: any pending task may run before an awaited one does."""
    n = [0]

    class Pool:
        def __init__(self, max_workers=None, *a, **k):
            if max_workers is not None and max_workers <= 0:
                raise ValueError("max_workers must be greater than 0")
            self.pend = []

        def _pick(self):
            c = 0
            if len(self.pend) > 1 and n[0] < limit:
                n[0] += 1
                c = ctx.choice("sched%d" % n[0], len(self.pend))
            t = self.pend.pop(c)
            t.run()
            return t

        def _until(self, task):
            while task.state != 2:
                self._pick()

        def submit(self, fn, *a, **k):
            t = _Task(self, fn, a, k)
            self.pend.append(t)
            return t

        def map(self, fn, *its, timeout=None, chunksize=1):
            ts = [self.submit(fn, *a) for a in zip(*its)]
            return (t.result() for t in ts)

        def shutdown(self, wait=True, **k):
            while self.pend:
                self._pick()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.shutdown()
            return False
    return Pool


@contextlib.contextmanager
def patched(obj, **kw):
    """Temporarily set attributes (existing or not)."""
    miss = object()
    old = {k: obj.__dict__.get(k, miss) for k in kw}
    for k, v in kw.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is miss:
                delattr(obj, k)
            else:
                setattr(obj, k, v)


def coin_random(ctx, limit=64):
    """A stand-in for the random module whose outcomes the solver chooses."""
    n = [0]

    def pick(k):
        if n[0] >= limit:
            return k - 1
        n[0] += 1
        return ctx.choice("coin%d" % n[0], k)

    class R:
        @staticmethod
        def getrandbits(k):
            return pick(2 ** k)

        @staticmethod
        def randint(a, b):
            return a + pick(b - a + 1)

        @staticmethod
        def randrange(a, b=None):
            return pick(a) if b is None else a + pick(b - a)

        @staticmethod
        def choice(seq):
            return seq[pick(len(seq))]

        @staticmethod
        def random():
            return (0.25, 0.75)[pick(2)]

        @staticmethod
        def seed(*a):
            pass
    return R
