from .core import printing, Num, Str, is_num, sym_ord, sym_chr, sym_str, INF
from .explore import (T, And, Or, Not, Implies, Iff, If, eq, ne, le, lt, ge, gt, Sum, Min, Max,
                      seq_eq, is_perm, sorted_nd, Unsupported)
from .runner import Job
from .stubs import pool_class, patched


def half_values(ctx, harness, **cfg):
    """Run a harness on inputs that are multiples of 1/2 instead of integers."""
    import importlib
    mod, fn = harness.rsplit(".", 1)
    ctx.halves()
    getattr(importlib.import_module(mod), fn)(ctx, **cfg)


def halves(job, name=None):
    """The same job on fractional values."""
    return Job(name or job.name + "/half", half_values, dict(job.cfg, harness=job.fn.__module__ + "." + job.fn.__name__),
               job.path_timeout, job.budget, job.reach, job.validate_every, job.max_paths)


class Seeded:
    """A context that answers the inputs of the first n steps (the trailing
    number of their names) from a pseudo-random sequence and leaves the later
    ones free: grows a large structure before the part that is decided."""

    def __init__(self, ctx, seed, n, span=12):
        import random
        self._ctx, self._n, self._rng = ctx, n, random.Random(982451653 * (seed + 1))
        self._step = self._tosses = 0
        self._span = self._rng.choice([3, span, 10 * span]) if span else None

    def __getattr__(self, name):
        return getattr(self._ctx, name)

    def early(self, name):
        t = name.rstrip("0123456789")
        if t == name:
            return False
        if t != "coin":
            self._step = int(name[len(t):])
        return self._step < self._n

    def choice(self, name, k):
        if self.early(name) and k >= 1:
            return self._rng.randrange(k)
        if name.startswith("coin"):
            self._tosses += 1
            if self._tosses > 4:
                return k - 1
        return self._ctx.choice(name, k)

    def flag(self, name):
        return bool(self.choice(name, 2))

    def int(self, name, lo=None, hi=None, default=None):
        if not self.early(name):
            return self._ctx.int(name, lo, hi, default)
        a = -self._span // 2 if lo is None else lo
        return self._ctx.const(self._rng.randint(a, a + self._span if hi is None else hi))


def seeded(ctx, grow, seeds, n, **cfg):
    """Run a history harness whose first n steps follow one of several
    pseudo-random sequences (which one is chosen by the solver)."""
    import importlib
    mod, fn = grow.rsplit(".", 1)
    getattr(importlib.import_module(mod), fn)(Seeded(ctx, ctx.choice("seed", seeds), n), **cfg)


def grown(name, fn, cfg, seeds, n, reach=("done",), path_timeout=30, budget=None):
    return Job(name, seeded, dict(cfg, grow=fn.__module__ + "." + fn.__name__, seeds=seeds, n=n), path_timeout=path_timeout, budget=budget, reach=list(reach))
