import random as _random
from symex.api import *
from pydatastructs import Multiset

BOUNDS = {
    "quick": "constructors with up to 4 and histories of up to 4 additions and removals of unbounded integers (equal or not, present or not), then removals in a free order until empty; one free addition or removal after 30 fixed histories of 60 operations on up to 15 values; counts, membership, size and lower and upper bounds (of free values in the short histories) after every operation",
    "thorough": "6 operations, two free operations after 150 fixed histories"}
ASSUMPTIONS = ["values are hashable and totally ordered"]


class Multi:
    def __init__(self, ctx, args=()):
        self.ctx, self.m = ctx, Multiset(*args)
        self.vals, self.cnt = [], []
        for a in args:
            self.note(a, 1)

    def idx(self, v):
        for i, x in enumerate(self.vals):
            if x == v:
                return i

    def note(self, v, d):
        i = self.idx(v)
        if i is None:
            self.vals.append(v)
            self.cnt.append(max(d, 0))
        else:
            self.cnt[i] = max(0, self.cnt[i] + d)

    def add(self, v):
        self.m.add(v)
        self.note(v, 1)

    def remove(self, v):
        i = self.idx(v)
        try:
            self.m.remove(v)
        except KeyError:
            self.ctx.fail("removing an absent value raises" if i is None or not self.cnt[i] else "removing a present value raises")
        self.note(v, -1)

    def op(self, k, v):
        (self.add if k else self.remove)(v)

    def look(self, probes=()):
        ctx, m = self.ctx, self.m
        ctx.check(len(m) == sum(self.cnt), "total size")
        for v, c in zip(self.vals, self.cnt):
            ctx.check(m.count(v) == c, "count of a value")
            ctx.check((v in m) is (c > 0), "membership of a value")
        live = [v for v, c in zip(self.vals, self.cnt) if c]
        for p in list(self.vals) + list(probes):
            i = self.idx(p)
            if i is None:
                ctx.check(m.count(p) == 0 and p not in m, "count and membership of an absent value")
            for name, got, cand in (("lower", m.lower_bound(p), [v for v in live if v >= p]), ("upper", m.upper_bound(p), [v for v in live if v > p])):
                want = None
                for v in cand:
                    if want is None or v < want:
                        want = v
                ctx.check((got is None) if want is None else (got is not None and got == want), "%s bound" % name)


def history(ctx, init, n, probes, drain):
    M = Multi(ctx, [ctx.int("i%d" % i) for i in range(init)])
    M.look()
    for j in range(n):
        M.op(ctx.flag("add%d" % j), ctx.int("v%d" % j))
        M.look()
    M.look([ctx.int("p%d" % i) for i in range(probes)])
    if drain:
        while sum(M.cnt):
            live = [v for v, c in zip(M.vals, M.cnt) if c]
            M.remove(live[ctx.choice("d%d" % sum(M.cnt), len(live))])
            M.look()
    ctx.reach("done")


def grown(ctx, seeds, n, k):
    rng = _random.Random(179424673 * (1 + ctx.choice("seed", seeds)))
    M = Multi(ctx)
    span = rng.choice([3, 8, 15])
    for j in range(n):
        M.op(rng.random() < (0.7 if j < n // 2 else 0.5), ctx.const(10 * rng.randrange(span)))
        if j % 7 == 0:
            M.look()
    M.look()
    for j in range(k):
        M.op(ctx.flag("add%d" % j), ctx.int("v%d" % j))
        M.look()
    ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    out = []
    for init in range(0, 5):
        out.append(Job("init%d" % init, history, dict(init=init, n=0, probes=1 if init < 4 else 0, drain=init < 4), reach=["done"]))
    for init, n, probes, drain in [(0, 1, 2, True), (0, 2, 1, True), (0, 3, 1, True), (1, 3, 0, False), (2, 2, 0, False)] + ([] if q else [(0, 4, 1, True), (2, 3, 1, False), (0, 5, 0, False), (3, 3, 0, False)]):
        out.append(Job("history%d+%d" % (init, n), history, dict(init=init, n=n, probes=probes, drain=drain), reach=["done"]))
    out.append(Job("grown", grown, dict(seeds=30 if q else 150, n=60, k=1), reach=["done"], path_timeout=30))
    if not q:
        out.append(Job("grown2", grown, dict(seeds=30, n=60, k=2), reach=["done"], path_timeout=30))
    return out
