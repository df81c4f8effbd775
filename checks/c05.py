from symex.api import *
import pydatastructs.linear_data_structures.algorithms as A
from pydatastructs import OneDimensionalArray as ODA, DynamicOneDimensionalArray as DODA
from pydatastructs import upper_bound, lower_bound

BOUNDS = {
    "quick": "ordered arrays of up to 7 unbounded integers with duplicates, every slice [start, end) including empty ones, ascending and descending comparators and one comparing by a derived key; 150 seeded arrays per bound of 8 to 33 cells, any slice, with a free value",
    "thorough": "up to 12 cells (slices: 9)"}
ASSUMPTIONS = ["the comparator is a strict weak order and the slice is in its order", "the slice holds no None"]
COMPS = {None: lambda x, y: lt(x, y), "gt": lambda x, y: gt(x, y), "half": lambda x, y: lt(x // 2, y // 2)}
REAL = {"gt": lambda x, y: x > y, "half": lambda x, y: x // 2 < y // 2}


def bound(ctx, alg, n, comp=None, slice_=True, lst=False):
    xs = [ctx.int("x%d" % i) for i in range(n)]
    before = COMPS[comp]
    s, e, kw = 0, n, {}
    if slice_:
        s = ctx.choice("start", n + 1)
        e = s + ctx.choice("len", n - s + 1)
        kw = dict(start=s, end=e)
    ctx.assume(And([Not(before(xs[i + 1], xs[i])) for i in range(s, e - 1)]))
    if comp:
        kw["comp"] = REAL[comp]
    if lst:
        arr = list(xs)
    else:
        arr = ODA(ctx.dtype, n)
        for i, x in enumerate(xs):
            arr[i] = x
    v = ctx.int("v")
    r = getattr(A, alg)(arr, v, **kw)
    ctx.reach("end" if r == e else "inside")
    ctx.check(s <= r <= e, alg + ": outside the slice")
    if alg == "lower_bound":
        ctx.check(And([before(x, v) for x in xs[s:r]]), alg + ": an earlier element is not before the value")
        ctx.check(And([Not(before(x, v)) for x in xs[r:e]]), alg + ": an element from the bound on is before the value")
    else:
        ctx.check(And([Not(before(v, x)) for x in xs[s:r]]), alg + ": an earlier element is after the value")
        ctx.check(And([before(v, x) for x in xs[r:e]]), alg + ": an element from the bound on is not after the value")
    ctx.check(seq_eq([arr[i] for i in range(n)], xs), alg + ": the array was changed")


def large(ctx, alg, seeds):
    import random
    rng = random.Random(32452843 * (1 + ctx.choice("seed", seeds)))
    n = rng.choice([8, 9, 15, 16, 17, 31, 32, 33])
    comp = rng.choice(list(COMPS))
    before = COMPS[comp]
    s, e, kw = 0, n, {}
    if rng.random() < 0.6:
        s = rng.randrange(n + 1)
        e = rng.randrange(s, n + 1)
        kw = dict(start=s, end=e)
    if comp:
        kw["comp"] = REAL[comp]
    xs = [rng.randrange(-n, n) for _ in range(n)]
    xs[s:e] = sorted(xs[s:e], reverse=comp == "gt")
    xs = [ctx.const(10 * x) for x in xs]
    arr = ODA(ctx.dtype, n)
    for i, x in enumerate(xs):
        arr[i] = x
    v = ctx.int("v")
    r = getattr(A, alg)(arr, v, **kw)
    ctx.reach("end" if r == e else "inside")
    ctx.check(s <= r <= e, alg + ": outside the slice")
    if alg == "lower_bound":
        ctx.check(And([before(x, v) for x in xs[s:r]] + [Not(before(x, v)) for x in xs[r:e]]), alg + ": wrong position in a large array")
    else:
        ctx.check(And([Not(before(v, x)) for x in xs[s:r]] + [before(v, x) for x in xs[r:e]]), alg + ": wrong position in a large array")


def jobs(tier):
    q = tier == "quick"
    out = []
    for alg in ("lower_bound", "upper_bound"):
        for comp in COMPS:
            out.append(Job("%s/%s/full" % (alg, comp), bound, dict(alg=alg, n=7 if q else 12, comp=comp, slice_=False), reach=["end", "inside"]))
            for k in range(1, 7 if q else 10):
                out.append(Job("%s/%s/slice%d" % (alg, comp, k), bound, dict(alg=alg, n=k, comp=comp), reach=["end", "inside"]))
        out.append(Job("%s/large" % alg, large, dict(alg=alg, seeds=150 if q else 800), reach=["end", "inside"]))
        out.append(Job("%s/list" % alg, bound, dict(alg=alg, n=4, lst=True), reach=["end", "inside"]))
        out.append(Job("%s/empty" % alg, bound, dict(alg=alg, n=0, slice_=False), reach=["end"]))
    return out
