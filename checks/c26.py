import math
from symex.api import *
import pydatastructs.miscellaneous_data_structures.sparse_table as st_mod
from pydatastructs import (RangeQueryStatic, RangeQueryDynamic, SparseTable, ArraySegmentTree, OneDimensionalArray as ODA,
                           minimum, summation, greatest_common_divisor)

BOUNDS = {
    "quick": "sparse table, precomputed array, segment tree and plain array: sums and ordered concatenation (which stands for every associative function) over 1 to 9, 16, 17 and 33 unbounded integers, minima and maxima over up to 4 (with one free update), greatest common divisors over 3 values in -2..4; up to three updates of unbounded integers at free positions; every range after construction and after every update (33: a sample), and the rejection of empty ranges and of ranges that leave the array; minima over 24 cells with two free values",
    "thorough": "every size 1 to 20, minima over up to 5, 4 updates, minima over 150 cells"}
ASSUMPTIONS = ["the aggregating function is associative, maps a 1-tuple to its element and ignores None, as documented",
               "the sparse table's cells accept the solver's integers: its element type int is replaced by the harness's"]
HALVES = ["*/min/[14]", "*/max/[14]", "*/sum/[1-6]"]


def concat(t):
    if len(t) == 1:
        return t[0]
    a, b = t
    if a is None or b is None:
        return a if b is None else b
    return a + b


def maximum(t):
    if len(t) == 1:
        return t[0]
    a, b = t
    if a is None or b is None:
        return a if b is None else b
    return a if a >= b else b


FUNCS = {"min": minimum, "sum": summation, "gcd": greatest_common_divisor, "concat": concat, "max": maximum}


def is_agg(fn, got, xs):
    if got is None:
        return False
    if fn == "sum":
        return eq(got, Sum(xs))
    if fn == "gcd":
        return eq(got, math.gcd(*[int(x) for x in xs])) if len(xs) > 1 else eq(got, xs[0])
    if fn == "concat":
        want = [y for x in xs for y in x]
        return And(len(got) == len(want), *[eq(a, b) for a, b in zip(got, want)])
    return And(*[le(got, x) if fn == "min" else ge(got, x) for x in xs] + [Or(*[eq(got, x) for x in xs])])


def value(ctx, fn, name):
    if fn == "gcd":
        return ctx.int(name, -2, 4)
    x = ctx.int(name)
    return (x,) if fn == "concat" else x


def make(ctx, kind, arr, fn):
    f = FUNCS[fn]
    dtype = tuple if fn == "concat" else ctx.dtype
    with patched(st_mod, OneDimensionalArray=lambda t, n: ODA(dtype, n)):
        if kind == "sparse":
            return RangeQueryStatic(arr, f)
        if kind == "sparse2":
            return RangeQueryStatic(arr, f, data_structure="sparse_table")
        if kind == "static":
            return RangeQueryStatic(arr, f, data_structure="array")
        if kind == "dynamic":
            return RangeQueryDynamic(arr, f, data_structure="array")
        if kind == "segment":
            return RangeQueryDynamic(arr, f)
        if kind == "table":
            return SparseTable(arr, f)
        t = ArraySegmentTree(arr, f)
        for g in (lambda: t.query(0, 0), lambda: t.update(0, arr[0])):
            try:
                g()
                ctx.fail("segment tree answered before it was built")
            except ValueError:
                pass
        t.build()
        t.build()
        return t


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False


def table(ctx, kind, q, fn, cur, when, step=1):
    n = len(cur)
    ok = []
    for i in range(n):
        for j in range(i, n):
            if step == 1 or (i * 7 + j * 3) % step == 0:
                ok.append(is_agg(fn, q.query(i, j), cur[i:j + 1]))
    ctx.check(And(*ok), "aggregate of a range " + when)
    if kind in ("table", "tree"):
        return
    for i, j in [(0, -1), (n - 1, n - 2), (0, -3)] + ([(1, 0)] if n > 1 else []):
        ctx.check(raises(ValueError, lambda: q.query(i, j)), "empty range not rejected")
    for i, j in [(0, n), (-1, 0), (n, n), (n - 1, n + 2), (-1, n), (-2, -2)]:
        ctx.check(raises(IndexError, lambda: q.query(i, j)), "range outside the array not rejected")


def run(ctx, kind, fn, n, k, arr="oda", step=1):
    xs = [value(ctx, fn, "x%d" % i) for i in range(n)]
    dtype = tuple if fn == "concat" else ctx.dtype
    if arr == "list":
        a = list(xs)
    else:
        a = ODA(dtype, list(xs))
    q = make(ctx, kind, a, fn)
    table(ctx, kind, q, fn, xs, "after construction", step)
    for j in range(k):
        p, v = ctx.choice("p%d" % j, n), value(ctx, fn, "v%d" % j)
        q.update(p, v)
        xs[p] = v
        table(ctx, kind, q, fn, xs, "after an update", step)
    ctx.check(And(len(a) == n, *[And(*[eq(y, z) for y, z in zip(a[i], xs[i])]) if fn == "concat" else eq(a[i], xs[i]) for i in range(n)]), "the array does not hold the current elements")
    ctx.reach("done")


def wide(ctx, kind, fn, n, update):
    """minima over a long array with free values at two free positions"""
    xs = [ctx.const(((i * 37) % 41) * 10) for i in range(n)]
    spots = sorted({0, n // 2 - 1, n // 2, n - 1} if n < 50 else {0, 1, n // 2 - 1, n // 2, n - 2, n - 1, n // 3})
    p = spots[ctx.choice("p", len(spots))]
    xs[p] = ctx.int("x")
    a = ODA(ctx.dtype, list(xs))
    q = make(ctx, kind, a, fn)
    if update:
        p = spots[ctx.choice("u", len(spots))]
        xs[p] = ctx.int("v")
        q.update(p, xs[p])
    ok = []
    for i, j in {(i, j) for i in spots for j in spots if i <= j} | {(max(0, p - d), min(n - 1, p + e)) for d in range(4) for e in range(4)}:
        ok.append(is_agg(fn, q.query(i, j), xs[i:j + 1]))
    ctx.check(And(*ok), "aggregate of a range of a long array")
    ctx.reach("done")


def empty(ctx):
    k = ctx.choice("kind", 4)
    for a in ([], ODA(int, 0)):
        f = [lambda: RangeQueryStatic(a, minimum), lambda: RangeQueryStatic(a, minimum, data_structure="array"),
             lambda: RangeQueryDynamic(a, minimum), lambda: RangeQueryDynamic(a, minimum, data_structure="array")][k]
        ctx.check(raises(ValueError, f), "empty array not rejected")
    ctx.reach("done")


STATIC, DYNAMIC = ["sparse", "sparse2", "static", "table"], ["dynamic", "segment", "tree"]


def jobs(tier):
    q = tier == "quick"
    out = [Job("empty", empty, {}, reach=["done"])]
    for kind in STATIC + DYNAMIC:
        dyn = kind in DYNAMIC
        main = kind not in ("sparse2",)
        for fn in ("sum", "concat"):
            sizes = list(range(1, 10)) + [16, 17, 33] if q else list(range(1, 21)) + [31, 32, 33]
            for n in sizes if main else (5,):
                k = (3 if n <= 3 else 2 if n <= 5 else 1) if q else (4 if n <= 3 else 3 if n <= 5 else 2 if n <= 9 else 1)
                arr = ["oda", "list"][n % 2]
                out.append(Job("%s/%s/%d" % (kind, fn, n), run, dict(kind=kind, fn=fn, n=n, k=k if dyn else 0, arr=arr, step=1 if n < 10 else 3 if n < 30 else 11), reach=["done"], path_timeout=30))
        for fn in ("min", "max"):
            for n in range(1, 5 if q or dyn else 6):
                out.append(Job("%s/%s/%d" % (kind, fn, n), run, dict(kind=kind, fn=fn, n=n, k=(1 if n < 4 or not q else 0) if dyn else 0), reach=["done"]))
            if not q and dyn:
                out.append(Job("%s/%s/3+2" % (kind, fn), run, dict(kind=kind, fn=fn, n=3, k=2), reach=["done"]))
            out.append(Job("%s/%s/wide" % (kind, fn), wide, dict(kind=kind, fn=fn, n=24 if q else 150, update=dyn), reach=["done"], path_timeout=30))
        out.append(Job("%s/gcd" % kind, run, dict(kind=kind, fn="gcd", n=3, k=1 if dyn and not q else 0), reach=["done"]))
    return out
