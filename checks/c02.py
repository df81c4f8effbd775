from symex.api import *
import pydatastructs.linear_data_structures.algorithms as A
from pydatastructs import OneDimensionalArray as ODA, DynamicOneDimensionalArray as DODA
from checks.c01 import spec

BOUNDS = {
    "quick": "arrays of up to 4 cells with None anywhere and every slice; counting sort: values -2..2; radix sort: up to three digits out of {0,1,2}, every value 0..40 for 2 cells, and values with two or three non-zero digits anywhere up to 10^12; bucket sort: values 0..9 and {0,1,2}*1000+{0,1,2}; 100 seeded arrays per algorithm of 7 to 15 cells with empty cells, in any slice, with one value out of 13",
    "thorough": "up to 5 cells; counting -3..3, radix two digits out of 7..9 on 3 cells, every value 0..120 for 2 cells, bucket 0..16"}
ASSUMPTIONS = ["values are integers, non-negative for bucket and radix sort", "slices are non-empty and within the array"]


def value(ctx, name, kind, lo, hi, digits):
    if kind == "digits":
        v = 0
        for k in range(digits):
            v = v + (10 ** k) * ctx.int("%s.d%d" % (name, k), lo, hi)
        return v
    if kind == "spread":  # non-zero digits only at the given places
        v = 0
        for k in digits:
            v = v + (10 ** k) * ctx.int("%s.d%d" % (name, k), lo, hi)
        return v
    return ctx.int(name, lo, hi)


def sort(ctx, alg, n, kind, lo, hi, digits=1, nones=True, slice_=True, dynamic=False):
    xs = []
    arr = DODA(ctx.dtype, 0) if dynamic else ODA(ctx.dtype, n)
    for i in range(n):
        if nones and not dynamic and ctx.flag("none%d" % i):
            xs.append(None)
        else:
            xs.append(value(ctx, "x%d" % i, kind, lo, hi, digits))
            if dynamic:
                arr.append(xs[-1])
            else:
                arr[i] = xs[-1]
    if dynamic:
        if nones:
            arr.delete(ctx.choice("del", n))
        xs = [arr[i] for i in range(len(arr))]
        n = len(xs)
    s, e, kw = 0, n - 1, {}
    if slice_:
        s = ctx.choice("start", n)
        e = s + ctx.choice("len", n - s)
        kw = dict(start=s, end=e)
    out = getattr(A, alg)(arr, **kw)
    ctx.reach("sorted")
    if alg == "counting_sort":
        live = [x for x in xs if x is not None]
        got = [out[i] for i in range(len(out))]
        ctx.check([arr[i] for i in range(len(arr))] is not None, "input readable")
        if live:
            got = [x for x in got if x is not None] if dynamic else got
            ctx.check(len(got) == len(live) and all(x is not None for x in got), "counting sort: number of values")
            ctx.check(sorted_nd(got) if all(x is not None for x in got) else False, "counting sort: not in order")
            ctx.check(is_perm(live, got), "counting sort: values not preserved")
            ctx.check(type(out) is type(arr), "counting sort: kind of array")
        else:
            ctx.check(all(x is None for x in got), "counting sort of nothing")
        return
    after = [arr[i] for i in range(len(arr))]
    ctx.check(out is arr, "the sorted array is returned")
    if dynamic:
        live = [x for x in xs if x is not None]
        got = [x for x in after if x is not None]
        ctx.check(is_perm(live, got), alg + ": values not preserved")
        ctx.check(sorted_nd(got), alg + ": not in order")
        ctx.check(all(x is not None for x in after[:len(live)]), alg + ": None entries are not last")
        arr.append(got[0])
        ctx.check(seq_eq([arr[i] for i in range(len(arr)) if arr[i] is not None], got + [got[0]]), alg + ": append after sorting")
    else:
        spec(ctx, xs, after, s, e, False, alg)


def large(ctx, alg, seeds):
    import random
    rng = random.Random(86028121 * (1 + ctx.choice("seed", seeds)))
    n = rng.choice([7, 8, 9, 11, 12, 15])
    span = rng.choice([4, 12, 40]) if alg == "counting_sort" else rng.choice([3, 10, 60, 300, 5000, 10 ** 7])
    low = -span // 2 if alg == "counting_sort" else 0
    xs = [rng.randrange(low, low + span) for _ in range(n)]
    for i in range(n):
        if alg != "counting_sort" and rng.random() < 0.15:
            xs[i] = rng.choice([0, 9, 10, 99, 100, 1000])
    if rng.random() < 0.6:
        for i in range(rng.randrange(1, n)):
            xs[rng.randrange(n)] = None
    s, e, kw = 0, n - 1, {}
    if alg != "counting_sort" and rng.random() < 0.6:
        s = rng.randrange(n)
        e = rng.randrange(s, n)
        kw = dict(start=s, end=e)
    xs = [None if x is None else ctx.const(x) for x in xs]
    lo, step = (low, 1) if rng.random() < 0.5 or alg == "counting_sort" else (rng.choice([0, 95, 990]), rng.choice([1, 1, 10]))
    xs[rng.randrange(s, e + 1)] = lo + step * ctx.int("x", 0, 12)
    arr = ODA(ctx.dtype, n)
    for i, x in enumerate(xs):
        if x is not None:
            arr[i] = x
    out = getattr(A, alg)(arr, **kw)
    ctx.reach("sorted")
    if alg == "counting_sort":
        live = [x for x in xs if x is not None]
        got = [out[i] for i in range(len(out))]
        ok = len(got) == len(live) and all(x is not None for x in got)
        ctx.check(ok, "counting sort: number of values")
        if ok:
            ctx.check(sorted_nd(got), "counting sort: not in order")
            ctx.check(is_perm(live, got), "counting sort: values not preserved")
    else:
        spec(ctx, xs, [arr[i] for i in range(n)], s, e, False, alg)


def jobs(tier):
    q = tier == "quick"
    J = lambda name, **c: Job(name, sort, c, reach=["sorted"])
    out = [
        J("counting", alg="counting_sort", n=3 if q else 4, kind="int", lo=-2, hi=2, slice_=False),
        J("counting4", alg="counting_sort", n=4 if q else 5, kind="int", lo=-1, hi=1, slice_=False),
        J("counting/dynamic", alg="counting_sort", n=4, kind="int", lo=-1, hi=1, slice_=False, dynamic=True),
        J("radix/digits3", alg="radix_sort", n=2, kind="digits", lo=0, hi=2, digits=3, slice_=False),
        J("radix/digits2", alg="radix_sort", n=3, kind="digits", lo=0, hi=2, digits=2, slice_=False),
        J("radix/full", alg="radix_sort", n=2, kind="int", lo=0, hi=40 if q else 120, nones=False, slice_=False),
        J("radix/slice", alg="radix_sort", n=4, kind="digits", lo=0, hi=1, digits=2, slice_=True),
        J("radix/dynamic", alg="radix_sort", n=3, kind="digits", lo=0, hi=2, digits=2, slice_=False, dynamic=True),
        J("radix/4digits", alg="radix_sort", n=3, kind="spread", lo=0, hi=1, digits=[0, 3], slice_=False),
        J("radix/7digits", alg="radix_sort", n=2, kind="spread", lo=0, hi=1, digits=[1, 4, 6], slice_=False, nones=False),
        J("radix/13digits", alg="radix_sort", n=2, kind="spread", lo=0, hi=1, digits=[5, 12], slice_=False, nones=False),
        J("bucket/spread", alg="bucket_sort", n=3, kind="spread", lo=0, hi=2, digits=[0, 3], slice_=False, nones=False),
        J("counting/far", alg="counting_sort", n=3, kind="spread", lo=0, hi=1, digits=[0, 2], slice_=False, nones=False),
        J("bucket/3", alg="bucket_sort", n=3, kind="int", lo=0, hi=9 if q else 16, slice_=False),
        J("bucket/4", alg="bucket_sort", n=4, kind="int", lo=0, hi=4 if q else 7, slice_=False),
        J("bucket/slice", alg="bucket_sort", n=3, kind="int", lo=0, hi=6, slice_=True),
        J("bucket/dynamic", alg="bucket_sort", n=3, kind="int", lo=0, hi=6, slice_=False, dynamic=True),
    ]
    for alg in ("counting_sort", "radix_sort", "bucket_sort"):
        out.append(Job(alg + "/large", large, dict(alg=alg, seeds=100 if q else 500), reach=["sorted"], path_timeout=30))
    if not q:
        out.append(J("radix/9", alg="radix_sort", n=3, kind="digits", lo=7, hi=9, digits=2, slice_=False))
        out.append(J("radix/5", alg="radix_sort", n=5, kind="digits", lo=0, hi=1, digits=2, slice_=False, nones=False))
        out.append(J("bucket/5", alg="bucket_sort", n=5, kind="int", lo=0, hi=4, slice_=False, nones=False))
    return out
