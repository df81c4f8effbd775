from symex.api import *
import pydatastructs.linear_data_structures.algorithms as A
from pydatastructs import OneDimensionalArray as ODA, DynamicOneDimensionalArray as DODA

BOUNDS = {
    "quick": "arrays of up to 5 cells with every value order and duplicate pattern and (up to 4 cells) every None pattern and every slice; comparators <=, >=, <, >; dynamic arrays of up to 4 values with deletions; arrays of 9, 17 and 20 cells in four patterns with one free value; 100 seeded arrays per algorithm of 6 to 23 cells with empty cells, any slice, comparator and parameters, fixed or dynamic, with one or two free values",
    "thorough": "as quick with one more cell, plus intro sort on every insertion-sort threshold and depth limit up to 6 cells and longer arrays of up to 40 cells"}
ASSUMPTIONS = ["elements are totally ordered numbers", "thread pools run tasks one at a time in any order (task-level interleaving)",
               "slices are non-empty and within the array", "quick sort uses its default pivot rule or the first, middle element"]
HALVES = ["*/dynamic", "*/plain"]

COMPS = {"le": (lambda u, v: u <= v, False), "ge": (lambda u, v: u >= v, True),
         "lt": (lambda u, v: u < v, False), "gt": (lambda u, v: u > v, True)}
SORTS = ["merge_sort_parallel", "brick_sort", "brick_sort_parallel", "heapsort", "cocktail_shaker_sort", "quick_sort",
         "bubble_sort", "selection_sort", "insertion_sort", "intro_sort", "shell_sort"]
NOCOMP = ("heapsort", "intro_sort")


def call(ctx, alg, arr, kw):
    f = getattr(A, alg)
    with patched(A, ThreadPoolExecutor=pool_class(ctx)):
        if alg in ("merge_sort_parallel", "brick_sort_parallel"):
            f(arr, 1 + ctx.choice("threads", 2), **kw)
        else:
            f(arr, **kw)


def kwargs(ctx, alg, comp, slice_, n, extra):
    kw = {}
    s, e = 0, n - 1
    if slice_:
        s = ctx.choice("start", n)
        e = s + ctx.choice("len", n - s)
        kw.update(start=s, end=e)
    if comp:
        kw["comp"] = COMPS[comp][0]
    if extra == "intro":
        kw["ins_threshold"] = 1 + ctx.choice("ins_threshold", n + 1)
        d = ctx.choice("maxdepth", 4)
        if d < 3:
            kw["maxdepth"] = d
    elif extra == "pivot":
        p = ctx.choice("pivot", 2)
        kw["pick_pivot_element"] = (lambda low, high, array: array[low]) if p else (lambda low, high, array: array[(low + high) // 2])
    return s, e, kw


def spec(ctx, before, after, s, e, desc, what):
    vals = [x for x in before[s:e + 1] if x is not None]
    part = after[s:e + 1]
    ctx.check(len(after) == len(before), what + ": length changed")
    ctx.check(And([a is b if (a is None or b is None) else eq(a, b)
                   for a, b in zip(before[:s] + before[e + 1:], after[:s] + after[e + 1:])]),
              what + ": changed a cell outside the slice")
    k = len(vals)
    ctx.check(all(x is not None for x in part[:k]) and all(x is None for x in part[k:]), what + ": None entries are not last")
    if all(x is not None for x in part[:k]):
        ctx.check(sorted_nd(part[:k], desc), what + ": slice not in order")
    ctx.check(is_perm(vals, [x for x in part if x is not None]), what + ": values not preserved")


def sort_fixed(ctx, alg, n, comp, nones, slice_, extra=None):
    arr = ODA(ctx.dtype, n)
    xs = []
    for i in range(n):
        if nones and ctx.flag("none%d" % i):
            xs.append(None)
        else:
            xs.append(ctx.int("x%d" % i))
            arr[i] = xs[-1]
    s, e, kw = kwargs(ctx, alg, comp, slice_, n, extra)
    desc = COMPS[comp][1] if comp else False
    call(ctx, alg, arr, kw)
    ctx.reach("sorted")
    spec(ctx, xs, [arr[i] for i in range(len(arr))], s, e, desc, alg)


def sort_dynamic(ctx, alg, n, dels, comp, slice_):
    xs = [ctx.int("x%d" % i) for i in range(n)]
    arr = DODA(ctx.dtype, 0)
    for x in xs:
        arr.append(x)
    for d in range(dels):
        arr.delete(ctx.choice("del%d" % d, n))
    size = len(arr)
    before = [arr[i] for i in range(size)]
    live = [x for x in before if x is not None]
    ctx.assume(len(live) > 0)
    s, e, kw = kwargs(ctx, alg, comp, False, size, None)
    if slice_:
        s = ctx.choice("start", n)
        e = s + ctx.choice("len", n - s)
        kw.update(start=s, end=e)
    desc = COMPS[comp][1] if comp else False
    call(ctx, alg, arr, kw)
    ctx.reach("sorted")
    after = [arr[i] for i in range(len(arr))]
    out = [x for x in after if x is not None]
    pre = [x for x in before[:s] if x is not None]
    mid = [x for x in before[s:e + 1] if x is not None]
    post = [x for x in before[e + 1:] if x is not None]
    ctx.check(len(out) == len(live), alg + ": dynamic array lost or gained values")
    ctx.check(seq_eq(out[:len(pre)], pre), alg + ": changed values before the slice")
    ctx.check(seq_eq(out[len(pre) + len(mid):], post), alg + ": changed values after the slice")
    part = out[len(pre):len(pre) + len(mid)]
    ctx.check(sorted_nd(part, desc), alg + ": slice not in order")
    ctx.check(is_perm(part, mid), alg + ": values not preserved")
    if not slice_:
        ctx.check(all(x is not None for x in after[:len(live)]), alg + ": None entries are not last")
    # the array keeps working as a dynamic array
    y = ctx.int("y")
    arr.append(y)
    again = [arr[i] for i in range(len(arr)) if arr[i] is not None]
    ctx.check(seq_eq(again, out + [y]), alg + ": append after sorting lost or misplaced a value")


PATTERNS = {"asc": lambda n: list(range(n)), "desc": lambda n: list(range(n, 0, -1)), "mixed": lambda n: [(7 * i + 3) % (n + (n % 7 == 0)) for i in range(n)],
            "equal": lambda n: [i % 2 for i in range(n)]}


def sort_long(ctx, alg, sizes, comp, run=None):
    """Longer arrays: all values known but one, which is anything, at either end or in the middle."""
    n = sizes[ctx.choice("size", len(sizes))]
    xs = [10 * v for v in PATTERNS[sorted(PATTERNS)[ctx.choice("pattern", len(PATTERNS))]](n)]
    xs[(0, n // 2, n - 1)[ctx.choice("at", 3)]] = ctx.int("x")
    arr = ODA(ctx.dtype, n) if run is None else ODA(ctx.dtype, n, backend=run[0])
    if run is not None:  # compiled arrays accept only their own element type
        xs = [ctx.const(x) if type(x) is int and ctx.symbolic else x for x in xs]
    for i, x in enumerate(xs):
        arr[i] = x
    kw = {"comp": COMPS[comp][0]} if comp else {}
    s = 0
    if ctx.flag("slice"):
        s = 1
        kw.update(start=1, end=n - 1)
    if run is None:
        call(ctx, alg, arr, kw)
    else:
        run[1](arr, kw)
    ctx.reach("sorted")
    spec(ctx, xs, [arr[i] for i in range(len(arr))], s, n - 1, COMPS[comp][1] if comp else False, alg)


def sort_seeded(ctx, alg, seeds, run=None):
    """Longer arrays with empty cells, in any slice: all values known but two."""
    import random
    rng = random.Random(104395301 * (1 + ctx.choice("seed", seeds)))
    n = rng.choice([6, 7, 8, 11, 12, 16, 17, 18, 23])
    comp = None if alg in NOCOMP else rng.choice([None] + list(COMPS))
    kw = {"comp": COMPS[comp][0]} if comp else {}
    if alg == "quick_sort":
        p = rng.randrange(4)
        if p:
            kw["pick_pivot_element"] = (lambda low, high, array: array[low], lambda low, high, array: array[(low + high) // 2], lambda low, high, array: array[high])[p - 1]
    if alg == "intro_sort" and rng.random() < 0.7:
        kw["ins_threshold"] = rng.choice([1, 2, 4, 8])
        if rng.random() < 0.5:
            kw["maxdepth"] = rng.randrange(5)
    span = rng.choice([2, n // 2, 4 * n])
    xs = [10 * rng.randrange(-span, span) for _ in range(n)]
    for i in range(n):
        if rng.random() < 0.1:
            xs[i] = 0
    dynamic = rng.random() < 0.4
    s, e = 0, n - 1
    if rng.random() < 0.6:
        s = rng.randrange(n)
        e = rng.randrange(s, n)
    holes = rng.sample(range(n), rng.choice([0, 0, 1, n // 4])) if alg != "quick_sort" or not kw.get("pick_pivot_element") else []
    for i in rng.sample(range(s, e + 1), min(e - s + 1, rng.choice([1, 1, 2]))):
        xs[i] = ctx.int("x%d" % i)
    xs = [x if is_num(x) or not ctx.symbolic else ctx.const(x) for x in xs]
    be = {} if run is None else dict(backend=run[0])
    if dynamic:
        arr = DODA(ctx.dtype, 0, **be)
        for x in xs:
            arr.append(x)
        for i in holes:
            arr.delete(i)
        s, e = min(s, len(arr) - 1), min(e, len(arr) - 1)
    else:
        arr = ODA(ctx.dtype, n, **be)
        for i, x in enumerate(xs):
            if i not in holes:
                arr[i] = x
    before = [arr[i] for i in range(len(arr))]
    if (s, e) != (0, n - 1) or rng.random() < 0.2:
        kw.update(start=s, end=e)
    elif dynamic:
        e = len(arr) - 1
    if run is None:
        call(ctx, alg, arr, kw)
    else:
        run[1](arr, kw)
    ctx.reach("sorted")
    after = [arr[i] for i in range(len(arr))]
    desc = COMPS[comp][1] if comp else False
    if not dynamic:
        spec(ctx, before, after, s, e, desc, alg)
        return
    out = [x for x in after if x is not None]
    pre = [x for x in before[:s] if x is not None]
    mid = [x for x in before[s:e + 1] if x is not None]
    post = [x for x in before[e + 1:] if x is not None]
    ok = len(out) == len(pre) + len(mid) + len(post)
    ctx.check(ok, alg + ": dynamic array lost or gained values")
    if ok:
        part = out[len(pre):len(pre) + len(mid)]
        ctx.check(seq_eq(out[:len(pre)] + out[len(pre) + len(mid):], pre + post), alg + ": changed values outside the slice")
        ctx.check(sorted_nd(part, desc), alg + ": slice not in order")
        ctx.check(is_perm(part, mid), alg + ": values not preserved")
        arr.append(xs[0])
        ctx.check(seq_eq([arr[i] for i in range(len(arr)) if arr[i] is not None], out + [xs[0]]), alg + ": append after sorting lost or misplaced a value")


def jobs(tier):
    big = 5 if tier == "quick" else 6
    out = []
    for alg in SORTS:
        comps = [None] if alg in NOCOMP else [None, "ge", "lt", "gt"]
        out.append(Job(alg + "/plain", sort_fixed, dict(alg=alg, n=big, comp=None, nones=False, slice_=False), reach=["sorted"]))
        for c in comps:
            out.append(Job("%s/slice/%s" % (alg, c), sort_fixed, dict(alg=alg, n=4, comp=c, nones=True, slice_=True), reach=["sorted"]))
        out.append(Job(alg + "/dynamic", sort_dynamic, dict(alg=alg, n=4, dels=1, comp=None, slice_=False), reach=["sorted"]))
        out.append(Job(alg + "/dynamic-slice", sort_dynamic, dict(alg=alg, n=3, dels=1, comp=None, slice_=True), reach=["sorted"]))
        sizes = [9, 17, 20] if tier == "quick" else [8, 9, 16, 17, 24, 33, 40]
        out.append(Job(alg + "/long", sort_long, dict(alg=alg, sizes=sizes, comp=comps[-1]), reach=["sorted"], validate_every=100))
        out.append(Job(alg + "/seeded", sort_seeded, dict(alg=alg, seeds=100 if tier == "quick" else 200), reach=["sorted"], validate_every=100, path_timeout=30))
        if tier == "thorough":
            if len(comps) > 1:
                out.append(Job(alg + "/long-default", sort_long, dict(alg=alg, sizes=sizes, comp=None), reach=["sorted"], validate_every=100))
            out.append(Job(alg + "/dynamic2", sort_dynamic, dict(alg=alg, n=5, dels=2, comp=comps[-1], slice_=False), reach=["sorted"]))
    m = 5 if tier == "quick" else 6
    out.append(Job("intro_sort/params", sort_fixed, dict(alg="intro_sort", n=m, comp=None, nones=False, slice_=False, extra="intro"), reach=["sorted"]))
    out.append(Job("intro_sort/params-none", sort_fixed, dict(alg="intro_sort", n=4, comp=None, nones=True, slice_=True, extra="intro"), reach=["sorted"]))
    out.append(Job("quick_sort/pivot", sort_fixed, dict(alg="quick_sort", n=4, comp=None, nones=False, slice_=False, extra="pivot"), reach=["sorted"]))
    return out
