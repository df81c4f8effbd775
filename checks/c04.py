from symex.api import *
import pydatastructs.linear_data_structures.algorithms as A
from pydatastructs import OneDimensionalArray as ODA, DynamicOneDimensionalArray as DODA, Backend

BOUNDS = {
    "quick": "arrays of up to 5 unbounded integers (jump search up to 7), every slice including empty ones, values absent or present with duplicates; linear search and ordered-check: None anywhere; binary and jump search: None at the end of the slice; five comparators; both backends; 120 seeded arrays per search of 8 to 37 cells, any slice and comparator, searched for a free value",
    "thorough": "up to 7 cells (jump search up to 10)"}
ASSUMPTIONS = ["values are totally ordered by the comparator (strict or not)",
               "binary and jump search: the slice is in comparator order with any None last, as the sorts leave it",
               "comparators return bool"]
HALVES = ["*/full", "linear/*", "*/dyn/*"]
UNITS = ["pydatastructs.linear_data_structures.algorithms: linear_search, binary_search, jump_search, is_ordered",
         "C++ _algorithms: linear_search, binary_search, jump_search, is_ordered"]

COMPS = {"lt": (lambda u, v: u < v, False), "le": (lambda u, v: u <= v, False),
         "gt": (lambda u, v: u > v, True), "ge": (lambda u, v: u >= v, True), None: (None, False)}
BE = {"py": Backend.PYTHON, "cpp": Backend.CPP}


def make(ctx, n, be, nones, dynamic=False):
    """Array with symbolic cells; nones: 'any', 'tail' or ''."""
    xs = [ctx.int("x%d" % i) for i in range(n)]
    if nones == "any":
        for i in range(n):
            if ctx.flag("none%d" % i):
                xs[i] = None
    elif nones == "tail":
        k = ctx.choice("live", n + 1)
        for i in range(k, n):
            xs[i] = None
    if dynamic:
        arr = DODA(ctx.dtype, 0, backend=BE[be])
        for i, x in enumerate(xs):
            arr.append(ctx.int("tmp%d" % i) if x is None else x)
        for i in reversed(range(n)):
            if xs[i] is None:
                arr.delete(i)
        xs = [arr[i] for i in range(len(arr))]
    else:
        arr = ODA(ctx.dtype, n, backend=BE[be])
        for i, x in enumerate(xs):
            if x is not None:
                arr[i] = x
    return arr, xs


def bounds(ctx, n, slice_):
    if not slice_:
        return 0, n - 1, {}
    s = ctx.choice("start", n)
    e = s - 1 + ctx.choice("len", n - s + 1)
    if e < 0:
        ctx.assume(False)
    return s, e, dict(start=s, end=e)


def found(ctx, xs, r, v, s, e, what):
    if r is None:
        ctx.reach("absent")
        ctx.check(And([ne(x, v) for x in xs[s:e + 1] if x is not None]), what + ": says absent, but the value is in the slice")
    else:
        ctx.reach("present")
        ctx.check(isinstance(r, int) and s <= r <= e, what + ": position outside the slice")
        ctx.check(r < len(xs) and xs[r] is not None and eq(xs[r], v), what + ": the position does not hold the value")


def search(ctx, alg, n, be, comp=None, nones="", slice_=True, dynamic=False):
    arr, xs = make(ctx, n, be, nones, dynamic)
    s, e, kw = bounds(ctx, len(xs), slice_) if xs else (0, -1, {})
    if alg != "linear_search":
        live = [x for x in xs[s:e + 1] if x is not None]
        ctx.assume(all(x is not None for x in xs[s:s + len(live)]))
        ctx.assume(sorted_nd(live, COMPS[comp][1]))
        if comp:
            kw["comp"] = COMPS[comp][0]
    v = ctx.int("v")
    r = getattr(A, alg)(arr, v, backend=BE[be], **kw)
    found(ctx, xs, r, v, s, e, alg + " (%s)" % be)
    after = [arr[i] for i in range(len(arr))]
    ctx.check(seq_eq(after, xs) if len(after) == len(xs) else False, alg + ": the array was changed")


def large(ctx, alg, be, seeds):
    import random
    rng = random.Random(15485863 * (1 + ctx.choice("seed", seeds)))
    n = rng.choice([8, 9, 15, 16, 17, 24, 25, 26, 36, 37])
    comp = rng.choice(list(COMPS))
    kw = dict(comp=COMPS[comp][0]) if comp else {}
    desc = COMPS[comp][1]
    s, e = 0, n - 1
    if rng.random() < 0.6:
        s = rng.randrange(n)
        e = rng.randrange(s, n)
        kw.update(start=s, end=e)
    xs = [rng.randrange(-n, n) for _ in range(n)]
    if alg != "linear_search":
        xs[s:e + 1] = sorted(xs[s:e + 1], reverse=desc)
        for i in range(rng.choice([0, 0, e - s, rng.randrange(e - s + 1)])):
            xs[e - i] = None
    else:
        for i in range(rng.randrange(n)):
            xs[rng.randrange(n)] = None
    xs = [x if x is None else ctx.const(10 * x) for x in xs]
    arr = ODA(ctx.dtype, n, backend=BE[be])
    for i, x in enumerate(xs):
        if x is not None:
            arr[i] = x
    v = ctx.int("v")
    r = getattr(A, alg)(arr, v, backend=BE[be], **kw)
    found(ctx, xs, r, v, s, e, alg + " (%s)" % be)
    if alg == "linear_search" and r is not None:
        ctx.check(seq_eq([arr[i] for i in range(len(arr))], xs), alg + ": the array was changed")


def ordered(ctx, n, be, comp=None, nones="any", slice_=True, dynamic=False):
    arr, xs = make(ctx, n, be, nones, dynamic)
    s, e, kw = bounds(ctx, len(xs), slice_) if xs else (0, -1, {})
    if comp:
        kw["comp"] = COMPS[comp][0]
    r = A.is_ordered(arr, backend=BE[be], **kw)
    ctx.check(r is True or r is False, "ordered-check: not a truth value")
    live = [x for x in xs[s:e + 1] if x is not None]
    ctx.reach("yes" if r else "no")
    want = sorted_nd(live, COMPS[comp][1])
    ctx.check(want if r else Not(want), "ordered-check (%s): wrong answer %s" % (be, r))


def jobs(tier):
    q = tier == "quick"
    n = 5 if q else 7
    out = []
    S = lambda name, reach=("present", "absent"), **c: out.append(Job(name, search, c, reach=list(reach)))
    O = lambda name, reach=("yes", "no"), **c: out.append(Job(name, ordered, c, reach=list(reach)))
    for be in ("py", "cpp"):
        S("linear/%s" % be, alg="linear_search", n=4, be=be, nones="any")
        S("linear/dyn/%s" % be, alg="linear_search", n=4, be=be, nones="any", slice_=False, dynamic=True)
        S("empty/linear/%s" % be, ["absent"], alg="linear_search", n=0, be=be, slice_=False, dynamic=True)
        for comp in COMPS:
            for alg in ("binary_search", "jump_search"):
                m = n if alg == "binary_search" else n + (2 if q else 3)
                S("%s/%s/%s" % (alg, be, comp), alg=alg, n=n, be=be, comp=comp, nones="tail")
                S("%s/%s/%s/full" % (alg, be, comp), alg=alg, n=m, be=be, comp=comp, slice_=False)
            O("ordered/%s/%s" % (be, comp), n=4 if q else 5, be=be, comp=comp)
        for alg in ("binary_search", "jump_search"):
            S("%s/dyn/%s" % (alg, be), alg=alg, n=4, be=be, nones="tail", slice_=False, dynamic=True)
            S("%s/empty/%s" % (alg, be), ["absent"], alg=alg, n=0, be=be, slice_=False, dynamic=True)
        for alg in ("linear_search", "binary_search", "jump_search"):
            out.append(Job("%s/%s/large" % (alg, be), large, dict(alg=alg, be=be, seeds=120 if q else 600), reach=["present", "absent"]))
        O("ordered/dyn/%s" % be, n=4, be=be, slice_=False, dynamic=True)
        O("ordered/empty/%s" % be, ["yes"], n=0, be=be, slice_=False, dynamic=True)
    return out
