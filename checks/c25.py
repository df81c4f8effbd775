from symex.api import *
from pydatastructs import BinaryIndexedTree, Backend

BE = {"py": Backend.PYTHON, "cpp": Backend.CPP}
BOUNDS = {
    "quick": "both backends: arrays of 1 to 9, 16, 17 and 33 unbounded integers given as list or tuple, one to three assignments of unbounded integers at free positions (the same one included), every prefix and range (a third of the ranges for 33) queried before and after; arrays of 130 and 520 with a free value at free positions of interest; halves (floats) in arrays of 5",
    "thorough": "every size 1 to 20, four assignments up to size 9, arrays up to 3000"}
ASSUMPTIONS = ["elements and assigned values share one numeric type", "positions lie in the array and ranges are not empty"]


def table(ctx, t, cur, when):
    n = len(cur)
    ctx.check(And(*[eq(t.get_prefix_sum(i), Sum(cur[:i + 1])) for i in range(n)]), "prefix sum " + when)
    ctx.check(And(*[eq(t.get_sum(i, j), Sum(cur[i:j + 1])) for i in range(n) for j in range(i, n) if n < 20 or (i * j) % 3 == 0]), "range sum " + when)


def run(ctx, be, n, k, tup=False):
    a = [ctx.int("a%d" % i) for i in range(n)]
    cur = list(a)
    given = tuple(a) if tup else a
    t = BinaryIndexedTree(given, backend=BE[be])
    table(ctx, t, cur, "after construction")
    for j in range(k):
        p, v = ctx.choice("p%d" % j, n), ctx.int("v%d" % j)
        t.update(p, v)
        cur[p] = v
    table(ctx, t, cur, "after assignments")
    ctx.check(len(given) == n and all(x is y for x, y in zip(given, a)), "the input array was changed")
    ctx.reach("done")


def spots(n):
    return sorted({i for i in (0, 1, 2, 3, 6, 7, 8, n // 2 - 1, n // 2, n - 3, n - 2, n - 1) if 0 <= i < n} |
                  {(1 << b) + d for b in range(4, 13) for d in (-2, -1, 0) if (1 << b) + d < n})


def big(ctx, be, n, k):
    base = [(i * 7919) % 101 - 50 for i in range(n)]
    a = [ctx.const(x) for x in base]
    S = spots(n)
    p0 = S[ctx.choice("p", len(S))]
    a[p0] = ctx.int("a")
    t = BinaryIndexedTree(a, backend=BE[be])
    cur = list(a)
    for j in range(k):
        p = S[(S.index(p0) + j * 5) % len(S)]
        cur[p] = ctx.int("v%d" % j)
        t.update(p, cur[p])
    pre = [0]
    for x in cur:
        pre.append(pre[-1] + x)
    ctx.check(And(*[eq(t.get_prefix_sum(i), pre[i + 1]) for i in range(n)]), "prefix sum in a large array")
    ctx.check(And(*[eq(t.get_sum(i, j), pre[j + 1] - pre[i]) for i in S for j in S if i <= j]), "range sum in a large array")
    ctx.reach("done")


def floats(ctx, be):
    cur = [ctx.choice("h%d" % i, 2) + 0.5 * i for i in range(5)]
    t = BinaryIndexedTree(cur, backend=BE[be])
    cur = list(cur)
    table(ctx, t, cur, "of floats")
    p = ctx.choice("p", 5)
    cur[p] = -3.25
    t.update(p, -3.25)
    table(ctx, t, cur, "of floats after an assignment")
    ctx.reach("done")


def huge(ctx, be):
    """integers beyond the machine word"""
    cur = [(1 << 62) + i for i in range(6)]
    t = BinaryIndexedTree(cur, backend=BE[be])
    cur = list(cur)
    table(ctx, t, cur, "beyond 64 bits")
    p = ctx.choice("p", 6)
    cur[p] = 1 << 80
    t.update(p, 1 << 80)
    table(ctx, t, cur, "beyond 64 bits after an assignment")
    ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    out = []
    for be in BE:
        for n in (list(range(1, 10)) + [16, 17, 33] if q else list(range(1, 21)) + [31, 32, 33, 64, 65]):
            k = (3 if n <= 6 else 2 if n < 10 else 1) if q else (4 if n <= 6 else 3 if n <= 12 else 2 if n < 40 else 1)
            out.append(Job("%s/%d" % (be, n), run, dict(be=be, n=n, k=k, tup=n % 2 == 0), reach=["done"], path_timeout=30))
        for n in (130, 520) if q else (130, 1025, 3000):
            out.append(Job("%s/big%d" % (be, n), big, dict(be=be, n=n, k=3), reach=["done"], path_timeout=60))
        out.append(Job(be + "/floats", floats, dict(be=be), reach=["done"]))
        out.append(Job(be + "/huge", huge, dict(be=be), reach=["done"]))
    return out
