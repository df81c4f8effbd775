from itertools import combinations, permutations
from symex.api import *
from pydatastructs import OneDimensionalArray as ODA, longest_common_subsequence as LCS
from pydatastructs import longest_increasing_subsequence as LIS, next_permutation, prev_permutation

BOUNDS = {
    "quick": "LIS: up to 5 unbounded integers (every order and duplicate pattern); LCS: every pair of lengths up to 4x3; permutations: up to 4 cells with duplicates, every slice, ascending and descending strict comparators; concrete non-integer elements; seeded inputs: LIS of 8 to 10 values two of them free, LCS of up to 7x4 and 6x6 with a free value in each, permutations of 6 cells one of them free",
    "thorough": "LIS up to 6, LCS up to 5x4, permutations up to 5"}
ASSUMPTIONS = ["arrays without None", "the comparator is strict"]
HALVES = ["*[0-9]", "*/slice", "types/*"]


def mk(ctx, xs):
    a = ODA(ctx.dtype, len(xs))
    for i, x in enumerate(xs):
        a[i] = x
    return a


def items(a):
    return [a[i] for i in range(len(a))]


def is_subseq(sub, xs):
    return Or([And([eq(a, xs[i]) for a, i in zip(sub, c)]) for c in combinations(range(len(xs)), len(sub))])


def lis(ctx, n):
    xs = [ctx.int("x%d" % i) for i in range(n)]
    a = mk(ctx, xs)
    r = items(LIS(a))
    ctx.reach("done")
    k = len(r)
    ctx.check(k <= n and all(x is not None for x in r), "LIS: malformed result")
    ctx.check(And([lt(r[i], r[i + 1]) for i in range(k - 1)]), "LIS: result is not increasing")
    ctx.check(is_subseq(r, xs), "LIS: result is not a subsequence")
    ctx.check(And([Not(And([lt(xs[c[i]], xs[c[i + 1]]) for i in range(k)])) for c in combinations(range(n), k + 1)]),
              "LIS: a longer increasing subsequence exists")
    ctx.check(seq_eq(items(a), xs), "LIS: the array was changed")


def lcs(ctx, n, m):
    xs = [ctx.int("x%d" % i) for i in range(n)]
    ys = [ctx.int("y%d" % i) for i in range(m)]
    a, b = mk(ctx, xs), mk(ctx, ys)
    r = items(LCS(a, b))
    ctx.reach("done")
    k = len(r)
    ctx.check(is_subseq(r, xs) if k <= n else False, "LCS: not a subsequence of the first")
    ctx.check(is_subseq(r, ys) if k <= m else False, "LCS: not a subsequence of the second")
    ctx.check(And([Not(And([eq(xs[i], ys[j]) for i, j in zip(c, d)]))
                   for c in combinations(range(n), k + 1) for d in combinations(range(m), k + 1)]),
              "LCS: a longer common subsequence exists")
    ctx.check(seq_eq(items(a), xs), "LCS: the first was changed")
    ctx.check(seq_eq(items(b), ys), "LCS: the second was changed")


def mixed(ctx, rng, n, span, free, tag):
    vals = [rng.randrange(span) * 10 for _ in range(n)]
    for i in rng.sample(range(n), free):
        vals[i] = ctx.int("%s%d" % (tag, i))
    return vals


def known(ctx, xs):
    return mk(ctx, [x if is_num(x) or not isinstance(x, int) else ctx.const(x) for x in xs])


def large(ctx, what, seeds):
    import random
    rng = random.Random(49979687 * (1 + ctx.choice("seed", seeds)))
    if what == "lis":
        n = rng.choice([8, 9, 10])
        xs = mixed(ctx, rng, n, rng.choice([4, 12]), 2, "x")
        r = items(LIS(known(ctx, xs)))
        k = len(r)
        ctx.check(And([lt(r[i], r[i + 1]) for i in range(k - 1)]), "LIS: result is not increasing")
        ctx.check(is_subseq(r, xs), "LIS: result is not a subsequence")
        ctx.check(And([Not(And([lt(xs[c[i]], xs[c[i + 1]]) for i in range(k)])) for c in combinations(range(n), k + 1)]),
                  "LIS: a longer increasing subsequence exists")
    else:
        n, m = rng.choice([(6, 5), (5, 6), (7, 4), (6, 6)])
        xs, ys = mixed(ctx, rng, n, 3, 1, "x"), mixed(ctx, rng, m, 3, 1, "y")
        r = items(LCS(known(ctx, xs), known(ctx, ys)))
        k = len(r)
        ctx.check(is_subseq(r, xs) if k <= n else False, "LCS: not a subsequence of the first")
        ctx.check(is_subseq(r, ys) if k <= m else False, "LCS: not a subsequence of the second")
        ctx.check(And([Not(And([eq(xs[i], ys[j]) for i, j in zip(c, d)]))
                       for c in combinations(range(n), k + 1) for d in combinations(range(m), k + 1)]),
                  "LCS: a longer common subsequence exists")
    ctx.reach("done")


def large_perm(ctx, which, seeds):
    import random
    rng = random.Random(67867967 * (1 + ctx.choice("seed", seeds)))
    n = 6
    xs = mixed(ctx, rng, n, rng.choice([2, 4, 9]), 1, "x")
    if rng.random() < 0.7:          # a long tail that is already at its end
        k = rng.randrange(3, n)
        tail = [x for x in xs[n - k:] if isinstance(x, int)]
        rest = [x for x in xs[n - k:] if not isinstance(x, int)]
        xs[n - k:] = (rest + sorted(tail, reverse=which == "next")) if rng.random() < 0.5 else (sorted(tail, reverse=which == "next") + rest)
    f = next_permutation if which == "next" else prev_permutation
    less = (lambda p, q: lex(p, q, lt)) if which == "next" else (lambda p, q: lex(q, p, lt))
    flag, out = f(known(ctx, xs))
    r = items(out)
    ctx.reach("exists" if flag else "last")
    ctx.check(len(r) == n and is_perm(r, xs), which + " permutation: not an arrangement of the elements")
    perms = {tuple(map(id, p)): list(p) for p in permutations(xs)}.values()
    if flag:
        ctx.check(less(xs, r), which + " permutation: the result is not beyond the arrangement")
        ctx.check(And([Not(And(less(xs, p), less(p, r))) for p in perms]), which + " permutation: an arrangement was skipped")
    else:
        ctx.check(And([Not(less(xs, p)) for p in perms]), which + " permutation: says there is none, but there is")
        ctx.check(And([Not(less(p, r)) for p in perms]), which + " permutation: does not wrap around to the other end")


def lex(a, b, before):
    return Or([And(*[eq(a[j], b[j]) for j in range(i)], before(a[i], b[i])) for i in range(len(a))])


def perm(ctx, which, n, comp=None, slice_=False):
    xs = [ctx.int("x%d" % i) for i in range(n)]
    a = mk(ctx, xs)
    s, e, kw = 0, n - 1, {}
    if slice_:
        s = ctx.choice("start", n)
        e = s + ctx.choice("len", n - s)
        kw = dict(start=s, end=e)
    if comp == "gt":
        kw["comp"] = lambda x, y: x > y
    before = gt if comp == "gt" else lt
    part = xs[s:e + 1]
    f, g = (next_permutation, prev_permutation) if which == "next" else (prev_permutation, next_permutation)
    less = (lambda p, q: lex(p, q, before)) if which == "next" else (lambda p, q: lex(q, p, before))
    flag, out = f(a, **kw)
    r = items(out)
    ctx.reach("exists" if flag else "last")
    ctx.check(flag is True or flag is False, which + ": flag")
    ctx.check(len(r) == len(part) and is_perm(r, part), which + " permutation: not an arrangement of the elements")
    perms = [list(p) for p in permutations(part)]
    if flag:
        ctx.check(less(part, r), which + " permutation: the result is not beyond the arrangement")
        ctx.check(And([Not(And(less(part, p), less(p, r))) for p in perms]), which + " permutation: an arrangement was skipped")
    else:
        ctx.check(And([Not(less(part, p)) for p in perms]), which + " permutation: says there is none, but there is")
        ctx.check(And([Not(less(p, r)) for p in perms]), which + " permutation: does not wrap around to the other end")
    ctx.check(seq_eq(items(a), xs), which + " permutation: the array was changed")
    kw.pop("start", None), kw.pop("end", None)
    flag2, back = g(out, **kw)
    ctx.check(seq_eq(items(back), part), which + " permutation is not undone by the other")
    ctx.check(flag2 == flag, "the undoing permutation disagrees on the flag")


def nonint(ctx, kind):
    """Element types other than int are kept (symbolic numerators)."""
    vals = {"half": [1.5, 1.25, 2.75, 2.5], "str": ["b", "a", "d", "c"]}[kind]
    i, j, k = (ctx.choice(x, 4) for x in "ijk")
    xs = [vals[i], vals[j], vals[k]]
    a = ODA(type(vals[0]), list(xs))
    ctx.reach("done")
    f, p = next_permutation(a)
    ctx.check(sorted(items(p)) == sorted(xs), "next permutation changes non-integer elements")
    f, p = prev_permutation(a)
    ctx.check(sorted(items(p)) == sorted(xs), "previous permutation changes non-integer elements")
    r = items(LIS(a))
    ctx.check(is_subseq(r, xs), "LIS of non-integers is not a subsequence")
    r = items(LCS(a, ODA(type(vals[0]), [vals[0], vals[1]])))
    ctx.check(is_subseq(r, xs), "LCS of non-integers is not a subsequence")


def jobs(tier):
    q = tier == "quick"
    out = []
    for n in range(0, (5 if q else 6) + 1):
        out.append(Job("lis/%d" % n, lis, dict(n=n), reach=["done"]))
    N, M = (4, 3) if q else (5, 4)
    for n in range(N + 1):
        for m in range(M + 1):
            out.append(Job("lcs/%d/%d" % (n, m), lcs, dict(n=n, m=m), reach=["done"]))
            if m > n or (n > M and m):
                out.append(Job("lcs/%d/%d" % (m, n), lcs, dict(n=m, m=n), reach=["done"])) if n > M else None
    for which in ("next", "prev"):
        for comp in (None, "gt"):
            for n in range(1, (4 if q else 5) + 1):
                out.append(Job("%s/%s/%d" % (which, comp, n), perm, dict(which=which, n=n, comp=comp),
                               reach=["last"] + (["exists"] if n > 1 else [])))
            out.append(Job("%s/%s/slice" % (which, comp), perm, dict(which=which, n=4, comp=comp, slice_=True), reach=["last", "exists"]))
    for what in ("lis", "lcs"):
        out.append(Job(what + "/large", large, dict(what=what, seeds=40 if q else 200), reach=["done"], path_timeout=60))
    for which in ("next", "prev"):
        out.append(Job(which + "/large", large_perm, dict(which=which, seeds=16 if q else 100), reach=["exists"], path_timeout=60))
    for k in ("half", "str"):
        out.append(Job("types/" + k, nonint, dict(kind=k), reach=["done"]))
    return out
