import random as _random
from symex.api import *
from pydatastructs import OneDimensionalSegmentTree

BOUNDS = {
    "quick": "one and two intervals with unbounded integer end points in either order, three sharing end points or nested around constants, queried at a free point; 3 to 20 intervals with constant end points (duplicates and degenerate ones included) one of them with free end points in the trees of up to 9, queried at a free point; every end point, neighbour and far point queried in the constant trees; two queries and explicit builds in a row",
    "thorough": "three intervals with free end points, up to 80 intervals, more of them"}
ASSUMPTIONS = ["intervals are given as a list or tuple of pairs"]


def intervals(got):
    return [(x.key[1], x.key[2], x.key[0], x.key[3]) for x in got]


def expect(ctx, got, segs, x, when):
    """got is exactly the multiset of the closed intervals that contain x"""
    got = intervals(got)
    segs = [(Min([a, b]), Max([a, b])) for a, b in segs]
    same = lambda s, g: And(eq(s[0], g[0]), eq(s[1], g[1]))
    ctx.check(all(g[2] is True and g[3] is True for g in got), "an interval is not closed " + when)
    ok = [And(le(g[0], x), le(x, g[1])) for g in got]
    ctx.check(And(*ok), "reported an interval without the point " + when)
    ok = []
    for s in segs:
        n_tree = Sum([If(same(s, (u[0], u[1])), 1, 0) for u in segs])
        n_got = Sum([If(same(s, g), 1, 0) for g in got]) if got else 0
        ok.append(Implies(And(le(s[0], x), le(x, s[1])), eq(n_got, n_tree)))
    ctx.check(And(*ok), "missed or repeated an interval with the point " + when)
    ctx.check(And(*[Or(*[same(s, g) for s in segs]) for g in got]), "reported an interval of no one " + when)


def form(s, how):
    return [tuple, list][how % 2](s)


def free(ctx, n, consts, explicit):
    segs = []
    for i in range(n):
        segs.append((ctx.int("a%d" % i), ctx.int("b%d" % i)))
    segs += [tuple(c) for c in consts]
    t = OneDimensionalSegmentTree([form(s, i) for i, s in enumerate(segs)])
    if explicit:
        t.build()
        t.build()
    x = ctx.int("x")
    expect(ctx, t.query(x), segs, x, "")
    if explicit:
        expect(ctx, t.query(x), segs, x, "the second time")
    ctx.reach("done")


def shared(ctx, way):
    """intervals whose end points coincide"""
    a, b, c = ctx.int("a"), ctx.int("b"), ctx.int("c")
    segs = {"chain": [(a, b), (b, c)], "point": [(a, a), (a, b)], "same": [(a, b), (b, a), (a, b)], "fan": [(a, b), (a, c)],
            "points": [(a, a), (b, b), (c, c)], "triangle": [(a, b), (b, c), (c, a)]}[way]
    t = OneDimensionalSegmentTree([list(s) for s in segs])
    x = ctx.int("x")
    expect(ctx, t.query(x), segs, x, "with shared end points")
    expect(ctx, t.query(b), segs, b, "at an end point")
    ctx.reach("done")


def many(ctx, n, seeds, free_seg):
    rng = _random.Random(49979687 * (1 + ctx.choice("seed", seeds)) + n)
    w = rng.choice([3, n, 4 * n])
    segs = []
    for i in range(n):
        a = rng.randrange(-w, w + 1) * 10
        segs.append((a, a + 10 * rng.choice([0, 0, 1, 1, 2, -1, -3, w // 2, w])))
    const = list(segs)
    if free_seg:
        a = ctx.int("a", -10 * w - 15, 10 * w + 15) if free_seg == 1 else rng.choice(segs)[0]
        segs.insert(n // 2, (a, ctx.int("b", -10 * w - 25, 10 * w + 25) if free_seg == 2 else a + 35))
    t = OneDimensionalSegmentTree([list, tuple][n % 2](form(s, i) for i, s in enumerate(segs)))
    if free_seg:
        x = [p for s in const for p in s][ctx.choice("at", 2 * n)] + [-5, 0, 5][ctx.choice("by", 3)]
        expect(ctx, t.query(x), segs, x, "in a large tree")
    else:
        x = ctx.int("x")
        expect(ctx, t.query(x), segs, x, "in a large tree")
        for y in {p + d for s in const for p in s for d in (-1, 0, 1)} | {10 ** 9, -10 ** 9}:
            expect(ctx, t.query(y), segs, y, "in a large tree")
    ctx.reach("done")


def empty(ctx):
    t = OneDimensionalSegmentTree([])
    if ctx.flag("explicit"):
        t.build()
    ctx.check(len(t.query(ctx.int("x"))) == 0, "an empty tree reports an interval")
    ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    out = [Job("empty", empty, {}, reach=["done"])]
    for n, consts in [(1, []), (2, []), (1, [(0, 10)]), (1, [(0, 10), (5, 15)]), (1, [(0, 10), (10, 20), (3, 3)]), (1, [(0, 40), (10, 30), (20, 20)])] + ([] if q else [(3, []), (2, [(0, 10)]), (2, [(0, 10), (5, 15)])]):
        for explicit in (False, True) if n == 1 else (False,):
            out.append(Job("free%d+%d%s" % (n, len(consts), "b" if explicit else ""), free, dict(n=n, consts=consts, explicit=explicit), reach=["done"]))
    for way in ("chain", "point", "same", "fan", "points", "triangle"):
        out.append(Job("shared/" + way, shared, dict(way=way), reach=["done"]))
    for n in (3, 4, 5, 6, 7, 9, 12, 20) + (() if q else (40, 80)):
        for fs in (0, 1, 2):
            if fs and n > 9:
                continue
            out.append(Job("many%d/%d" % (n, fs), many, dict(n=n, seeds=(1 if fs else 6 if n > 9 else 15) if q else (4 if fs else 60), free_seg=fs), reach=["done"], path_timeout=30))
    return out
