import random as _random
from symex.api import *
import pydatastructs.graphs.algorithms as A
from checks.graphlib import *

BOUNDS = {
    "quick": "every undirected graph on 5 vertices, adjacency lists and matrices, with or without a self loop, the order of the vertices reversed or not; 9 vertices: 100 seeded graphs with three free edges",
    "thorough": "every undirected graph on 5 vertices in any of 24 orders of the vertices; 300 seeded graphs with six free edges"}
ASSUMPTIONS = ["an undirected graph has each edge in both directions", "the bridge finder works on the Python backend only"]
NAMES = ["a", "b_1", "b", "c", "V5", "x", "y", "10", "2"]


def run(ctx, impl, names, edges, order=None, loop=False, decoy=False):
    w = {e: None for e in edges}
    if loop:
        w[names[0], names[0]] = None
    g = build(impl, "py", order or names, w, undirected=True, decoy=decoy)
    before = snapshot(g, names)
    got = A.find_bridges(g)
    both = undirected(edges)
    want = {frozenset(e) for e in edges if e[1] not in distances([x for x in both if set(x) != set(e)], e[0])}
    ctx.check(isinstance(got, list) and all(len(b) == 2 for b in got), "result")
    ctx.check(len({frozenset(b) for b in got}) == len(got), "a bridge is listed twice")
    ctx.check({frozenset(b) for b in got} == want, "not the edges whose removal separates their end points")
    after = snapshot(g, names)
    ctx.check(after[0] == before[0] and after[2] == before[2], "the graph itself is changed")
    ctx.reach("bridges" if want else "none")


def undirected(edges):
    return list(edges) + [(t, s) for s, t in edges]


def every(ctx, impl, n, orders):
    names = NAMES[:n]
    if orders:
        order = names[:1] + [names[1:][i] for i in ctx.permutation("order", n - 1)]
    else:
        order = names[::-1] if ctx.flag("reverse") else list(names)
    run(ctx, impl, names, chosen(ctx, pairs(names, undirected=True)), order, ctx.flag("loop"))


def grown(ctx, impl, seeds, free):
    rng = _random.Random(141650939 * (1 + ctx.choice("seed", seeds)))
    edges = random_edges(rng, NAMES, rng.choice([7, 9, 10, 12]), undirected=True)
    pool = rng.sample(pairs(NAMES, undirected=True), free)
    edges = [e for e in edges if e not in pool] + chosen(ctx, pool)
    rng.shuffle(edges)
    run(ctx, impl, NAMES, edges, rng.sample(NAMES, len(NAMES)), decoy=True)


def jobs(tier):
    q = tier == "quick"
    out = []
    for impl in ("list", "matrix"):
        out.append(Job("%s/every5" % impl, every, dict(impl=impl, n=5, orders=not q), reach=["bridges", "none"]))
        out.append(Job("%s/every3" % impl, every, dict(impl=impl, n=3, orders=True), reach=["bridges", "none"]))
        out.append(Job("%s/grown" % impl, grown, dict(impl=impl, seeds=100 if q else 300, free=3 if q else 6), reach=["bridges", "none"]))
    return out
