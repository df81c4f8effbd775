import random as _random
from symex.api import *
import pydatastructs.graphs.algorithms as A
import pydatastructs.linear_data_structures.algorithms as LA
from checks.graphlib import *

BOUNDS = {
    "quick": "every connected undirected graph on 3 vertices, and six on 4 vertices up to the complete one, with unbounded integer weights; every connected graph on 4 vertices with two unbounded weights; 7 vertices: seeded graphs with two unbounded weights; compiled Prim: weights from -1, 0.5, 1, 2; parallel: 1, 2 or 3 threads, any schedule of the tasks",
    "thorough": "every connected graph on 4 vertices with unbounded weights; three unbounded weights on 7 vertices"}
ASSUMPTIONS = ["the graph is connected and undirected (each edge is added in both directions with the same weight)", "weights are numbers"]
HALVES = ["kruskal/*/paw", "prim/*/paw", "*/K4-e", "*/schedules"]
NAMES = ["a", "b", "c_1", "d", "e", "f", "z"]
ALGS = [("kruskal", "list", 0), ("kruskal", "matrix", 0), ("prim", "list", 0), ("kruskal", "list", 2), ("kruskal", "matrix", 2), ("prim", "list", 2), ("kruskal", "list", 3), ("prim", "list", 3), ("prim", "list", 1), ("kruskal", "list", 1), ("cpp", "list", 0)]


def solve(ctx, alg, g, threads, schedule=0):
    if alg == "cpp":
        return A.minimum_spanning_tree(g, "prim", backend=BE["cpp"])
    if not threads:
        return A.minimum_spanning_tree(g, alg)
    pool = pool_class(ctx, schedule)
    with patched(A, ThreadPoolExecutor=pool), patched(LA, ThreadPoolExecutor=pool):
        return A.minimum_spanning_tree_parallel(g, alg, threads)


def undirected(edges):
    return [e for e in edges] + [(t, s) for s, t in edges]


def connected(names, edges):
    return set(distances(undirected(edges), names[0])) == set(names)


def run(ctx, alg, impl, threads, names, w, schedule=0, decoy=False):
    """w: {(s, t): weight}, one entry per undirected edge"""
    be = "cpp" if alg == "cpp" else "py"
    g = build(impl, be, names, w, undirected=True, decoy=decoy)
    adj, edge, nb = snapshot(g, names)
    values = {k: None if e is None else e.value for k, e in edge.items()}
    mst = solve(ctx, alg, g, threads, schedule)
    both = {**w, **{(t, s): c for (s, t), c in w.items()}}
    tree, got, near = snapshot(mst, names)
    ctx.check(mst.num_vertices() == len(names) and (be == "cpp" or sorted(mst.vertices) == sorted(names)), "vertices of the tree")
    ctx.check(mst._impl == "adjacency_" + impl, "implementation of the tree")
    ctx.check(all((t, s) in tree for s, t in tree), "the tree is not undirected")
    ctx.check(tree <= set(both), "an edge that is not in the graph")
    ctx.check(len(tree) == 2 * (len(names) - 1) and mst.num_edges() == len(tree), "number of edges")
    ctx.check(connected(names, list(tree)), "does not span the graph")
    ctx.check(near == {v: sorted(t for s, t in tree if s == v) for v in names}, "neighbours in the tree")
    ctx.check(And(*[got[e] is not None and eq(got[e].value, both[e]) for e in tree]), "weights of the tree")
    ctx.check(all(got[e] is None for e in got if e not in tree), "edge data of an edge that is not in the tree")
    if be == "py":
        ctx.check(all(getattr(mst, v).data == i for i, v in enumerate(names)), "data of the vertices")
    lighter = []
    for (s, t), c in w.items():
        if (s, t) not in tree:
            for path in simple_paths(sorted(tree), s, t):
                lighter += [le(both[e], c) for e in path]
    ctx.check(And(*lighter), "another spanning tree weighs less")
    adj2, edge2, nb2 = snapshot(g, names)
    ctx.check(adj2 == adj and nb2 == nb, "the graph itself is changed")
    ctx.check(And(*[edge2[k] is None if v is None else eq(edge2[k].value, v) for k, v in values.items()]), "weights of the graph are changed")
    ctx.reach("done")


COST = [-1, 0.5, 1, 2]


def cost(ctx, alg, name):
    return COST[ctx.choice(name, 4)] if alg == "cpp" else ctx.int(name)


SHAPES = {"K4": range(6), "K4-e": range(5), "C4": [0, 2, 3, 5], "paw": [0, 1, 3, 5], "path": [0, 3, 5], "star": [0, 1, 2]}


def every(ctx, alg, impl, threads, n, free, shape=None, schedule=0):
    names = NAMES[:n]
    pool = pairs(names, undirected=True)
    edges = [pool[i] for i in SHAPES[shape]] if shape else chosen(ctx, pool)
    ctx.assume(connected(names, edges))
    k = ctx.choice("first", len(edges)) if 0 < free < len(edges) else 0
    flip = ctx.flag("flip")
    w = {}
    for i, (s, t) in enumerate(edges):
        j = (i - k) % len(edges)
        w[(t, s) if flip and i % 2 == 0 else (s, t)] = cost(ctx, alg, "w%d" % j) if j < free else [3, -2, 3, 7, 0, 5][i]
    run(ctx, alg, impl, threads, names, w, schedule)


def grown(ctx, alg, impl, threads, seeds, n, free, schedule=0):
    rng = _random.Random(32452843 * (1 + ctx.choice("seed", seeds)))
    names = NAMES[:n]
    w = {}
    for i in range(1, n):
        w[names[rng.randrange(i)], names[i]] = 0
    for s, t in random_edges(rng, names, rng.choice([2, 6, 9]), undirected=True):
        if (t, s) not in w:
            w[s, t] = 0
    keys = list(w)
    rng.shuffle(keys)
    w = {e: rng.choice([-3, 0, 1, 2, 4, 4, 6, 9]) for e in keys}
    for i, e in enumerate(rng.sample(keys, free)):
        w[e] = cost(ctx, alg, "w%d" % i)
    run(ctx, alg, impl, threads, names, w, schedule, decoy=True)


def jobs(tier):
    q = tier == "quick"
    out = []
    for alg, impl, threads in ALGS:
        p = "%s/%s/%d/" % (alg, impl, threads)
        c = dict(alg=alg, impl=impl, threads=threads)
        out.append(Job(p + "every3", every, dict(n=3, free=3, **c), reach=["done"]))
        if threads != 3:
            for shape in SHAPES:
                if q and (shape == "K4" and (threads or impl == "matrix") or shape == "K4-e" and threads == 1):
                    continue
                out.append(Job(p + shape, every, dict(n=4, free=6, shape=shape, **c), reach=["done"]))
        out.append(Job(p + "every4", every, dict(n=4, free=2 if q else 3 if alg == "cpp" else 4, **c), reach=["done"]))
        out.append(Job(p + "grown", grown, dict(seeds=15 if q else 50, n=7, free=2 if q else 3, **c), reach=["done"]))
        out.append(Job(p + "two", every, dict(n=2, free=1, **c), reach=["done"]))
        if threads > 1:
            out.append(Job(p + "schedules", every, dict(n=3, free=3, schedule=6, **c), reach=["done"]))
    return out
