import random as _random
from symex.api import *
import pydatastructs.graphs.algorithms as A
from checks.graphlib import *

BOUNDS = {
    "quick": "Floyd-Warshall on adjacency lists and matrices and Johnson on adjacency lists: every directed graph on 3 vertices (Floyd-Warshall with self loops), every one on 4 vertices with at most four edges (Johnson: three) and up to five denser ones, with unbounded integer weights; 6 vertices: 40 seeded graphs with three (Johnson: two) unbounded weights, after removed vertices and edges",
    "thorough": "every directed graph on 4 vertices with at most six edges and the complete one; five unbounded weights on 6 vertices"}
ASSUMPTIONS = ["every edge has a numeric weight", "no cycle has a negative weight", "predecessors are only given for direct edges, as the repository's tests fix it; those of pairs without a path are not specified"]
HALVES = ["floyd_warshall/*/back", "floyd_warshall/*/dense", "floyd_warshall/*/diamond"]
NAMES = ["s", "b_1", "b", "t", "x", "y"]


def run(ctx, alg, impl, names, w, decoy=False):
    edges = list(w)
    for c in simple_cycles(edges, names):
        ctx.assume(ge(weight(c, w), 0))
    g = build(impl, "py", names, w, decoy=decoy)
    before = snapshot(g, names)
    values = {k: None if e is None else e.value for k, e in before[1].items()}
    dist, nxt = A.all_pair_shortest_paths(g, alg)
    ctx.check(set(dist) == set(names), "vertices of the result")
    for u in names:
        reach = distances(edges, u)
        ctx.check(set(dist[u]) == set(names), "distances from a vertex")
        for v in names:
            got = dist[u].get(v)
            if v not in reach:
                ctx.check(isinstance(got, float) and got == INF, "distance of a vertex that cannot be reached")
                continue
            ctx.check(not (isinstance(got, float) and got == INF) and got is not None, "a path is not found")
            least = Min([weight(p, w) for p in simple_paths(edges, u, v)])
            ctx.check(eq(got, least), "distance")
            p = nxt[u].get(v)
            if u != v:
                ctx.check(p is None or p == u and (u, v) in w and eq(w[u, v], least), "predecessor")
    after = snapshot(g, names)
    ctx.check(after[0] == before[0] and after[2] == before[2] and sorted(g.vertices) == sorted(names), "the graph itself is changed")
    ctx.check(And(*[after[1][k] is None if c is None else eq(after[1][k].value, c) for k, c in values.items()]), "weights of the graph are changed")
    ctx.reach("done")


def every(ctx, alg, impl, n, loops, most=99):
    names = NAMES[:n]
    edges = chosen(ctx, pairs(names, loops))
    ctx.assume(len(edges) <= most)
    run(ctx, alg, impl, names, {e: ctx.int("w%d" % i) for i, e in enumerate(edges)})


SHAPES = {"diamond": [(0, 1), (0, 2), (1, 3), (2, 3), (1, 2)], "back": [(0, 1), (1, 2), (2, 3), (0, 3), (0, 2), (1, 3)],
          "cycle": [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (3, 1)], "both": [(0, 1), (0, 2), (1, 2), (2, 1), (1, 3), (2, 3), (3, 1)],
          "complete": [(i, j) for i in range(4) for j in range(4) if i != j],
          "dense": [(0, 1), (0, 2), (0, 3), (1, 2), (2, 1), (2, 3), (3, 2), (3, 0)]}


def shape(ctx, alg, impl, shape, perm):
    names = NAMES[:4]
    order = [names[i] for i in ctx.permutation("order", 4)] if shape in ("diamond", "cycle") and (alg != "johnson" or perm) else list(names)
    run(ctx, alg, impl, order, {(names[i], names[j]): ctx.int("w%d" % k) for k, (i, j) in enumerate(SHAPES[shape])})


def grown(ctx, alg, impl, seeds, free):
    rng = _random.Random(67867967 * (1 + ctx.choice("seed", seeds)))
    edges = random_edges(rng, NAMES, rng.choice([6, 8, 10, 12]))
    pot = {v: rng.choice([0, 0, 2, 5, 9]) for v in NAMES}
    w = {(s, t): rng.choice([0, 1, 1, 3, 6]) + pot[t] - pot[s] for s, t in edges}
    for i, e in enumerate(rng.sample(edges, free)):
        w[e] = ctx.int("w%d" % i)
    run(ctx, alg, impl, NAMES, w, decoy=True)


def jobs(tier):
    q = tier == "quick"
    out = []
    for alg, impl in (("floyd_warshall", "list"), ("floyd_warshall", "matrix"), ("johnson", "list")):
        p = "%s/%s/" % (alg, impl)
        c = dict(alg=alg, impl=impl)
        out.append(Job(p + "every3", every, dict(n=3, loops=alg != "johnson", **c), reach=["done"]))
        out.append(Job(p + "every2", every, dict(n=2, loops=True, **c), reach=["done"]))
        for s in SHAPES:
            if not q or s != "complete" and (s != "dense" or alg != "johnson"):
                out.append(Job(p + s, shape, dict(shape=s, perm=not q, **c), reach=["done"]))
        out.append(Job(p + "grown", grown, dict(seeds=40 if q else 80, free=3 if q and alg != "johnson" else 2 if q else 5, **c), reach=["done"]))
        if not q or impl == "list":
            out.append(Job(p + "every4", every, dict(n=4, loops=False, most=4 if q and alg != "johnson" else 3 if q else 6, **c), reach=["done"]))
    return out
