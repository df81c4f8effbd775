import random as _random
from symex.api import *
import pydatastructs.graphs.algorithms as A
from checks.graphlib import *

BOUNDS = {
    "quick": "every directed graph on 3 vertices, self loops included, every one on 4 vertices with at most five edges and seven denser ones up to the complete one, with unbounded integer weights, adjacency lists and matrices; 7 vertices: 60 seeded graphs with four unbounded weights, after removed vertices and edges; compiled Dijkstra: weights from 0, 0.5, 1, 3",
    "thorough": "every directed graph on 4 vertices with at most seven edges; six unbounded weights on 7 vertices"}
ASSUMPTIONS = ["every edge has a numeric weight", "Dijkstra is only used with non-negative weights", "the source and the target are vertices of the graph",
               "compiled weights are converted to 64-bit floats"]
HALVES = ["*/py/back", "*/py/dense"]
NAMES = ["s", "b_1", "b", "t", "x", "y", "z"]


def run(ctx, alg, impl, names, w, source, target="", decoy=False, be="py"):
    g = build(impl, be, names, w, decoy=decoy)
    edges = list(w)
    before = snapshot(g, names)
    values = {k: None if e is None else e.value for k, e in before[1].items()}
    kw = {"backend": BE[be]} if be == "cpp" else {}
    reach = distances(edges, source)
    bad = Or(*[lt(weight(c, w), 0) for c in simple_cycles(edges, names) if c[0][0] in reach]) if alg == "bellman_ford" else False
    try:
        if target:
            d, pred = A.shortest_paths(g, alg, source, target, **kw)
            dist = None
        else:
            dist, pred = A.shortest_paths(g, alg, source, **kw)
    except ValueError as e:
        ctx.check(bad, "a negative cycle is reported but none can be reached")
        ctx.reach("cycle")
        return
    ctx.check(Not(bad), "a negative cycle is not reported")
    ctx.check(set(pred) == set(names) and (target or set(dist) == set(names)), "vertices of the result")
    least = {}
    for v in names:
        ps = simple_paths(edges, source, v)
        ctx.check((v in reach) == (len(ps) > 0), "specification")
        if v in reach:
            least[v] = Min([weight(p, w) for p in ps])
    for v in names:
        if not target or v == target:
            got = d if target else dist[v]
            if v in reach:
                ctx.check(not (isinstance(got, float) and got == INF), "a path is not found")
                ctx.check(eq(got, least[v]), "distance")
            else:
                ctx.check(isinstance(got, float) and got == INF, "distance of a vertex that cannot be reached")
        if v == source or v not in reach:
            ctx.check(pred[v] is None, "predecessor of the source or of an unreachable vertex")
            continue
        u, steps = v, 0
        while u != source and steps <= len(names):
            p = pred[u]
            ctx.check((p, u) in w, "a predecessor is not one")
            ctx.check(eq(Sum([least[p], w[p, u]]), least[u]), "a predecessor is not on a shortest path")
            u, steps = p, steps + 1
        ctx.check(u == source, "the predecessors do not lead back to the source")
    after = snapshot(g, names)
    ctx.check(after[0] == before[0] and after[2] == before[2], "the graph itself is changed")
    ctx.check(And(*[after[1][k] is None if c is None else eq(after[1][k].value, c) for k, c in values.items()]), "weights of the graph are changed")
    ctx.reach("done")


COST = [0, 0.5, 1, 3]


def cost(ctx, alg, be, name):
    if be == "cpp":
        return COST[ctx.choice(name, 4)]
    return ctx.int(name, 0, None) if alg == "dijkstra" else ctx.int(name)


def every(ctx, alg, impl, be, n, loops, most=99, single=False):
    names = NAMES[:n]
    pool = pairs(names, loops)
    edges = chosen(ctx, pool)
    ctx.assume(len(edges) <= most)
    w = {e: cost(ctx, alg, be, "w%d" % i) for i, e in enumerate(edges)}
    target = names[ctx.choice("target", n)] if single else ""
    run(ctx, alg, impl, names, w, names[0], target, be=be)


SHAPES = {"diamond": [(0, 1), (0, 2), (1, 3), (2, 3), (1, 2)], "back": [(0, 1), (1, 2), (2, 3), (0, 3), (0, 2), (1, 3)],
          "cycle": [(0, 1), (1, 2), (2, 3), (3, 1), (0, 2), (0, 3)], "both": [(0, 1), (0, 2), (1, 2), (2, 1), (1, 3), (2, 3), (3, 1)],
          "apart": [(0, 1), (1, 0), (2, 3), (3, 2)], "complete": [(i, j) for i in range(4) for j in range(4) if i != j],
          "dense": [(0, 1), (0, 2), (0, 3), (1, 2), (2, 1), (2, 3), (3, 2)]}


def shape(ctx, alg, impl, be, shape):
    names = NAMES[:4]
    order = [names[i] for i in ctx.permutation("order", 4)] if shape in ("diamond", "apart") and be == "py" else list(names)
    w = {(names[i], names[j]): cost(ctx, alg, be, "w%d" % k) for k, (i, j) in enumerate(SHAPES[shape])}
    run(ctx, alg, impl, order, w, names[0], be=be)


def grown(ctx, alg, impl, be, seeds, free, neg):
    rng = _random.Random(49979687 * (1 + ctx.choice("seed", seeds)))
    edges = random_edges(rng, NAMES, rng.choice([7, 9, 12, 14]))
    pot = {v: rng.choice([0, 0, 2, 5, 9]) for v in NAMES}
    w = {}
    for s, t in edges:
        w[s, t] = rng.choice([0, 1, 1, 3, 6])
        if neg:
            w[s, t] += pot[t] - pot[s]
    for i, e in enumerate(rng.sample(edges, free)):
        w[e] = cost(ctx, alg, be, "w%d" % i)
    run(ctx, alg, impl, NAMES, w, rng.choice(NAMES), rng.choice(["", "", rng.choice(NAMES)]), decoy=True, be=be)


def jobs(tier):
    q = tier == "quick"
    out = []
    for alg, impl, be in (("dijkstra", "list", "py"), ("dijkstra", "matrix", "py"), ("dijkstra", "list", "cpp"), ("bellman_ford", "list", "py"), ("bellman_ford", "matrix", "py")):
        p = "%s/%s/%s/" % (alg, impl, be)
        c = dict(alg=alg, impl=impl, be=be)
        r = ["done", "cycle"] if alg == "bellman_ford" else ["done"]
        small = be == "cpp"
        out.append(Job(p + "every2", every, dict(n=2, loops=True, single=True, **c), reach=r))
        out.append(Job(p + "every3", every, dict(n=3, loops=alg == "dijkstra" and not small, most=4 if small else 99, **c), reach=r))
        for s in SHAPES:
            if not small or len(SHAPES[s]) < 6:
                out.append(Job(p + s, shape, dict(shape=s, **c), reach=["done"]))
        out.append(Job(p + "grown", grown, dict(seeds=60 if q else 100, free=2 if small else 4 if q else 6, neg=alg != "dijkstra", **c), reach=r))
        if not small and (not q or impl == "list"):
            out.append(Job(p + "every4", every, dict(n=4, loops=False, most=5 if q else 7, **c), reach=r))
    return out
