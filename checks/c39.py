import itertools
import random as _random
from symex.api import *
import pydatastructs.graphs.algorithms as A
from checks.graphlib import *

BOUNDS = {
    "quick": "both algorithms on adjacency lists and matrices: every directed graph on 3 vertices with self loops, on 4 vertices with at most four edges, and seven denser ones on 4 and 5 vertices, with unbounded non-negative integer capacities; 6 vertices: 40 seeded graphs with two unbounded capacities",
    "thorough": "every directed graph on 4 vertices with at most six edges, four unbounded capacities on 6 vertices"}
ASSUMPTIONS = ["capacities are non-negative numbers, source and sink differ", "maximum flow exists for the Python backend only"]
HALVES = ["*/diamond*", "*/back", "*/direct", "*/grown"]
NAMES = ["s", "t", "b_1", "b", "x", "y"]


def run(ctx, alg, impl, names, cap, source="s", sink="t", decoy=False):
    g = build(impl, "py", names, cap, decoy=decoy)
    before = snapshot(g, names)
    values = {k: None if e is None else e.value for k, e in before[1].items()}
    kw = {} if alg is None else {"algorithm": alg}
    flow = A.max_flow(g, source, sink, **kw)
    rest = [v for v in names if v not in (source, sink)]
    cuts = []
    for k in range(len(rest) + 1):
        for side in itertools.combinations(rest, k):
            side = set(side) | {source}
            cuts.append(Sum([c for (u, v), c in cap.items() if u in side and v not in side]))
    ctx.check(eq(flow, Min(cuts)), "not the capacity of a minimum cut")
    after = snapshot(g, names)
    ctx.check(after[0] == before[0] and after[2] == before[2], "the graph itself is changed")
    ctx.check(And(*[after[1][k] is None if c is None else eq(after[1][k].value, c) for k, c in values.items()]), "capacities are changed")
    ctx.reach("done")


def every(ctx, alg, impl, n, loops, most=99):
    names = NAMES[:n]
    edges = chosen(ctx, pairs(names, loops))
    ctx.assume(len(edges) <= most)
    run(ctx, alg, impl, names, {e: ctx.int("c%d" % i, 0, None) for i, e in enumerate(edges)})


# vertex 0 is the source, 1 the sink
SHAPES = {"diamond": (4, [(0, 2), (0, 3), (2, 1), (3, 1), (2, 3)]), "diamond2": (4, [(0, 2), (0, 3), (2, 1), (3, 1), (2, 3), (3, 2)]),
          "back": (4, [(0, 2), (2, 0), (2, 3), (3, 2), (3, 1), (2, 1), (1, 3)]), "direct": (4, [(0, 1), (0, 2), (2, 1), (0, 3), (3, 2), (3, 0), (1, 0)]),
          "cross": (5, [(0, 2), (0, 3), (2, 4), (3, 4), (2, 3), (4, 1), (3, 1)]), "undo": (6, [(0, 2), (2, 5), (5, 1), (0, 3), (3, 5), (2, 4), (4, 1)]),
          "ladder": (6, [(0, 2), (0, 3), (2, 4), (3, 5), (4, 1), (5, 1), (2, 5), (3, 4)])}


def shape(ctx, alg, impl, shape):
    n, es = SHAPES[shape]
    names = NAMES[:n]
    if ctx.flag("reverse"):
        es = es[::-1]
    run(ctx, alg, impl, names, {(names[i], names[j]): ctx.int("c%d" % k, 0, None) for k, (i, j) in enumerate(es)})


def grown(ctx, alg, impl, seeds, free):
    rng = _random.Random(122949829 * (1 + ctx.choice("seed", seeds)))
    edges = random_edges(rng, NAMES, rng.choice([8, 12, 16, 22]))
    cap = {e: rng.choice([0, 1, 1, 2, 3, 5, 8]) for e in edges}
    for i, e in enumerate(rng.sample(edges, free)):
        cap[e] = ctx.int("c%d" % i, 0, None)
    s, t = rng.sample(NAMES, 2)
    run(ctx, alg, impl, NAMES, cap, s, t, decoy=True)


def jobs(tier):
    q = tier == "quick"
    out = []
    for alg in ("edmonds_karp", "dinic"):
        for impl in ("list", "matrix"):
            p = "%s/%s/" % (alg, impl)
            c = dict(alg=alg, impl=impl)
            out.append(Job(p + "every3", every, dict(n=3, loops=True, **c), reach=["done"]))
            out.append(Job(p + "two", every, dict(n=2, loops=True, **c), reach=["done"]))
            for s in SHAPES:
                if not q or impl == "list" and s != "ladder":
                    out.append(Job(p + s, shape, dict(shape=s, **c), reach=["done"]))
            out.append(Job(p + "every4", every, dict(n=4, loops=False, most=4 if q else 6, **c), reach=["done"]))
            out.append(Job(p + "grown", grown, dict(seeds=40 if q else 100, free=2 if q else 4, **c), reach=["done"]))
    out.append(Job("default", every, dict(alg=None, impl="list", n=3, loops=False), reach=["done"]))
    return out
