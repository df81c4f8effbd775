import random as _random
from symex.api import *
import pydatastructs.graphs.algorithms as A
from checks.graphlib import *

BOUNDS = {
    "quick": "every directed graph on 3 vertices with self loops and on 4 vertices without, adjacency lists and matrices; 8 vertices: 100 seeded graphs with three free edges",
    "thorough": "every directed graph on 4 vertices with self loops at two of them; 300 seeded graphs with six free edges"}
ASSUMPTIONS = ["strongly connected components exist for the Python backend only"]
NAMES = ["a", "b_1", "b", "c", "V5", "x", "y", "10"]


def run(ctx, alg, impl, names, edges, decoy=False):
    g = build(impl, "py", names, {e: None for e in edges}, decoy=decoy)
    before = snapshot(g, names)
    got = A.strongly_connected_components(g, alg)
    reach = {v: set(distances(edges, v)) for v in names}
    classes = {frozenset(t for t in names if t in reach[s] and s in reach[t]) for s in names}
    ctx.check(isinstance(got, list) and sum(len(c) for c in got) == len(names) and all(len(c) for c in got), "not a partition of the vertices")
    ctx.check({frozenset(c) for c in got} == classes, "not the classes of mutually reachable vertices")
    after = snapshot(g, names)
    ctx.check(after[0] == before[0] and after[2] == before[2], "the graph itself is changed")
    ctx.reach("one" if len(classes) == 1 else "all" if len(classes) == len(names) else "some")


def every(ctx, alg, impl, n, loops):
    names = NAMES[:n]
    run(ctx, alg, impl, names, chosen(ctx, pairs(names) + [(v, v) for v in names[:loops]]))


def grown(ctx, alg, impl, seeds, free):
    rng = _random.Random(104395301 * (1 + ctx.choice("seed", seeds)))
    edges = random_edges(rng, NAMES, rng.choice([8, 10, 12, 18]))
    pool = rng.sample(pairs(NAMES, True), free)
    edges = [e for e in edges if e not in pool] + chosen(ctx, pool)
    run(ctx, alg, impl, NAMES, edges, decoy=True)


def jobs(tier):
    q = tier == "quick"
    out = []
    for alg in ("kosaraju", "tarjan"):
        for impl in ("list", "matrix"):
            p = "%s/%s/" % (alg, impl)
            c = dict(alg=alg, impl=impl)
            r = ["one", "some", "all"]
            out.append(Job(p + "every3", every, dict(n=3, loops=3, **c), reach=r))
            out.append(Job(p + "every4", every, dict(n=4, loops=0 if q else 2, **c), reach=r))
            out.append(Job(p + "grown", grown, dict(seeds=100 if q else 300, free=3 if q else 6, **c), reach=["some"]))
    return out
