import random as _random
from symex.api import *
import pydatastructs.graphs.algorithms as A
from checks.graphlib import *

BOUNDS = {
    "quick": "every directed graph on 3 vertices with self loops and on 4 vertices without; 8 vertices: 60 seeded graphs with three free edges, cyclic or not; parallel: 1, 2 or 3 threads, any schedule of up to six choices",
    "thorough": "every directed graph on 4 vertices with self loops at two of them; 150 seeded graphs with six free edges"}
ASSUMPTIONS = ["topological sorting exists for adjacency lists and the Python backend"]
NAMES = ["a", "b_1", "b", "c", "V5", "x", "y", "10"]


def run(ctx, names, edges, threads, schedule=0, decoy=False, weights=False):
    g = build("list", "py", names, {e: i if weights else None for i, e in enumerate(edges)}, decoy=decoy)
    before = snapshot(g, names)
    cyclic = bool(simple_cycles(edges, names))
    try:
        if threads:
            with patched(A, ThreadPoolExecutor=pool_class(ctx, schedule)):
                order = A.topological_sort_parallel(g, "kahn", threads)
        else:
            order = A.topological_sort(g, "kahn")
    except ValueError:
        ctx.check(cyclic, "a graph without cycles is rejected")
        order = None
    if order is not None:
        ctx.check(not cyclic, "a graph with a cycle is not rejected")
        ctx.check(isinstance(order, list) and sorted(order) == sorted(names), "not every vertex once")
        ctx.check(all(order.index(s) < order.index(t) for s, t in edges), "an edge goes backwards")
    after = snapshot(g, names)
    ctx.check(g.num_vertices() == len(names) and after[0] == before[0] and after[2] == before[2], "the graph itself is changed")
    ctx.check(all((after[1][e] is None) == (before[1][e] is None) for e in before[1]), "edge data of the graph is changed")
    ctx.reach("rejected" if order is None else "sorted")


def every(ctx, n, loops, threads, schedule=0):
    names = NAMES[:n]
    pool = pairs(names) + [(v, v) for v in names[:loops]]
    run(ctx, names, chosen(ctx, pool), threads, schedule)


def grown(ctx, seeds, free, threads, schedule=0):
    rng = _random.Random(86028121 * (1 + ctx.choice("seed", seeds)))
    rank = rng.sample(NAMES, len(NAMES))
    edges = [(s, t) for s, t in random_edges(rng, NAMES, rng.choice([8, 16, 30, 56])) if rank.index(s) < rank.index(t)]
    pool = [p for p in rng.sample(pairs(NAMES, True), 2 * free) if rank.index(p[0]) < rank.index(p[1]) or rng.random() < 0.5][:free]
    edges = [e for e in edges if e not in pool] + chosen(ctx, pool)
    run(ctx, NAMES, edges, threads, schedule, decoy=True, weights=True)


def jobs(tier):
    q = tier == "quick"
    out = []
    for threads in (0, 1, 2, 3):
        p = "kahn/%d/" % threads
        out.append(Job(p + "every3", every, dict(n=3, loops=3, threads=threads), reach=["sorted", "rejected"]))
        if threads in (0, 2):
            out.append(Job(p + "every4", every, dict(n=4, loops=0 if q else 2, threads=threads), reach=["sorted", "rejected"]))
        out.append(Job(p + "grown", grown, dict(seeds=60 if q else 150, free=3 if q else 6, threads=threads), reach=["sorted", "rejected"]))
        if threads > 1:
            out.append(Job(p + "schedules3", every, dict(n=3, loops=0, threads=threads, schedule=6), reach=["sorted", "rejected"]))
            out.append(Job(p + "schedules", grown, dict(seeds=20 if q else 60, free=1, threads=threads, schedule=4 if q else 6), reach=["sorted", "rejected"]))
    return out
