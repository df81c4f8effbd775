import random as _random
from symex.api import *
import pydatastructs.graphs.algorithms as A
from pydatastructs import Backend
from checks.graphlib import *

BOUNDS = {
    "quick": "every directed graph on 3 vertices, self loops included, from any source, and every one on 4 vertices without self loops from one source, adjacency lists and matrices; 7 vertices: 40 seeded graphs with three free edges; the call at which the callback stops the search is free; parallel search: 1, 2 or 3 threads, eager and deferred schedules",
    "thorough": "every directed graph on 4 vertices from any source; 100 seeded graphs with five free edges"}
ASSUMPTIONS = ["the source is a vertex of the graph", "the order in which the neighbours of one vertex are visited is free",
               "compiled breadth-first search passes node objects and makes no call for a vertex without outgoing edges"]
NAMES = ["a", "b_1", "b", "c", "V5", "x", "y"]


def name_of(x):
    return x if isinstance(x, str) else x.name


def run(ctx, kind, impl, be, names, edges, source, stops, threads=0, schedule=None, decoy=False):
    g = build(impl, be, names, {e: None for e in edges}, decoy=decoy)
    calls, stopped = [], []

    def op(cur, nxt, *extra, **kw):
        if extra != ("x", 5) or kw != {"key": 7}:
            ctx.fail("arguments of the callback")
        calls.append((name_of(cur), name_of(nxt)))
        if len(calls) > 4 * len(names):
            ctx.fail("the search visits vertices again and again")
        if stops and ctx.flag("stop%d" % len(calls)):
            stopped.append(len(calls))
            return [False, None, 0][len(calls) % 3]
        return [True, 1, "go"][len(calls) % 3]
    kw = {"key": 7}
    if be == "cpp" or stops and kind != "par":
        kw["backend"] = BE[be]
    if kind == "par":
        with patched(A, ThreadPoolExecutor=pool_class(ctx, 6 if schedule else 0)):
            r = A.breadth_first_search_parallel(g, source, threads, op, "x", 5, **kw)
    elif kind == "bfs":
        r = A.breadth_first_search(g, source, op, "x", 5, **kw)
    else:
        r = A.depth_first_search(g, source, op, "x", 5, **kw)
    dist = distances(edges, source)
    visits = [c for c in calls if c[1] != ""]
    order = [c[1] for c in visits]
    ctx.check(len(set(order)) == len(order) and source not in order, "a vertex is visited twice")
    ctx.check(set(order) <= set(dist), "visits a vertex that is not reachable")
    ctx.check(all(c in edges for c in visits), "visits along an edge that does not exist")
    seen = [source]
    for cur, nxt in calls:
        ctx.check(cur in seen, "goes on from a vertex that was not visited")
        if nxt:
            if kind == "dfs":
                later = seen[seen.index(cur) + 1:]
                ctx.check(not any((v, w) in edges and w not in seen for v in later if (cur, v) not in visits for w in names), "does not go deeper first")
            seen.append(nxt)
    if kind != "dfs":
        ctx.check(all(dist[nxt] == dist[cur] + 1 for cur, nxt in visits), "reached over a path that is not shortest")
        ctx.check([dist[v] for v in order] == sorted(dist[v] for v in order), "visits a farther vertex before a nearer one")
    ends = [c[0] for c in calls if c[1] == ""]
    sinks = [v for v in dist if not any(e[0] == v for e in edges)]
    ctx.check(len(set(ends)) == len(ends) and set(ends) <= set(sinks), "end of a path reported for another vertex or twice")
    if not stopped:
        ctx.check(set(order) == set(dist) - {source}, "does not visit every reachable vertex")
        if be == "py":
            ctx.check(set(ends) == set(sinks), "end of a path not reported")
    elif kind == "par":
        level = dist[calls[stopped[0] - 1][0]]
        ctx.check(all(dist[c[0]] <= level for c in calls), "goes on to the next level although the callback stopped the search")
    else:
        ctx.check(len(calls) == stopped[0], "goes on although the callback stopped the search")
    ctx.check(r is None, "result")
    ctx.reach("stopped" if stopped else "done")


def every(ctx, kind, impl, be, n, loops, stops, fixed=(), threads=0, schedule=None, anysource=True):
    names = NAMES[:n]
    fixed = [tuple(e) for e in fixed]
    edges = fixed + chosen(ctx, [e for e in pairs(names, loops) if e not in fixed])
    source = names[ctx.choice("source", n)] if anysource else names[0]
    run(ctx, kind, impl, be, names, edges, source, stops, threads, schedule)


def grown(ctx, kind, impl, be, seeds, free, stops, threads=0, schedule=None):
    rng = _random.Random(15485863 * (1 + ctx.choice("seed", seeds)))
    edges = random_edges(rng, NAMES, rng.choice([6, 9, 12, 18]))
    pool = rng.sample(pairs(NAMES, True), free)
    edges = [e for e in edges if e not in pool] + chosen(ctx, pool)
    run(ctx, kind, impl, be, NAMES, edges, rng.choice(NAMES), stops, threads, schedule, decoy=True)


def jobs(tier):
    q = tier == "quick"
    out = []
    for impl in ("list", "matrix"):
        for kind, be in (("bfs", "py"), ("bfs", "cpp"), ("dfs", "py"), ("par", "py")):
            p = "%s/%s/%s/" % (kind, impl, be)
            t = dict(threads=2) if kind == "par" else {}
            c = dict(kind=kind, impl=impl, be=be)
            out.append(Job(p + "every3", every, dict(n=3, loops=True, stops=False, **c, **t), reach=["done"]))
            out.append(Job(p + "every3/stop", every, dict(n=3, loops=False, stops=True, **c, **t), reach=["done", "stopped"]))
            fixed = []
            out.append(Job(p + "every4", every, dict(n=4, loops=False, stops=False, fixed=fixed, anysource=not q, **c, **t), reach=["done"]))
            out.append(Job(p + "grown", grown, dict(seeds=40 if q else 100, free=3 if q else 5, stops=False, **c, **t), reach=["done"]))
            out.append(Job(p + "grown/stop", grown, dict(seeds=30 if q else 60, free=1 if q else 2, stops=True, **c, **t), reach=["done", "stopped"]))
            if kind == "par":
                for threads in (1, 3):
                    out.append(Job(p + "schedules%d" % threads, grown, dict(seeds=10 if q else 40, free=1, stops=False, threads=threads, schedule=True, **c), reach=["done"]))
    return out
