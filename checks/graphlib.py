"""graphs whose edges, weights and history are chosen by the solver, and plain specifications over them"""
import itertools
from symex.api import *
from pydatastructs.graphs import Graph
from pydatastructs import Backend
from pydatastructs.utils import AdjacencyListGraphNode, AdjacencyMatrixGraphNode

BE = {"py": Backend.PYTHON, "cpp": Backend.CPP}
NODE = {"list": AdjacencyListGraphNode, "matrix": AdjacencyMatrixGraphNode}


def node(impl, be, name, data=0):
    return NODE[impl](name, data, backend=BE[be])


def build(impl, be, names, edges, undirected=False, decoy=False):
    """edges: {(source, target): cost or None}; decoy: also adds edges and a vertex that are taken away again"""
    g = Graph(*[node(impl, be, n, i) for i, n in enumerate(names)], implementation="adjacency_" + impl, backend=BE[be])
    gone = []
    if decoy:
        gone = [(s, t) for s in names for t in names if (s, t) not in edges and (not undirected or (t, s) not in edges)]
        gone = gone[::2] if len(gone) > 4 else gone
        if impl == "list":
            g.add_vertex(node(impl, be, "gone", 9))
            g.add_edge("gone", names[0], 1)
            g.add_edge(names[-1], "gone", 1)
        for s, t in gone:
            g.add_edge(s, t, 1)
    for (s, t), c in edges.items():
        for a, b in ((s, t), (t, s)) if undirected and s != t else ((s, t),):
            if c is None:
                g.add_edge(a, b)
            else:
                g.add_edge(a, b, c)
    for s, t in gone:
        g.remove_edge(s, t)
    if decoy and impl == "list":
        g.remove_vertex("gone")
    return g


def snapshot(g, names):
    """adjacency, weights and neighbours as the public interface reports them"""
    return ({(s, t) for s in names for t in names if g.is_adjacent(s, t)},
            {(s, t): g.get_edge(s, t) for s in names for t in names},
            {s: sorted(x.name for x in g.neighbors(s)) for s in names})


def pairs(names, loops=False, undirected=False):
    if undirected:
        return list(itertools.combinations(names, 2))
    return [(s, t) for s in names for t in names if loops or s != t]


def chosen(ctx, pool, tag="e"):
    return [e for i, e in enumerate(pool) if ctx.flag("%s%d" % (tag, i))]


def distances(edges, source):
    """number of edges on a shortest path, for the reachable vertices"""
    d, layer = {source: 0}, [source]
    while layer:
        nxt = []
        for u in layer:
            for s, t in edges:
                if s == u and t not in d:
                    d[t] = d[u] + 1
                    nxt.append(t)
        layer = nxt
    return d


def simple_paths(edges, s, t):
    """all simple paths from s to t as tuples of edges (s == t: the empty path)"""
    out = []

    def go(u, seen, path):
        if u == t:
            out.append(tuple(path))
            return
        for a, b in edges:
            if a == u and b not in seen:
                go(b, seen | {b}, path + [(a, b)])
    go(s, {s}, [])
    return out


def simple_cycles(edges, names):
    out = []
    for a, b in edges:
        for p in simple_paths(edges, b, a):
            used = [a] + [e[0] for e in p]
            if min(used) == a:
                out.append(((a, b),) + p)
    return out


def weight(path, w):
    return Sum([w[e] for e in path])


def random_edges(rng, names, m, undirected=False):
    pool = pairs(names, undirected=undirected)
    return rng.sample(pool, min(m, len(pool)))
