import random as _random
from symex.api import *
from pydatastructs.graphs import Graph
from pydatastructs import Backend
from pydatastructs.utils import AdjacencyListGraphNode, AdjacencyMatrixGraphNode

BE = {"py": Backend.PYTHON, "cpp": Backend.CPP}
BOUNDS = {
    "quick": "adjacency lists and matrices in both backends: three free operations on 2 vertices, two free operations on 3 vertices from four starting graphs, one free operation on 5 vertices after 25 seeded histories of 25 operations each; operations: adding edges with an unbounded integer cost (compiled: fixed costs) or without, removing edges, adding and removing vertices (lists), on known and unknown vertices, self loops included; every query on every vertex and pair after every free operation; vertex names with underscores, coinciding joined names, and names of attributes",
    "thorough": "three free operations on 3 vertices, two after 60 histories of 40 operations"}
ASSUMPTIONS = ["adding an edge again without a cost leaves its edge data unspecified", "a vertex put back is a new node, and nodes are created without an adjacency list",
               "compiled edges store 64-bit integers, floats and strings as costs; the compiled matrix returns integer costs as floats"]
ERR = (ValueError, KeyError, AttributeError)
UNSPEC = object()


class G:
    def __init__(self, ctx, impl, be, names, kw=True):
        self.ctx, self.impl, self.be = ctx, impl, be
        self.node = {}
        self.serial = 0
        for n in names:
            self.fresh(n)
        self.names = list(names)
        args = [self.node[n] for n in names]
        k = {"backend": BE[be]}
        if kw or not names or be == "cpp":
            k["implementation"] = "adjacency_" + impl
        self.g = Graph(*args, **k)
        self.edges = {}
        self.costs = 0

    def fresh(self, n):
        self.serial += 1
        cls = AdjacencyListGraphNode if self.impl == "list" else AdjacencyMatrixGraphNode
        self.node[n] = cls(n, self.serial, backend=BE[self.be])

    def rejected(self, f, what):
        try:
            f()
        except ERR:
            return
        self.ctx.fail(what + " not rejected")

    def add(self, s, t, cost):
        if s not in self.names or t not in self.names:
            self.rejected(lambda: self.g.add_edge(s, t, cost), "edge with an unknown vertex")
            return
        if cost is None:
            self.g.add_edge(s, t)
            self.edges[s, t] = UNSPEC if self.edges.get((s, t)) is not None else None
        else:
            self.g.add_edge(s, t, cost)
            self.edges[s, t] = cost

    def remove(self, s, t):
        if (s, t) in self.edges:
            self.g.remove_edge(s, t)
            del self.edges[s, t]
        else:
            try:
                self.g.remove_edge(s, t)
            except ERR:
                pass

    def add_vertex(self, n):
        if n in self.names:
            old = self.node[n]
            self.fresh(n)
            new, self.node[n] = self.node[n], old
            try:
                self.g.add_vertex(new)
            except ERR:
                pass
            return
        self.fresh(n)
        self.g.add_vertex(self.node[n])
        self.names.append(n)

    def remove_vertex(self, n):
        if n not in self.names:
            self.rejected(lambda: self.g.remove_vertex(n), "removal of an unknown vertex")
            return
        self.g.remove_vertex(n)
        self.names.remove(n)
        self.edges = {e: c for e, c in self.edges.items() if n not in e}

    def cost(self, name=None):
        self.costs += 1
        if name and self.be == "py":
            return self.ctx.int(name)
        return self.costs * 7 - 20

    def look(self, universe):
        ctx, g = self.ctx, self.g
        ctx.check(g.num_vertices() == len(self.names), "number of vertices")
        ctx.check(g.num_edges() == len(self.edges), "number of edges")
        if self.be == "py":
            ctx.check(sorted(g.vertices) == sorted(self.names), "list of vertices")
        for s in universe:
            for t in universe:
                if s in self.names:
                    try:
                        a = g.is_adjacent(s, t)
                    except ERR as e:
                        if t in self.names:
                            raise e
                        a = False
                    ctx.check(a is ((s, t) in self.edges), "adjacency")
                e = g.get_edge(s, t)
                c = self.edges.get((s, t), None)
                if c is UNSPEC:
                    continue
                if c is None:
                    ctx.check(e is None or ((s, t) in self.edges and e.value is None), "edge data of an absent or unweighted edge")
                else:
                    ctx.check(e is not None and eq(e.value, c), "edge data")
                    if e is not None and self.be == "py":
                        ctx.check(e.source.name == s and e.target.name == t, "end points of an edge")
        for s in self.names:
            nb = g.neighbors(s)
            ctx.check(sorted(x.name for x in nb) == sorted(t for u, t in self.edges if u == s), "neighbours")
            ctx.check(all(x is self.node[x.name] for x in nb), "neighbours are not the graph's vertices")
            ctx.check(all(x.data == self.node[x.name].data for x in nb), "data of a neighbour")

    def free(self, tag, universe):
        ctx = self.ctx
        op = ctx.choice("op" + tag, 5 if self.impl == "list" else 3)
        u = universe[ctx.choice("u" + tag, len(universe))]
        v = universe[ctx.choice("v" + tag, len(universe))] if op < 3 else None
        if op == 0:
            self.add(u, v, self.cost("c" + tag))
        elif op == 1:
            self.add(u, v, None)
        elif op == 2:
            self.remove(u, v)
        elif op == 3:
            self.add_vertex(u)
        else:
            self.remove_vertex(u)


START = {"none": [], "cycle": [(0, 1, 1), (1, 2, 1), (2, 0, 1)], "full": [(i, j, (i + j) % 2) for i in range(3) for j in range(3)], "star": [(0, 1, 1), (0, 2, 0), (0, 0, 1)]}


def free(ctx, impl, be, names, start, n):
    q = G(ctx, impl, be, names[:3], kw=start != "star")
    for i, j, w in START[start]:
        q.add(names[i], names[j], q.cost("s%d%d" % (i, j)) if w else None)
    q.look(names)
    for k in range(n):
        q.free(str(k), names)
        q.look(names)
    ctx.reach("done")


def grown(ctx, impl, be, seeds, length, n):
    rng = _random.Random(122949823 * (1 + ctx.choice("seed", seeds)))
    names = ["v_1", "v_2", "b", "v", "2_x", "w"]
    q = G(ctx, impl, be, names[:5] if impl == "list" else names)
    if any(a + "_" + b == c + "_" + d and a != c for a in names for b in names for c in names for d in names):
        raise AssertionError("ambiguous names")
    for _ in range(length):
        u, v = rng.choice(names), rng.choice(names)
        x = rng.random()
        if x < 0.45:
            q.add(u, v, q.cost())
        elif x < 0.6:
            q.add(u, v, None)
        elif x < 0.8 or impl == "matrix":
            live = sorted(q.edges)
            q.remove(*(rng.choice(live) if live and rng.random() < 0.7 else (u, v)))
        elif x < 0.92:
            q.add_vertex(u)
        else:
            q.remove_vertex(u)
    q.look(names)
    for k in range(n):
        q.free(str(k), names[:3] + names[5:])
        q.look(names)
    ctx.reach("done")


def joined(ctx, impl, be):
    """two edges whose joined names coincide: the edge data table is keyed by source + '_' + target"""
    ctx.finding("graph-edge-key", True)
    names = ["a", "b_c", "a_b", "c"]
    q = G(ctx, impl, be, names)
    q.add("a", "b_c", q.cost())
    second = ctx.choice("second", 3)
    if second == 1:
        q.add("a_b", "c", q.cost())
    elif second == 2:
        q.add("a_b", "c", q.cost())
        q.remove("a", "b_c")
    q.look(names)
    ctx.reach("done")


def attributes(ctx, be):
    """list vertices named like attributes of the node objects"""
    ctx.finding("graph-attribute-names", True)
    name = ["name", "data", "adjacent"][ctx.choice("name", 3)]
    q = G(ctx, "list", be, ["a", name])
    if ctx.flag("edge"):
        q.add("a", name, q.cost())
    q.look(["a", name])
    ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    out = []
    for impl in ("list", "matrix"):
        for be in BE:
            p = "%s/%s/" % (impl, be)
            out.append(Job(p + "free2", free, dict(impl=impl, be=be, names=["x", "v_1"], start="none", n=3 if q else 4), reach=["done"]))
            for start in START:
                out.append(Job(p + "free3/" + start, free, dict(impl=impl, be=be, names=["a", "b", "c"] + (["d"] if start == "cycle" else []), start=start, n=2 if q else 3), reach=["done"]))
            out.append(Job(p + "grown", grown, dict(impl=impl, be=be, seeds=25 if q else 60, length=25 if q else 40, n=1 if q else 2), reach=["done"]))
            out.append(Job(p + "joined", joined, dict(impl=impl, be=be), reach=["done"]))
    for be in BE:
        out.append(Job("list/%s/attributes" % be, attributes, dict(be=be), reach=["done"]))
    return out
