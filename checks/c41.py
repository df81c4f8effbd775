"""Reference counts of everything the compiled containers hold or hand out, along every explored history."""
import gc
import random as _random
from collections import Counter
from sys import getrefcount
from symex.api import *
from checks import graphlib
from checks.treelib import BE
from checks.c22 import drive_rand
import pydatastructs.linear_data_structures.algorithms as A
from pydatastructs import (OneDimensionalArray as ODA, DynamicOneDimensionalArray as DODA, Stack, Backend, BinarySearchTree,
                           AVLTree, RedBlackTree, SplayTree, CartesianTree, Treap, BinaryTreeTraversal, BinaryIndexedTree)
from pydatastructs import breadth_first_search, shortest_paths, minimum_spanning_tree

BOUNDS = {
    "quick": "compiled arrays of 3 cells and dynamic arrays with 2 and 3 free operations, or 1 and 3 followed by each sort; stacks with 4 free operations; each compiled search tree with 3 free operations on free keys and shaped trees of 7 keys with one, every query and traversal in between; queries of trees with 300 and more nodes (positions are then counted objects); binary indexed trees of 4 numbers beyond the small-integer cache; graphs of 3 vertices with up to 3 edges and 2 free operations, searches, shortest paths and spanning trees on every graph of 3 vertices",
    "thorough": "one operation more in every history except for the graphs"}
ASSUMPTIONS = ["CPython's own count of an object's references is what decides when it is released",
               "objects with constant lifetime (None, small integers) are exempt: they are never released"]
CPP = Backend.CPP
TREES = {"bst": BinarySearchTree, "avl": AVLTree, "rb": RedBlackTree, "splay": SplayTree, "cart": CartesianTree, "treap": Treap}


class Tok:
    """An element that is compared through a symbolic number."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return self.v < o.v

    def __gt__(self, o):
        return self.v > o.v

    def __le__(self, o):
        return self.v <= o.v

    def __ge__(self, o):
        return self.v >= o.v

    def __eq__(self, o):
        return isinstance(o, Tok) and bool(self.v == o.v)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 0


class Audit:
    """own: everything the harness itself holds on to, one reference each."""

    def __init__(self, ctx):
        self.ctx, self.own = ctx, []

    def tok(self, v):
        self.own.append(Tok(v))
        return len(self.own) - 1

    def keep(self, x):
        self.own.append(x)
        return len(self.own) - 1

    def look(self, what, slots=()):
        """slots: every object a container holds, once for each place that holds it"""
        slots = list(slots)
        held = Counter(map(id, slots))
        own = Counter(map(id, self.own))
        low = []
        for i in range(len(slots)):
            # the container, this list, the argument; and the harness
            if getrefcount(slots[i]) < 1 + 2 * held[id(slots[i])] + own[id(slots[i])]:
                low.append(type(slots[i]).__name__)
        for i in range(len(self.own)):
            if getrefcount(self.own[i]) < 1 + 2 * held[id(self.own[i])] + own[id(self.own[i])]:
                low.append(type(self.own[i]).__name__)
        self.ctx.check(not low, "%s: fewer references are counted than exist (%s)" % (what, ", ".join(sorted(set(low)))))


def cells(a, n=None):
    return [a[i] for i in range(len(a) if n is None else n)]


# ---- arrays ---------------------------------------------------------------------
def array(ctx, ops, alg, form):
    A_ = Audit(ctx)
    n = 3
    for i in range(n):
        A_.tok(ctx.int("x%d" % i))
    if form == "list":
        a = ODA(Tok, A_.own[:n], backend=CPP)
    elif form == "sized":
        a = ODA(Tok, n, tuple(A_.own[:n]), backend=CPP)
    else:
        a = ODA(Tok, n, backend=CPP, init=A_.own[0])
    A_.look("new array", cells(a))
    for k in range(ops):
        op = ctx.choice("op%d" % k, 4)
        if op == 0:
            a[ctx.choice("i%d" % k, n)] = A_.own[ctx.choice("t%d" % k, n)]
        elif op == 1:
            a.fill(A_.own[ctx.choice("t%d" % k, n)])
        elif op == 2:
            i = ctx.choice("i%d" % k, n)
            for _ in range(3):
                a[i]
            a[i] = a[i]
        else:
            str(a), len(a)
        A_.look("array operation", cells(a))
    if alg:
        # the compiled sorts hand the elements to the comparator
        A_.keep(lambda x, y: x <= y)
        getattr(A, alg)(a, backend=CPP, **({"comp": A_.own[-1]} if ctx.flag("comp") else {}))
        A_.look(alg, cells(a))
        A.is_ordered(a, backend=CPP), A.linear_search(a, A_.own[0], backend=CPP), A.binary_search(a, A_.own[0], backend=CPP), A.jump_search(a, A_.own[0], backend=CPP)
        A_.look("search", cells(a))
    del a
    A_.look("released array")
    ctx.reach("done")


def dynamic(ctx, ops, alg):
    A_ = Audit(ctx)
    m = 3
    for i in range(m):
        A_.tok(ctx.int("x%d" % i))
    a = DODA(Tok, 0, backend=CPP)
    for k in range(ops):
        op = ctx.choice("op%d" % k, 3)
        if op == 0 or len(a) == 0:
            a.append(A_.own[ctx.choice("t%d" % k, m)])
        elif op == 1:
            a.delete(ctx.choice("i%d" % k, 4))
        else:
            i = ctx.choice("i%d" % k, len(a))
            if a[i] is not None:
                a[i] = A_.own[ctx.choice("t%d" % k, m)]
        A_.look("dynamic array operation", cells(a))
    if alg and any(x is not None for x in cells(a)):
        getattr(A, alg)(a, backend=CPP)
        A_.look(alg + " of a dynamic array", cells(a))
        a.append(A_.own[0])
        A_.look("append after sorting", cells(a))
    del a
    A_.look("released array")
    ctx.reach("done")


def stack(ctx, ops, pre):
    A_ = Audit(ctx)
    for i in range(3):
        A_.tok(i)
    s = Stack(implementation="array", dtype=Tok, backend=CPP, **({"items": [A_.own[i % 3] for i in range(pre)]} if pre else {}))
    held = [i % 3 for i in range(pre)]
    for k in range(ops):
        op = ctx.choice("op%d" % k, 3)
        if op == 0:
            held.append(ctx.choice("t%d" % k, 3))
            s.push(A_.own[held[-1]])
        elif op == 1 and held:
            held.pop()
            s.pop()
        elif held:
            s.peek, s.peek, s.peek, str(s)
        low = [i for i in range(3) if getrefcount(A_.own[i]) < 2 + held.count(i)]
        ctx.check(not low, "stack: fewer references are counted than exist")
    while held:
        A_.keep(s.pop())
        held.pop()
    A_.look("popped values")
    del s
    A_.look("released stack")
    ctx.reach("done")


# ---- trees ----------------------------------------------------------------------
def places(t):
    """everything the nodes of a tree hold, and the nodes themselves"""
    out = []
    for i in range(len(t.tree)):
        x = t.tree[i]
        out.append(x)
        if x is not None:
            out += [x.key, x.data, x.left, x.right, x.parent]
    return out


def insert(ctx, t, kind, A_, k, d, p):
    if kind == "cart":
        t.insert(A_.own[k], p, A_.own[d])
    elif kind == "treap":
        drive_rand((p * 30000000 + 100000000) % 2 ** 31)
        t.insert(A_.own[k], A_.own[d])
    else:
        t.insert(A_.own[k], A_.own[d])


def quiet(f, *errors):
    try:
        return f()
    except errors:
        return None


def queries(ctx, A_, t, kind, keys, order):
    """the results are held together, then dropped: both must leave the counts right"""
    out = []
    for k in keys:
        out += [t.search(A_.own[k]), t.search(A_.own[k], parent=True), t.root_idx]
    A_.look("search", places(t))
    live = [k for k in keys if t.search(A_.own[k]) is not None]
    if live:
        for k in live:
            out += [t.lower_bound(A_.own[k]), t.upper_bound(A_.own[k])]
        out += [t.lowest_common_ancestor(A_.own[live[0]], A_.own[live[-1]], i) for i in (1, 2)]
        if order:
            out += [t.rank(A_.own[live[0]]), t.select(1), quiet(lambda: t.select(99), ValueError)]
        tr = BinaryTreeTraversal(t, backend=CPP)
        for o in ("pre_order", "in_order", "post_order", "out_order"):
            out += tr.depth_first_search(order=o)
        out += tr.breadth_first_search()
        A_.look("queries", places(t))
        tr = None
        # what was released by mistake is taken over by new trees
        other = [TREES[kind](None, None, None, backend=CPP)]
        insert(ctx, other[0], kind, A_, A_.tok(7), A_.tok(7), 0)
        tr = BinaryTreeTraversal(other.pop(), backend=CPP)
        other = [TREES[kind](None, None, None, backend=CPP) for _ in range(6)]
        for i, o in enumerate(other):
            insert(ctx, o, kind, A_, A_.tok(i), A_.tok(i), i)
        A_.look("a tree after its traversal was released", places(t))
        found = [t.tree[i].key is A_.own[k] or t.tree[i].key == A_.own[k] for k in live for i in (t.search(A_.own[k]),) if i is not None]
        ctx.check(len(found) == len(live) and all(found), "a tree is lost with the traversals made for it")
        ctx.check(all(len(o.tree) >= 1 and o.tree[0].key.v == i for i, o in enumerate(other)), "trees share memory")
        ctx.check([x.key.v for x in tr.depth_first_search()] == [7], "a traversal lost the tree it was made for")
    out.clear()
    A_.look("queries, dropped", places(t))


SHAPED = [40, 20, 60, 10, 30, 50, 70]


def tree(ctx, kind, ops, shaped, comp, order, look_each=True):
    A_ = Audit(ctx)
    c = A_.keep((lambda x, y: x < y) if comp else len)
    kw = dict(backend=CPP)
    if order:
        kw["is_order_statistic"] = True
    t = TREES[kind](None, None, A_.own[c] if comp else None, **kw)
    keys = []
    for j, v in enumerate(SHAPED if shaped else []):
        keys.append(A_.tok(v))
        insert(ctx, t, kind, A_, keys[-1], A_.tok(j), (j * 5) % 7)
    A_.look("built tree", places(t))
    for k in range(ops):
        i, d = A_.tok(ctx.int("k%d" % k)), A_.tok(k)
        keys.append(i)
        if ctx.flag("op%d" % k):
            insert(ctx, t, kind, A_, i, d, 2 * k + 1)
            ctx.reach("inserted")
        else:
            t.delete(A_.own[i])
        A_.look("tree operation", places(t))
        if k == ops - 1:
            queries(ctx, A_, t, kind, keys[-3:], order)
    del t
    A_.look("released tree")
    ctx.reach("done")


def splay_parts(ctx, split):
    """join and split hand nodes from one tree to another"""
    A_ = Audit(ctx)
    t = SplayTree(None, None, None, backend=CPP)
    for i, v in enumerate((10, 20, 30)):
        t.insert(A_.own[A_.tok(v)], A_.own[A_.tok(i)])
    if split:
        o = t.split(A_.own[A_.tok(ctx.int("k"))])
    else:
        o = SplayTree(None, None, None, backend=CPP)
        for i, v in enumerate((ctx.int("k", 31, 50), ctx.int("l", 51, 60))):
            o.insert(A_.own[A_.tok(v)], A_.own[A_.tok(i)])
        t.join(o)
    A_.look("split" if split else "join", places(t) + (places(o) if o is not None and split else []))
    for x in (t,) if not split else (t, o):
        if x is not None:
            x.insert(A_.own[A_.tok(ctx.int("m%d" % (x is t), 61))], A_.own[1])
    A_.look("insertion afterwards", places(t))
    del t, o
    A_.look("released trees")
    ctx.reach("done")


def positions(ctx, kind, n):
    """In large trees positions are counted objects: results and stored positions must not share a count."""
    A_ = Audit(ctx)
    order = kind not in ("cart", "treap")
    t = TREES[kind](None, None, None, backend=CPP, is_order_statistic=order)
    for j in range(n):
        # late nodes become the root, so that its position is a counted object too
        v = j if kind in ("avl", "rb") else (j * 7) % n
        p = {n - 9: 60, n - 5: -3}.get(j, (j * 5) % 7) if kind == "treap" else (n - j if j % 2 else 2 * n + j)
        insert(ctx, t, kind, A_, A_.tok(v * 10), 0, p)
    A_.look("large tree", places(t))
    spots = [0, 1, n // 2, n - 2, n - 1]
    k = A_.tok(spots[ctx.choice("k", len(spots))] * 10)
    op = ("root", "search", "delete", "insert", "bounds")[ctx.choice("op", 5)]
    own = len(A_.own)
    for _ in range(3 if op in ("delete", "insert") else 40):
        if op == "root":
            A_.keep(t.root_idx)
        elif op == "search":
            A_.keep(t.search(A_.own[k]))
            for x in t.search(A_.own[k], parent=True):
                A_.keep(x)
                x = None
        elif op == "delete":
            t.delete(A_.own[k])
        elif op == "insert":
            insert(ctx, t, kind, A_, k, 0, 1)
        else:
            A_.keep(t.lower_bound(A_.own[k])), A_.keep(t.upper_bound(A_.own[k])), A_.keep(t.lowest_common_ancestor(A_.own[5], A_.own[9], 1))
            A_.keep(t.lowest_common_ancestor(A_.own[5], A_.own[9], 2))
            if order:
                A_.keep(t.rank(A_.own[k])), A_.keep(t.select(n // 2))
    A_.look(op + " in a large tree", places(t))
    del A_.own[own:]
    A_.look(op + " in a large tree, results dropped", places(t))
    ctx.reach("done")


def bit(ctx, n):
    A_ = Audit(ctx)
    for i in range(n):
        A_.keep(10 ** 6 + i)
    t = BinaryIndexedTree([A_.own[i] for i in range(n)], backend=CPP)
    for k in range(2):
        i = ctx.choice("i%d" % k, n)
        A_.keep(10 ** 7 + k)
        t.update(i, A_.own[-1])
        for j in range(n):
            t.get_prefix_sum(j), t.get_sum(i, j) if i <= j else 0
        A_.look("binary indexed tree", cells(t.array))
    del t
    A_.look("released binary indexed tree")
    ctx.reach("done")


# ---- graphs ---------------------------------------------------------------------
def parts(g, names, impl, vertex):
    """edges are held by the graph, vertices by the graph and by the edges"""
    out = []
    for s in names:
        for t in names:
            e = g.get_edge(s, t)
            if e is not None:
                out += [e, vertex(s), vertex(t)]
            if impl == "list" and g.is_adjacent(s, t):
                out += [x for x in g.neighbors(s) if x.name == t]
    return out


def graph(ctx, impl, ops):
    A_ = Audit(ctx)
    names = ["a", "b", "c"]
    data = [A_.tok(i) for i in range(3)]
    vs = [A_.keep(graphlib.NODE[impl](n, A_.own[data[i]], backend=CPP)) for i, n in enumerate(names)]
    g = graphlib.Graph(*[A_.own[v] for v in vs], implementation="adjacency_" + impl, backend=CPP)
    live = list(names)

    def slots():
        return parts(g, live, impl, lambda n: A_.own[vs[names.index(n)]]) + [A_.own[vs[names.index(n)]] for n in live] + [A_.own[d] for d in data]
    for i, (s, t) in enumerate([("a", "b"), ("b", "a"), ("b", "c")]):
        if ctx.flag("e%d" % i):
            g.add_edge(s, t, 2000 + i)
    A_.look("new graph", slots())
    for k in range(ops):
        op = ctx.choice("op%d" % k, 5)
        s, t = names[ctx.choice("s%d" % k, 3)], names[ctx.choice("t%d" % k, 3)]
        if op == 2 and impl == "list":
            if s in live:
                g.remove_vertex(s)
                live.remove(s)
            else:
                g.add_vertex(A_.own[vs[names.index(s)]])
                live.append(s)
        elif s not in live or t not in live:
            continue
        elif op == 0:
            g.add_edge(s, t, 1000 + k)
        elif op == 1:
            g.remove_edge(s, t)
        elif op == 3:
            A_.keep(g.get_edge(s, t))
            for x in g.neighbors(s):
                A_.keep(x)
                x = None
        else:
            A_.own[vs[names.index(s)]].data = A_.own[data[names.index(s)]]
            str(A_.own[vs[0]])
        A_.look("graph operation", slots())
    A_.own[vs[0]].data = None
    data.pop(0)
    del g
    A_.look("released graph", [A_.own[d] for d in data])
    ctx.reach("done")


def algorithms(ctx, impl, what):
    A_ = Audit(ctx)
    names = ["a", "b", "c"]
    data = [A_.tok(i) for i in range(3)]
    vs = [A_.keep(graphlib.NODE[impl](n, A_.own[data[i]], backend=CPP)) for i, n in enumerate(names)]
    g = graphlib.Graph(*[A_.own[v] for v in vs], implementation="adjacency_" + impl, backend=CPP)
    for i, (s, t) in enumerate(graphlib.pairs(names, undirected=what == "mst")):
        if ctx.flag("e%d" % i):
            g.add_edge(s, t, 1000 + (i * 3) % 5)
            if what == "mst":
                g.add_edge(t, s, 1000 + (i * 3) % 5)

    def slots():
        return parts(g, names, impl, lambda n: A_.own[vs[names.index(n)]]) + [A_.own[v] for v in vs] + [A_.own[d] for d in data]
    extra = A_.tok(0)
    stop = ctx.flag("stop")

    def visit(u, v, x):
        A_.keep(u), A_.keep(v)
        return not stop or v is None
    A_.keep(visit)
    source = names[ctx.choice("source", 3)] if what != "mst" else None
    for _ in range(2):
        if what == "bfs":
            breadth_first_search(g, source, visit, A_.own[extra], backend=CPP)
        elif what == "dijkstra":
            A_.keep(shortest_paths(g, "dijkstra", source, backend=CPP))
        else:
            A_.keep(minimum_spanning_tree(g, "prim", backend=CPP))
        A_.look(what, slots())
    del g
    A_.look(what + ", graph released", [A_.own[d] for d in data])
    ctx.reach("done")


def jobs(tier):
    x = 0 if tier == "quick" else 1
    out = []

    def add(name, fn, **cfg):
        out.append(Job(name, fn, cfg, reach=["done"], validate_every=100, path_timeout=30))
    for form in ("list", "sized", "init"):
        add("array/" + form, array, ops=2 + x, alg=None, form=form)
    for alg in ("quick_sort", "bubble_sort", "selection_sort", "insertion_sort"):
        add("array/" + alg, array, ops=1, alg=alg, form="list")
        add("dynamic/" + alg, dynamic, ops=3 + x, alg=alg)
    for pre in (0, 3):
        add("stack/%d" % pre, stack, ops=4 + x, pre=pre)
    for kind in TREES:
        order = kind not in ("cart", "treap")
        for comp in (False, True):
            add("tree/%s/%s" % (kind, "comp" if comp else "default"), tree, kind=kind, ops=3 + x, shaped=False, comp=comp, order=order and not comp)
            add("tree/%s/shaped/%s" % (kind, "comp" if comp else "default"), tree, kind=kind, ops=1 + x, shaped=True, comp=comp, order=order and not comp)
        add("positions/" + kind, positions, kind=kind, n=800 if kind in ("avl", "rb") else 300)
    add("splay/split", splay_parts, split=True)
    add("splay/join", splay_parts, split=False)
    add("bit", bit, n=4)
    for impl in ("list", "matrix"):
        add("graph/" + impl, graph, impl=impl, ops=2)
        for what in ("bfs", "dijkstra", "mst"):
            if impl == "list" or what == "bfs":
                add("algorithms/%s/%s" % (impl, what), algorithms, impl=impl, what=what)
    return out
