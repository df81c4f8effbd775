import pydatastructs as p
from symex.api import *
from checks.graphlib import BE, NODE, node, build, snapshot, random_edges
from pydatastructs import (OneDimensionalArray as ODA, DynamicOneDimensionalArray as DODA, MultiDimensionalArray as MDA,
                           BinarySearchTree, BinaryTreeTraversal, Backend, Graph)

BOUNDS = {
    "quick": "23 functions and 33 constructors that exist in Python only, asked for the compiled or the LLVM backend; requests by an unknown algorithm, implementation, data structure, traversal order, strategy or heap property, the name chosen among 9; arrays and texts of 3 cells, graphs of 3 vertices in every representation, trees of 3 keys; values are unbounded integers",
    "thorough": "the same with arrays of 5 cells and trees of 5 keys"}
ASSUMPTIONS = ["the unknown names are a fixed list (the dispatch is by attribute lookup, which needs concrete names)"]

NAMES = ["", "no such name", "Array", "linked list", "prims", "KRUSKAL", "bubble", "_", "in order"]


def refused(ctx, f, err, what):
    got = None
    try:
        f()
    except Exception as e:
        got = e
    ctx.check(isinstance(got, err), "%s: %s instead of %s" % (what, type(got).__name__ if got else "an answer", err.__name__))
    ctx.reach("refused")


def cells(a):
    return [a[i] for i in range(len(a))]


# functions of arrays that exist in Python only: name -> arguments after the array
ARRAY = {"merge_sort_parallel": (2,), "brick_sort": (), "brick_sort_parallel": (2,), "heapsort": (), "counting_sort": (),
         "bucket_sort": (), "cocktail_shaker_sort": (), "longest_increasing_subsequence": (), "next_permutation": (),
         "prev_permutation": (), "intro_sort": (), "upper_bound": (1,), "lower_bound": (1,)}


def arrays(ctx, name, n):
    vals = [ctx.int("x%d" % i) for i in range(n)]
    a = ODA(ctx.dtype, list(vals))
    be = (Backend.CPP, Backend.LLVM)[ctx.choice("backend", 2)]
    refused(ctx, lambda: getattr(p, name)(a, *ARRAY[name], backend=be), ValueError, name)
    ctx.check(seq_eq(cells(a), vals), name + ": a refused request changed the array")


def pairs(ctx, name):
    be = (Backend.CPP, Backend.LLVM)[ctx.choice("backend", 2)]
    v = [ctx.int("x%d" % i) for i in range(4)]
    if name == "find":
        refused(ctx, lambda: p.find("aba", "ba", ("kmp", "rabin_karp", "boyer_moore", "z_function")[ctx.choice("alg", 4)], backend=be), ValueError, name)
    else:
        a, b = ODA(ctx.dtype, v[:2]), ODA(ctx.dtype, v[2:])
        refused(ctx, lambda: p.longest_common_subsequence(a, b, backend=be), ValueError, name)
        ctx.check(seq_eq(cells(a) + cells(b), v), name + ": a refused request changed an array")


# graph functions: name -> (algorithms known to it, arguments)
PY_GRAPH = {
    "breadth_first_search_parallel": (None, lambda a: ("v0", 2, lambda *x: True)),
    "minimum_spanning_tree_parallel": (("kruskal", "prim"), lambda a: (a, 2)),
    "strongly_connected_components": (("kosaraju", "tarjan"), lambda a: (a,)),
    "depth_first_search": (None, lambda a: ("v0", lambda *x: True)),
    "all_pair_shortest_paths": (("floyd_warshall", "johnson"), lambda a: (a,)),
    "topological_sort": (("kahn",), lambda a: (a,)),
    "topological_sort_parallel": (("kahn",), lambda a: (a, 2)),
    "max_flow": (("edmonds_karp", "dinic"), lambda a: ("v0", "v2", a))}
ALL_GRAPH = dict(PY_GRAPH)
ALL_GRAPH.update({
    "minimum_spanning_tree": (("kruskal", "prim"), lambda a: (a,)),
    "shortest_paths": (("bellman_ford", "dijkstra"), lambda a: (a, "v0"))})


def graph(ctx, impl):
    edges = [(i, j, ctx.int("w%d%d" % (i, j))) for i, j in ((0, 1), (1, 2), (0, 2)) if ctx.flag("e%d%d" % (i, j))]
    nodes = [p.AdjacencyListGraphNode("v%d" % i) if impl == "adjacency_list" else p.AdjacencyMatrixGraphNode("v%d" % i) for i in range(3)]
    g = Graph(*nodes, implementation=impl)
    for i, j, w in edges:
        g.add_edge("v%d" % i, "v%d" % j, w)
    return g, edges


def kept(ctx, g, edges, what):
    ok = sorted(g.vertices) == ["v0", "v1", "v2"]
    for i in range(3):
        for j in range(3):
            e = g.get_edge("v%d" % i, "v%d" % j)
            w = [w for a, b, w in edges if (a, b) == (i, j)]
            ok = And(ok, (e is None) == (not w))
            if e is not None and w:
                ok = And(ok, eq(e.value, w[0]))
    ctx.check(ok, what + ": a refused request changed the graph")


def graphs(ctx, name, impl, unknown):
    algs, args = ALL_GRAPH[name]
    g, edges = graph(ctx, impl)
    f = getattr(p, name)
    if unknown:
        a = NAMES[ctx.choice("name", len(NAMES))]
        refused(ctx, lambda: f(g, *args(a)), NotImplementedError, name)
    else:
        a = algs and algs[ctx.choice("alg", len(algs))]
        be = (Backend.CPP, Backend.LLVM)[ctx.choice("backend", 2)]
        refused(ctx, lambda: f(g, *args(a), backend=be), ValueError, name)
    kept(ctx, g, edges, name)


class Odd(object):
    """a graph in a representation the library does not know"""


def strange(ctx, name, be):
    g = Odd()
    g._impl = NAMES[ctx.choice("name", len(NAMES))]
    g.vertices = ["v0", "v1", "v2"]
    algs, args = dict(ALL_GRAPH, breadth_first_search=(None, lambda a: ("v0", lambda *x: True)))[name]
    a = algs and algs[ctx.choice("alg", len(algs))]
    refused(ctx, lambda: getattr(p, name)(g, *args(a)), NotImplementedError, name)


def make(vals):
    seq = lambda: list(vals)
    low = lambda s: min
    return {
        "MultiDimensionalArray": lambda **k: MDA(int, 2, 2, **k),
        "SinglyLinkedList": lambda **k: p.SinglyLinkedList(**k),
        "DoublyLinkedList": lambda **k: p.DoublyLinkedList(**k),
        "SinglyCircularLinkedList": lambda **k: p.SinglyCircularLinkedList(**k),
        "DoublyCircularLinkedList": lambda **k: p.DoublyCircularLinkedList(**k),
        "SkipList": lambda **k: p.SkipList(**k),
        "Queue/array": lambda **k: p.Queue(items=seq(), **k),
        "Queue/linked_list": lambda **k: p.Queue(implementation="linked_list", items=seq(), **k),
        "Stack/linked_list": lambda **k: p.Stack(implementation="linked_list", items=seq(), **k),
        "PriorityQueue/linked_list": lambda **k: p.PriorityQueue(implementation="linked_list", **k),
        "PriorityQueue/binary_heap": lambda **k: p.PriorityQueue(implementation="binary_heap", **k),
        "PriorityQueue/binomial_heap": lambda **k: p.PriorityQueue(implementation="binomial_heap", **k),
        "BinaryHeap": lambda **k: p.BinaryHeap(**k),
        "TernaryHeap": lambda **k: p.TernaryHeap(**k),
        "DHeap": lambda **k: p.DHeap(d=4, **k),
        "BinomialHeap": lambda **k: p.BinomialHeap(**k),
        "BinomialTree": lambda **k: p.BinomialTree(p.BinomialTreeNode(1, 1), 0, **k),
        "DisjointSetForest": lambda **k: p.DisjointSetForest(**k),
        "SparseTable": lambda **k: p.SparseTable(ODA(int, [1, 2]), min, **k),
        "ArraySegmentTree": lambda **k: p.ArraySegmentTree(ODA(int, [1, 2]), p.minimum, **k),
        "RangeQueryStatic/array": lambda **k: p.RangeQueryStatic(ODA(int, [1, 2]), p.minimum, "array", **k),
        "RangeQueryStatic/sparse_table": lambda **k: p.RangeQueryStatic(ODA(int, [1, 2]), p.minimum, **k),
        "RangeQueryDynamic/array": lambda **k: p.RangeQueryDynamic(ODA(int, [1, 2]), p.minimum, "array", **k),
        "RangeQueryDynamic/segment_tree": lambda **k: p.RangeQueryDynamic(ODA(int, [1, 2]), p.minimum, **k),
        "MAryTree": lambda **k: p.MAryTree(1, 1, max_children=3, **k),
        "OneDimensionalSegmentTree": lambda **k: p.OneDimensionalSegmentTree([(0, 1)], **k),
        "Trie": lambda **k: p.Trie(**k),
        "MAryTreeNode": lambda **k: p.MAryTreeNode(1, 1, **k),
        "BinomialTreeNode": lambda **k: p.BinomialTreeNode(1, 1, **k),
        "LinkedListNode": lambda **k: p.LinkedListNode(1, **k),
        "SkipNode": lambda **k: p.SkipNode(1, **k),
        "TrieNode": lambda **k: p.TrieNode("a", **k),
        "Set": lambda **k: p.Set(1, **k),
    }


def classes(ctx, name):
    vals = [ctx.int("x%d" % i) for i in range(2)]
    f = make(vals)[name]
    if ctx.flag("served"):
        refused_by = None
        try:
            f(backend=Backend.PYTHON)
        except Exception as e:
            refused_by = type(e).__name__
        ctx.check(refused_by is None, "%s: the Python backend was refused" % name)
        return
    be = (Backend.CPP, Backend.LLVM)[ctx.choice("backend", 2)]
    refused(ctx, lambda: f(backend=be), ValueError, name)


def names(ctx, what, n):
    """requests by name that select an implementation"""
    x = NAMES[ctx.choice("name", len(NAMES))]
    vals = [ctx.int("x%d" % i) for i in range(n)]
    src = list(vals)
    arr = ODA(ctx.dtype, list(vals))
    f = {
        "Queue": lambda: p.Queue(implementation=x, items=src),
        "Stack": lambda: p.Stack(implementation=x, items=src),
        "PriorityQueue": lambda: p.PriorityQueue(implementation=x),
        "RangeQueryStatic": lambda: p.RangeQueryStatic(arr, p.minimum, x),
        "RangeQueryDynamic": lambda: p.RangeQueryDynamic(arr, p.minimum, x),
        "Graph": lambda: Graph(p.AdjacencyListGraphNode("a"), implementation=x),
        "find": lambda: p.find("abab", "ba", x)}[what]
    refused(ctx, f, NotImplementedError, what)
    ctx.check(And(seq_eq(src, vals), seq_eq(cells(arr), vals)), what + ": a refused request changed its arguments")


def heaps(ctx, kind, n):
    x = NAMES[ctx.choice("name", len(NAMES))]
    els = [p.TreeNode(ctx.int("x%d" % i), None) for i in range(n)]
    keys = [e.key for e in els]
    cls = getattr(p, kind)
    refused(ctx, lambda: cls(elements=list(els), heap_property=x), ValueError, kind)
    ctx.check(And(*[eq(e.key, k) for e, k in zip(els, keys)]), kind + ": a refused request changed the elements")


def traversals(ctx, be, what, n):
    t = BinarySearchTree(backend=BE[be])
    keys = [ctx.int("k%d" % i) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(ne(keys[i], keys[j]))
    for k in keys:
        t.insert(k, None)
    tr = BinaryTreeTraversal(t, backend=BE[be])
    x = NAMES[ctx.choice("name", len(NAMES))]
    f = (lambda: tr.depth_first_search(order=x)) if what == "order" else (lambda: tr.breadth_first_search(strategy=x))
    refused(ctx, f, NotImplementedError, "traversal " + what)
    got = [v.key for v in tr.depth_first_search(order="in_order")]
    ctx.check(len(got) == n and And(*[lt(a, b) for a, b in zip(got, got[1:])]), "a refused traversal changed the tree")


def untyped(ctx, what, n):
    """arrays need an element type"""
    vals = [ctx.int("x%d" % i) for i in range(n)]
    src = list(vals)
    f = {"ODA": lambda: ODA(), "ODA/size": lambda: ODA(type(None), n), "ODA/list": lambda: ODA(type(None), src),
         "ODA/short": lambda: ODA(ctx.dtype), "DODA": lambda: DODA(), "DODA/list": lambda: DODA(type(None), src),
         "DODA/short": lambda: DODA(ctx.dtype),
         "ODA/cpp": lambda: ODA(type(None), n, backend=Backend.CPP), "ODA/cpp/short": lambda: ODA(ctx.dtype, backend=Backend.CPP),
         "MDA": lambda: MDA(), "MDA/size": lambda: MDA(type(None), n, n), "MDA/short": lambda: MDA(ctx.dtype)}[what]
    refused(ctx, f, ValueError, what)
    ctx.check(seq_eq(src, vals), what + ": a refused request changed its arguments")
    ctx.flag("any")


def jobs(tier):
    q = tier == "quick"
    n = 3 if q else 5
    out = []
    J = lambda job, fn, **c: out.append(Job(job, fn, c, reach=["refused"]))
    for name in ARRAY:
        J("array/" + name, arrays, name=name, n=n)
    for name in ("find", "longest_common_subsequence"):
        J("backend/" + name, pairs, name=name)
    for impl in ("adjacency_list", "adjacency_matrix"):
        for name in PY_GRAPH:
            J("graph/%s/%s" % (impl, name), graphs, name=name, impl=impl, unknown=False)
        for name, (algs, args) in ALL_GRAPH.items():
            if algs:
                J("algorithm/%s/%s" % (impl, name), graphs, name=name, impl=impl, unknown=True)
    for name in list(ALL_GRAPH) + ["breadth_first_search"]:
        if name != "max_flow":
            J("representation/" + name, strange, name=name, be="py")
    for name in make([]):
        J("class/" + name, classes, name=name)
    for what in ("Queue", "Stack", "PriorityQueue", "RangeQueryStatic", "RangeQueryDynamic", "Graph", "find"):
        J("name/" + what, names, what=what, n=n)
    for kind in ("BinaryHeap", "TernaryHeap", "DHeap"):
        J("heap/" + kind, heaps, kind=kind, n=n)
    for be in ("py", "cpp"):
        for what in ("order", "strategy"):
            J("traversal/%s/%s" % (be, what), traversals, be=be, what=what, n=n)
    for what in ("ODA", "ODA/size", "ODA/list", "ODA/short", "DODA", "DODA/list", "DODA/short", "ODA/cpp", "ODA/cpp/short", "MDA", "MDA/size", "MDA/short"):
        J("untyped/" + what, untyped, what=what, n=n)
    return out
