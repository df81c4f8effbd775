from symex.api import *
from pydatastructs.trees.heaps import BinaryHeap, TernaryHeap, DHeap
from pydatastructs import OneDimensionalArray as ODA, DynamicOneDimensionalArray as DODA
from pydatastructs.utils import TreeNode

BOUNDS = {
    "quick": "built from up to 5 elements (list, tuple, array, dynamic array with gaps) or empty, min and max, d = 2, 3, 4 and 5, then histories of insertions and extractions up to 4 operations and draining; unbounded integer keys with duplicates; larger heaps of 7 to 12 concrete distinct keys in a solver-chosen rotation with two free insertions; one free operation on 15 seeded heaps built from a list of 20 elements and 15 built by 25 operations, for every kind",
    "thorough": "up to 6 free elements, 5 operations"}
ASSUMPTIONS = ["keys are totally ordered numbers"]
HALVES = ["*/list", "*/ops", "*/insert", "*/array"]


def make(ctx, kind, prop, elements):
    if kind == "binary":
        return BinaryHeap(elements, prop), 2
    if kind == "ternary":
        return TernaryHeap(elements, prop), 3
    d = int(kind)
    return DHeap(elements, prop, d), d


def look(ctx, h, d, live, prop, what):
    n = len(live)
    arr = [h.heap[i] for i in range(len(h.heap))]
    ctx.check(all(x is not None for x in arr[:n]) and all(x is None for x in arr[n:]) and len(arr) >= n, what + ": elements are not contiguous")
    ctx.check(bool(h.is_empty) == (n == 0), what + ": emptiness")
    if len(arr) < n or any(x is None for x in arr[:n]):
        return
    better = le if prop == "min" else ge
    ctx.check(And([better(arr[(i - 1) // d].key, arr[i].key) for i in range(1, n)]), what + ": heap order broken")
    tags = [x.data for x in arr[:n]]
    ctx.check(len(set(tags)) == n and set(tags) == set(live), what + ": an element was lost or duplicated")
    if set(tags) == set(live):
        ctx.check(And([eq(x.key, live[x.data]) for x in arr[:n]]), what + ": key and data were separated")


def extract(ctx, h, d, live, prop):
    if not live:
        try:
            h.extract()
            ctx.fail("extraction from an empty heap did not raise")
        except IndexError:
            ctx.reach("empty")
        return
    x = h.extract()
    ctx.check(x.data in live, "extract: unknown element")
    if x.data in live:
        k = live.pop(x.data)
        ctx.check(eq(x.key, k), "extract: key and data were separated")
        better = le if prop == "min" else ge
        ctx.check(And([better(k, v) for v in live.values()]), "extract: not the extreme element")


def history(ctx, kind, prop, pre, how, ops, keys=None):
    live = {i: ctx.int("k%d" % i) for i in range(pre)}
    if keys:
        r = ctx.choice("rotation", len(keys))
        live = {i: keys[(i + r) % len(keys)] for i in range(len(keys))}
    nodes = [TreeNode(k, i) for i, k in live.items()]
    if how == "list":
        h, d = make(ctx, kind, prop, nodes)
    elif how == "tuple":
        h, d = make(ctx, kind, prop, tuple(nodes))
    elif how == "array":
        h, d = make(ctx, kind, prop, ODA(TreeNode, nodes))
    elif how == "dynamic":
        a = DODA(TreeNode, 0)
        for x in nodes:
            a.append(x)
        if nodes:
            j = ctx.choice("gap", len(nodes))
            a.delete(j)
            del live[j]
        h, d = make(ctx, kind, prop, a)
    else:
        h, d = make(ctx, kind, prop, None)
        for i, k in live.items():
            h.insert(k, i)
    look(ctx, h, d, live, prop, "build")
    for s, op in enumerate(ops):
        if op == "*":
            op = "ix"[ctx.choice("op%d" % s, 2)]
        if op == "i":
            live[100 + s] = ctx.int("n%d" % s)
            h.insert(live[100 + s], 100 + s)
            look(ctx, h, d, live, prop, "insert")
        else:
            extract(ctx, h, d, live, prop)
            look(ctx, h, d, live, prop, "extract")
    while live:
        extract(ctx, h, d, live, prop)
        look(ctx, h, d, live, prop, "extract")
    extract(ctx, h, d, live, prop)
    ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    out = []
    J = lambda name, **c: out.append(Job(name, history, c, reach=["done", "empty"]))
    for prop in ("min", "max"):
        for kind in ("binary", "ternary", "4", "5"):
            J("%s/%s/insert" % (kind, prop), kind=kind, prop=prop, pre=5, how="", ops="")
            J("%s/%s/ops" % (kind, prop), kind=kind, prop=prop, pre=0, how="", ops="****" if q else "*****")
            J("%s/%s/list" % (kind, prop), kind=kind, prop=prop, pre=4, how="list", ops="")
            J("%s/%s/list+" % (kind, prop), kind=kind, prop=prop, pre=3, how="list", ops="**")
            if not q:
                J("%s/%s/list5" % (kind, prop), kind=kind, prop=prop, pre=5, how="list", ops="")
                J("%s/%s/insert6" % (kind, prop), kind=kind, prop=prop, pre=6, how="", ops="")
        for kind in ("binary", "ternary", "4", "5"):
            out.append(grown("%s/%s/grown" % (kind, prop), history, dict(kind=kind, prop=prop, pre=20, how="list", ops="*" * 21), 15 if q else 100, 20))
            out.append(grown("%s/%s/grown+" % (kind, prop), history, dict(kind=kind, prop=prop, pre=0, how="", ops="i" * 20 + "*" * 6), 15 if q else 100, 25))
        for how in ("tuple", "array", "dynamic"):
            J("binary/%s/%s" % (prop, how), kind="binary", prop=prop, pre=3, how=how, ops="i")
        for kind, n in (("binary", 7), ("binary", 11), ("ternary", 10), ("4", 12)):
            keys = [(5 * i) % n * 10 for i in range(n)]
            J("%s/%s/big%d" % (kind, prop, n), kind=kind, prop=prop, pre=0, how="list" if n % 2 else "", ops="ixi", keys=keys)
    return out
