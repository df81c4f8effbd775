from symex.api import *
from pydatastructs import DynamicOneDimensionalArray as DODA, Backend

BOUNDS = {
    "quick": "after 0..5 appends (or a list of up to 4), every history of 3 operations out of append, delete at any index (also out of range), overwrite of a present value; 5 appends, 3 deletions anywhere, 2 appends; load factors 0, 0.25, 0.5, 1; both backends; one free operation after 10 seeded histories of 40 operations for each load factor; tree storage with linked nodes",
    "thorough": "histories of 4 operations, 7 appends and 5 deletions"}
ASSUMPTIONS = ["overwrites replace present values (writing into an empty cell is not an append)", "element values are arbitrary integers"]
HALVES = ["dyn/*/list*", "dyn/*/None/[123]", "dyn/*/drain", "trees/*"]
BE = {"py": Backend.PYTHON, "cpp": Backend.CPP}
LF = [None, 0.0, 0.5, 1.0]


def look(ctx, a, live, what):
    n = len(a)
    got = [a[i] for i in range(n)]
    ctx.check(a.size == n, what + ": size and length disagree")
    vals = [x for x in got if x is not None]
    ctx.check(len(vals) == len(live), what + ": a value was lost or duplicated")
    if len(vals) == len(live):
        ctx.check(seq_eq(vals, live), what + ": values or their order changed")
    ctx.check(a._num == len(live), what + ": element count disagrees with the contents")
    last = a._last_pos_filled
    ctx.check(-1 <= last < max(n, 1) and last >= len(live) - 1, what + ": last filled position out of range")
    ctx.check(all(x is None for x in got[last + 1:]), what + ": a value lies beyond the last filled position")
    return got


def history(ctx, be, pre, how, ops, lf):
    kw = dict(backend=BE[be])
    if lf is not None:
        kw["load_factor"] = lf
    live = []
    if how == "list":
        live = [ctx.int("x%d" % i) for i in range(pre)]
        a = DODA(ctx.dtype, list(live), **kw)
    else:
        a = DODA(ctx.dtype, 3 if how == "room" else 0, **kw)
        for i in range(pre):
            live.append(ctx.int("x%d" % i))
            a.append(live[-1])
            look(ctx, a, live, "append")
    got = look(ctx, a, live, "start")
    for k, op in enumerate(ops):
        if op == "*":
            op = "ads"[ctx.choice("op%d" % k, 3)]
        if op == "a":
            v = ctx.int("v%d" % k)
            a.append(v)
            live.append(v)
            last = a._last_pos_filled
            ctx.check(0 <= last < len(a) and a[last] is not None and eq(a[last], v), "append: the last filled position does not hold the new value")
        elif op == "d":
            i = ctx.choice("i%d" % k, len(got) + 2) - 1
            hit = 0 <= i < len(got) and got[i] is not None
            if (ops[k:k + 2] == "dd" or len(ops) > 4) and "*" not in ops:
                ctx.assume(hit)
            a.delete(i)
            if hit:
                del live[len([x for x in got[:i] if x is not None])]
                ctx.reach("deleted")
        else:
            i = ctx.choice("i%d" % k, max(len(got), 1))
            if i >= len(got) or got[i] is None:
                continue
            v = ctx.int("v%d" % k)
            a[i] = v
            live[len([x for x in got[:i] if x is not None])] = v
        got = look(ctx, a, live, {"a": "append", "d": "delete", "s": "overwrite"}[op])
    if be == "py":
        ctx.check(seq_eq([x for x in reversed(a) if x is not None], live[::-1]), "reversed iteration disagrees")
    ctx.reach("done")


def tree_storage(ctx, be, n, dels, adds):
    """Array of linked tree nodes: shrinking keeps the links."""
    from pydatastructs.linear_data_structures.arrays import ArrayForTrees
    from pydatastructs.utils import TreeNode
    from pydatastructs.linear_data_structures._backend.cpp import _arrays
    from pydatastructs.utils._backend.cpp import _nodes
    if be == "py":
        arr = ArrayForTrees(TreeNode, 0)
    else:
        arr = _arrays.ArrayForTrees(_nodes.TreeNode, 0)
    nodes = []
    for i in range(n):
        nd = TreeNode(10 + i, ctx.int("d%d" % i), backend=BE[be])
        nd.parent = i - 1 if i else None
        nd.left = i + 1 if i % 2 == 0 and i + 1 < n else None
        nd.right = i + 1 if i % 2 == 1 and i + 1 < n else None
        nodes.append(nd)
        arr.append(nd)
    live = list(range(n))
    for k in range(dels):
        j = live[ctx.choice("del%d" % k, len(live))]
        pos = [p for p in range(len(arr)) if arr[p] is not None and arr[p].key == 10 + j]
        ctx.check(len(pos) == 1, "tree storage: a node was lost or duplicated")
        at = live.index(j)
        up, dn = (live[at - 1] if at else None), (live[at + 1] if at + 1 < len(live) else None)
        p = pos[0]
        q = arr[p].parent
        c = arr[p].left if arr[p].left is not None else arr[p].right
        if q is not None:
            if arr[q].left == p:
                arr[q].left = c
            else:
                arr[q].right = c
        if c is not None:
            arr[c].parent = q
        live.remove(j)
        arr.delete(p)
    for k in range(adds):
        arr.append(TreeNode(100 + k, ctx.int("e%d" % k), backend=BE[be]))
        live.append(90 + k)
    pos = {arr[p].key - 10: p for p in range(len(arr)) if arr[p] is not None}
    ctx.check([arr[p].key - 10 for p in range(len(arr)) if arr[p] is not None] == live, "tree storage: nodes or their order changed")
    ctx.check(arr._num == len(live), "tree storage: count")
    ctx.check(arr.size == len(arr), "tree storage: size and length disagree")
    for j in live[:n - dels]:
        at = live.index(j)
        dn = live[at + 1] if at + 1 < n - dels else None
        nd = arr[pos[j]]
        ctx.check(eq(nd.data, nodes[j].data), "tree storage: data")
        ctx.check(nd.parent == (pos[live[at - 1]] if at else None), "tree storage: parent link broken")
        c = [x for x in (nd.left, nd.right) if x is not None]
        ctx.check(c == ([pos[dn]] if dn is not None else []), "tree storage: child link broken")
    ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    out = []
    for be in ("py", "cpp"):
        for lf in LF:
            for pre in range(0, 6, 1 if lf is None or not q else 2):
                out.append(Job("dyn/%s/%s/%d" % (be, lf, pre), history, dict(be=be, pre=pre, how="", ops="***" if q or pre > 3 else "****", lf=lf), reach=["done"]))
            out.append(Job("dyn/%s/%s/drain" % (be, lf), history, dict(be=be, pre=5, how="", ops="dddaa", lf=lf), reach=["done", "deleted"]))
        for lf in LF:
            out.append(grown("dyn/%s/%s/grown" % (be, lf), history, dict(be=be, pre=0, how="", ops="*" * 41, lf=lf), 10 if q else 100, 40))
        for pre in range(5):
            out.append(Job("dyn/%s/list%d" % (be, pre), history, dict(be=be, pre=pre, how="list", ops="**", lf=None), reach=["done"]))
        out.append(Job("dyn/%s/room" % be, history, dict(be=be, pre=2, how="room", ops="***", lf=None), reach=["done"]))
        out.append(Job("dyn/%s/drain6" % be, history, dict(be=be, pre=6, how="", ops="ddddaad" if not q else "dddddaa", lf=None), reach=["done"]))
        if not q:
            out.append(Job("dyn/%s/drain7" % be, history, dict(be=be, pre=7, how="", ops="ddddda", lf=None), reach=["done"]))
        for n, d, a in ((4, 3, 3), (5, 4, 6), (6, 5, 2)):
            out.append(Job("trees/%s/%d-%d" % (be, n, d), tree_storage, dict(be=be, n=n, dels=d, adds=a), reach=["done"]))
    return out
