import random as _random
from symex.api import *
from checks.treelib import *
from checks import c23
from pydatastructs import BinaryTreeTraversal

BOUNDS = {
    "quick": "every search tree class in both backends; every tree reached from 3 insertions of unbounded integer keys and a free operation, trees of 7 keys in several shapes after free deletions, trees shaped by 40 fixed histories of 45 operations, 300 consecutive keys; the four depth-first orders and the breadth-first one, from the root and from a free node; repeated after the traversal object is gone",
    "thorough": "4 free insertions, two free operations, 150 histories"}
ASSUMPTIONS = ["the trees are not empty: an empty tree stores a placeholder node"]
HALVES = ["*/zigzag", "*/desc", "*/full"]


def orders(t, w, i):
    """the five orders of the subtree at position i, from the definition"""
    def rec(i, kind):
        if i is None:
            return []
        l, r = w.kids[i]
        l, r = rec(l, kind), rec(r, kind)
        return {"pre_order": [i] + l + r, "in_order": l + [i] + r, "post_order": l + r + [i]}[kind]
    out = {k: rec(i, k) for k in ("pre_order", "in_order", "post_order")}
    out["out_order"] = out["in_order"][::-1]
    bfs, level = [], [i]
    while level:
        bfs += level
        level = [c for x in level for c in w.kids[x] if c is not None]
    out["bfs"] = bfs
    return {k: [t.tree[x].data for x in v] for k, v in out.items()}


def traverse(ctx, T_, node=True):
    t, m = T_.t, T_.m
    w = look(ctx, t, m, "before the traversals")
    if not w.ok or w.empty:
        return
    be = BE[T_.be]
    at = [None] + ([w.idx[ctx.choice("node", len(w.idx))]] if node else [])
    for start in at:
        want = orders(t, w, w.root if start is None else start)
        trav = BinaryTreeTraversal(t, backend=be)
        for order in ("pre_order", "in_order", "post_order", "out_order"):
            kw = {} if start is None else {"node": start}
            got = [x.data for x in trav.depth_first_search(order=order, **kw)]
            ctx.check(got == want[order], "%s%s: wrong sequence of nodes" % (order, "" if start is None else " of a subtree"))
        if start is None:
            got = [x.data for x in trav.depth_first_search()]
            ctx.check(got == want["in_order"], "default order is not inorder")
            got = [x.data for x in trav.breadth_first_search()]
        else:
            got = [x.data for x in trav.breadth_first_search(node=start)]
        ctx.check(got == want["bfs"], "breadth first%s: wrong sequence of nodes" % ("" if start is None else " of a subtree"))
        del trav
    if T_.be == "cpp":
        fresh = [c23.CLS[T_.kind](j, j, backend=be) for j in range(6)]
        look(ctx, t, m, "after the traversal object is gone")
        del fresh
    ctx.reach("done")


def free(ctx, kind, be, n, ops):
    T_ = c23.Tree(ctx, kind, be, None)
    for i in range(n):
        T_.insert(ctx.int("k%d" % i))
    for j, op in enumerate(ops):
        T_.op("id"[ctx.choice("op%d" % j, 2)] if op == "*" else op, ctx.int("o%d" % j))
    traverse(ctx, T_)


def shaped(ctx, kind, be, shape, dels, ops):
    T_ = c23.Tree(ctx, kind, be, None)
    for k in c23.SHAPES[shape]:
        T_.insert(k)
    for j in range(dels):
        live = list(T_.m.live.values())
        T_.delete(live[ctx.choice("d%d" % j, len(live))])
    for j, op in enumerate(ops):
        T_.op(op, ctx.int("o%d" % j))
    traverse(ctx, T_, not dels)


def grown(ctx, kind, be, seeds, n):
    rng = _random.Random(32452843 * (1 + ctx.choice("seed", seeds)))
    T_ = c23.Tree(ctx, kind, be, None)
    keys = []
    for j in range(n):
        if len(keys) > 3 and rng.random() < (0.2 if j < n // 2 else 0.5):
            op, k = "d", keys.pop(rng.randrange(len(keys)))
        else:
            op, k = "i", 10 * rng.randrange(-3 * n, 3 * n)
            if k not in keys:
                keys.append(k)
        T_.op(op, k)
    traverse(ctx, T_)


def big(ctx, kind, be, n):
    T_ = c23.Tree(ctx, kind, be, None)
    down = ctx.flag("down")
    for j in range(n):
        k = n - j if down else j
        T_.insert(k)
    for j in range(0, n, 3):
        T_.delete(j + 1)
    traverse(ctx, T_, False)


def jobs(tier):
    q = tier == "quick"
    out = []
    for kind in c23.CLS:
        for be in ("py", "cpp"):
            out.append(Job("%s/%s/free" % (kind, be), free, dict(kind=kind, be=be, n=3, ops="*" if q else "**"), reach=["done"]))
            if not q:
                out.append(Job("%s/%s/free4" % (kind, be), free, dict(kind=kind, be=be, n=4, ops="*"), reach=["done"]))
            for shape in c23.SHAPES:
                out.append(Job("%s/%s/%s" % (kind, be, shape), shaped, dict(kind=kind, be=be, shape=shape, dels=0, ops="d" if q else "di"), reach=["done"]))
            out.append(Job("%s/%s/dels" % (kind, be), shaped, dict(kind=kind, be=be, shape="full", dels=2 if q else 3, ops="i"), reach=["done"]))
            out.append(Job("%s/%s/grown" % (kind, be), grown, dict(kind=kind, be=be, seeds=40 if q else 150, n=45), reach=["done"], path_timeout=30))
            out.append(Job("%s/%s/big" % (kind, be), big, dict(kind=kind, be=be, n=120 if be == "py" else 300), reach=["done"], path_timeout=30))
    return out
