from symex.api import *
from checks.treelib import *
from pydatastructs import AVLTree

BOUNDS = {
    "quick": "from an empty tree or a root: histories of up to 5 insertions/deletions with unbounded integer keys (repeats included), default and descending comparators; trees of 7 to 12 concrete keys in several shapes followed by 2 free deletions/insertions; draining trees in solver-chosen order; 300 consecutive keys; trees shaped by 40 fixed histories of 50 operations, and by 20 of 30 operations followed by a free operation; both backends",
    "thorough": "histories of 6 operations, 3 free operations on prepared trees; 200 and 60 histories"}
ASSUMPTIONS = ["keys are totally ordered by the comparator", "a root given to the constructor carries data"]
HALVES = ["*/grown/steps", "*/None/*/d", "*/[*][*][*]"]

SHAPES = {
    "full": [40, 20, 60, 10, 30, 50, 70],
    "fib": [50, 30, 70, 20, 40, 60, 80, 10, 25, 35, 75, 5],       # thinnest AVL tree of height 4
    "fibr": [50, 70, 30, 80, 60, 40, 20, 90, 75, 65, 25, 95],
    "mid": [50, 20, 80, 10, 40, 70, 90, 30, 45, 60],
}


def balanced(ctx, t, m, what):
    w = look(ctx, t, m, what)
    if not w.ok or w.empty:
        return w
    height = {}
    ok = right = True
    for i in sorted(w.idx, key=lambda i: -w.depth[i]):
        l, r = [(-1 if c is None else height[c]) for c in w.kids[i]]
        height[i] = 1 + max(l, r)
        ok = ok and abs(l - r) <= 1
        right = right and t.tree[i].height == height[i]
    ctx.check(ok, what + ": subtree heights differ by more than one")
    ctx.check(right, what + ": a recorded height is wrong")
    return w


def step(ctx, t, m, op, k):
    if op == "i":
        tag = m.tag()
        t.insert(k, tag)
        m.put(k, tag)
        balanced(ctx, t, m, "insert")
        ctx.reach("inserted")
    else:
        r = t.delete(k)
        had = m.drop(k)
        ctx.check((r is True) == had and (r is None) == (not had), "delete: reports an absent key")
        balanced(ctx, t, m, "delete")
        ctx.reach("deleted" if had else "absent")


def history(ctx, be, comp, shape, ops, free=True):
    f, better = COMPS[comp]
    m = Model(better)
    t = None
    for k in (SHAPES[shape] if shape in SHAPES else [ctx.int("root")] if shape == "root" else []):
        tag = m.tag()
        if t is None:
            t = AVLTree(k, tag, f, backend=BE[be])
        else:
            t.insert(k, tag)
        m.put(k, tag)
    if t is None:
        t = AVLTree(None, None, f, backend=BE[be])
    balanced(ctx, t, m, "start")
    for n, op in enumerate(ops):
        if op == "*":
            op = "id"[ctx.choice("op%d" % n, 2)]
        step(ctx, t, m, op, ctx.int("k%d" % n))
    if len(ops) < 2:
        probe(ctx, t, m, ctx.int("probe"))
    ctx.reach("done")


def drain(ctx, be, shape, count, again):
    keys = SHAPES[shape]
    m = Model()
    t = AVLTree(None, None, backend=BE[be])
    for k in keys:
        step(ctx, t, m, "i", k)
    left = list(keys)
    pick = 0
    for n in range(count):
        if n < 3:
            pick = ctx.choice("pick%d" % n, len(left))
        step(ctx, t, m, "d", left.pop(pick % len(left)))
    for n in range(again):
        step(ctx, t, m, "i", [45, 7, 95][n])
    for k in keys + [45, 7, 95]:
        probe(ctx, t, m, k)
    ctx.reach("done")


def big(ctx, be, n):
    m = Model()
    t = AVLTree(None, None, backend=BE[be])
    down = ctx.flag("down")
    for j in range(n):
        k = n - j if down else j
        t.insert(k, 5000 + j)
        m.live[5000 + j] = k
    balanced(ctx, t, m, "many insertions")
    ctx.reach("done")


def grown(ctx, be, comp, seeds, n, ops):
    f, better = COMPS[comp]
    grow(ctx, AVLTree(None, None, f, backend=BE[be]), Model(better), step, seeds, n, ops)


def jobs(tier):
    q = tier == "quick"
    out = []
    for be in ("py", "cpp"):
        for comp in (None, "gt"):
            for ops in (("***", "iiiid", "iiii") if not comp else ("***", "iiii")) if q else ("****", "iiiiid", "iiiidi", "iiidid"):
                out.append(Job("%s/%s/empty/%s" % (be, comp, ops), history, dict(be=be, comp=comp, shape="", ops=ops), reach=["done"]))
            if not comp:
                for ops in ("**", "iid") if q else ("***", "iiid"):
                    out.append(Job("%s/%s/root/%s" % (be, comp, ops), history, dict(be=be, comp=comp, shape="root", ops=ops), reach=["done"]))
            for shape in SHAPES:
                if comp and shape != "mid":
                    continue
                for ops in (("d", "*d") if q else ("d", "dd*", "i*d")):
                    out.append(Job("%s/%s/%s/%s" % (be, comp, shape, ops), history, dict(be=be, comp=comp, shape=shape, ops=ops), reach=["done", "deleted", "absent"]))
        for shape, count in (("full", 7), ("mid", 9), ("fib", 11)):
            out.append(Job("%s/drain/%s/%d" % (be, shape, count), drain, dict(be=be, shape=shape, count=count, again=3), reach=["done", "deleted"]))
        out.append(Job("%s/grown/steps" % be, grown, dict(be=be, comp=None, seeds=40 if q else 200, n=50, ops=""), reach=["done"], path_timeout=30))
        out.append(Job("%s/grown/*" % be, grown, dict(be=be, comp="gt" if be == "py" else None, seeds=20 if q else 60, n=30, ops="*"), reach=["done"], path_timeout=30))
        out.append(Job("%s/big" % be, big, dict(be=be, n=300), reach=["done"], path_timeout=30))
    return out
