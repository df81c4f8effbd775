from symex.api import *
from checks.treelib import *
from pydatastructs import RedBlackTree

BOUNDS = {
    "quick": "from an empty tree or a root: histories of up to 5 insertions/deletions with unbounded integer keys (repeats included), default and descending comparators; trees of 7 to 13 concrete keys in several insertion orders followed by 2 free deletions/insertions; draining trees in solver-chosen order and refilling; trees shaped by 40 fixed histories of 50 operations, and by 20 of 30 operations followed by a free operation; both backends",
    "thorough": "histories of 6 operations, 3 free operations on prepared trees; 200 and 60 histories"}
ASSUMPTIONS = ["keys are totally ordered by the comparator", "a root given to the constructor carries data"]
HALVES = ["*/grown/steps", "*/None/*/d", "*/[*][*][*]"]

SHAPES = {
    "asc": list(range(10, 100, 10)),
    "desc": list(range(130, 0, -10)),
    "mixed": [50, 20, 80, 10, 40, 70, 90, 30, 45, 60, 65, 25],
    "black": [40, 20, 60, 10, 30, 50, 70, 80],           # deleting 80 first leaves an all-black tree
}


def coloured(ctx, t, m, what):
    w = look(ctx, t, m, what)
    if not w.ok or w.empty:
        return w
    col = {i: t.tree[i].color for i in w.idx}
    ctx.check(all(c in (0, 1) for c in col.values()), what + ": a node has no colour")
    ctx.check(col[w.root] == 0, what + ": the root is not black")
    ctx.check(all(not (col[i] == 1 and c is not None and col[c] == 1) for i in w.idx for c in w.kids[i]), what + ": a red node has a red child")
    bh, ok = {}, True
    for i in sorted(w.idx, key=lambda i: -w.depth[i]):
        l, r = [(0 if c is None else bh[c]) for c in w.kids[i]]
        ok = ok and l == r
        bh[i] = l + (col[i] == 0)
    ctx.check(ok, what + ": paths have different numbers of black nodes")
    return w


def step(ctx, t, m, op, k):
    if op == "i":
        tag = m.tag()
        t.insert(k, tag)
        m.put(k, tag)
        coloured(ctx, t, m, "insert")
        ctx.reach("inserted")
    else:
        r = t.delete(k)
        had = m.drop(k)
        ctx.check((r is True) == had and (r is None) == (not had), "delete: reports an absent key")
        coloured(ctx, t, m, "delete")
        ctx.reach("deleted" if had else "absent")


def history(ctx, be, comp, shape, ops):
    f, better = COMPS[comp]
    m = Model(better)
    t = None
    if shape == "root":
        tag = m.tag()
        k = ctx.int("root")
        t = RedBlackTree(k, tag, f, backend=BE[be])
        m.put(k, tag)
    else:
        t = RedBlackTree(None, None, f, backend=BE[be])
        for k in SHAPES.get(shape, []):
            tag = m.tag()
            t.insert(k, tag)
            m.put(k, tag)
    if shape == "black":
        t.delete(80)
        m.drop(80)
    coloured(ctx, t, m, "start")
    for n, op in enumerate(ops):
        if op == "*":
            op = "id"[ctx.choice("op%d" % n, 2)]
        step(ctx, t, m, op, ctx.int("k%d" % n))
    if len(ops) < 2:
        probe(ctx, t, m, ctx.int("probe"))
    ctx.reach("done")


def drain(ctx, be, shape, count, again):
    keys = SHAPES[shape]
    m = Model()
    t = RedBlackTree(None, None, backend=BE[be])
    for k in keys:
        step(ctx, t, m, "i", k)
    left = list(keys)
    pick = 0
    for n in range(count):
        if n < 3:
            pick = ctx.choice("pick%d" % n, len(left))
        step(ctx, t, m, "d", left.pop(pick % len(left)))
    for n in range(again):
        step(ctx, t, m, "i", [45, 7, 95][n])
    for k in keys + [45, 7, 95]:
        probe(ctx, t, m, k)
    ctx.reach("done")


def big(ctx, be, n):
    m = Model()
    t = RedBlackTree(None, None, backend=BE[be])
    down = ctx.flag("down")
    for j in range(n):
        k = n - j if down else j
        t.insert(k, 5000 + j)
        m.live[5000 + j] = k
    coloured(ctx, t, m, "many insertions")
    for j in range(0, n, 3):
        t.delete(j + 1)
    m.live = {a: k for a, k in m.live.items() if not (k >= 1 and (k - 1) % 3 == 0)}
    coloured(ctx, t, m, "many deletions")
    ctx.reach("done")


def grown(ctx, be, comp, seeds, n, ops):
    f, better = COMPS[comp]
    grow(ctx, RedBlackTree(None, None, f, backend=BE[be]), Model(better), step, seeds, n, ops)


def jobs(tier):
    q = tier == "quick"
    out = []
    for be in ("py", "cpp"):
        for comp in (None, "gt"):
            for ops in (("***", "iiiid", "iiii") if not comp else ("***", "iiii")) if q else ("****", "iiiiid", "iiiidi", "iiidid"):
                out.append(Job("%s/%s/empty/%s" % (be, comp, ops), history, dict(be=be, comp=comp, shape="", ops=ops), reach=["done"]))
            if not comp:
                for ops in ("**", "iid") if q else ("***", "iiid"):
                    out.append(Job("%s/%s/root/%s" % (be, comp, ops), history, dict(be=be, comp=comp, shape="root", ops=ops), reach=["done"]))
            for shape in SHAPES:
                if comp and shape != "mixed":
                    continue
                for ops in (("d", "*d") if q else ("d", "dd*", "i*d")):
                    out.append(Job("%s/%s/%s/%s" % (be, comp, shape, ops), history, dict(be=be, comp=comp, shape=shape, ops=ops), reach=["done", "deleted", "absent"]))
        for shape, count in (("asc", 9), ("mixed", 12), ("black", 8)):
            out.append(Job("%s/drain/%s/%d" % (be, shape, count), drain, dict(be=be, shape=shape, count=count, again=3), reach=["done", "deleted"]))
        out.append(Job("%s/grown/steps" % be, grown, dict(be=be, comp=None, seeds=40 if q else 200, n=50, ops=""), reach=["done"], path_timeout=30))
        out.append(Job("%s/grown/*" % be, grown, dict(be=be, comp="gt" if be == "py" else None, seeds=20 if q else 60, n=30, ops="*"), reach=["done"], path_timeout=30))
        out.append(Job("%s/big" % be, big, dict(be=be, n=300), reach=["done"], path_timeout=30))
    return out
