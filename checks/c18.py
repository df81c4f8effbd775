from symex.api import *
from checks.treelib import *
from pydatastructs import BinarySearchTree

BOUNDS = {
    "quick": "from an empty tree or a root: every history of up to 4 insertions/deletions with unbounded integer keys (repeats included), ascending, default and descending comparators; trees of 7 to 9 concrete keys (several shapes) with 2 free deletions/insertions; draining 5 to 9 keys in solver-chosen order followed by re-insertions (storage compaction); trees shaped by 40 fixed histories of 50 operations, and by 20 of 30 operations followed by a free operation; both backends",
    "thorough": "histories of 5 operations, 3 free operations on prepared trees, 200 and 60 fixed histories"}
ASSUMPTIONS = ["keys are totally ordered by the comparator", "a root given to the constructor carries data"]
HALVES = ["*/grown/steps", "*/chain/*", "py/None/False/[*][*][*]", "cpp/None/False/[*][*][*]"]

SHAPES = {
    "full": [40, 20, 60, 10, 30, 50, 70],
    "zigzag": [10, 70, 20, 60, 30, 50, 40],
    "chain": [10, 20, 30, 40, 50],
    "deepleft": [70, 60, 20, 10, 40, 30, 50],
    "wide": [50, 20, 80, 10, 30, 70, 90, 60, 40],
}


def new(ctx, be, comp, root, cls=BinarySearchTree, **kw):
    f, better = COMPS[comp]
    m = Model(better)
    if root:
        k = ctx.int("root") if root is True else root
        tag = m.tag()
        t = cls(k, tag, f, backend=BE[be], **kw)
        m.put(k, tag)
    else:
        t = cls(None, None, f, backend=BE[be], **kw)
    return t, m


def step(ctx, t, m, op, k):
    if op == "i":
        tag = m.tag()
        t.insert(k, tag)
        m.put(k, tag)
        look(ctx, t, m, "insert")
        ctx.reach("inserted")
    elif op == "d":
        r = t.delete(k)
        had = m.drop(k)
        ctx.check((r is True) == had and (r is None) == (not had), "delete: reports an absent key")
        look(ctx, t, m, "delete")
        ctx.reach("deleted" if had else "absent")


def history(ctx, be, comp, root, ops):
    t, m = new(ctx, be, comp, root)
    look(ctx, t, m, "start")
    for n, op in enumerate(ops):
        if op == "*":
            op = "id"[ctx.choice("op%d" % n, 2)]
        step(ctx, t, m, op, ctx.int("k%d" % n))
    probe(ctx, t, m, ctx.int("probe"))
    ctx.reach("done")


def prepared(ctx, be, comp, shape, ops):
    keys = SHAPES[shape]
    t, m = new(ctx, be, comp, keys[0])
    for k in keys[1:]:
        tag = m.tag()
        t.insert(k, tag)
        m.put(k, tag)
    look(ctx, t, m, "build")
    for n, op in enumerate(ops):
        if op == "*":
            op = "id"[ctx.choice("op%d" % n, 2)]
        step(ctx, t, m, op, ctx.int("k%d" % n))
    if len(ops) == 1:
        probe(ctx, t, m, ctx.int("probe"))
    ctx.reach("done")


def drain(ctx, be, comp, shape, count, again):
    keys = SHAPES[shape]
    t, m = new(ctx, be, comp, keys[0])
    for k in keys[1:]:
        tag = m.tag()
        t.insert(k, tag)
        m.put(k, tag)
    left = list(keys)
    for n in range(count):
        k = left.pop(ctx.choice("pick%d" % n, len(left)))
        step(ctx, t, m, "d", k)
    for n in range(again):
        step(ctx, t, m, "i", [45, 5, 95, 33][n])
    for k in keys + [45, 5, 95, 33]:
        probe(ctx, t, m, k)
    ctx.reach("done")


def grown(ctx, be, comp, seeds, n, ops):
    t, m = new(ctx, be, comp, 5)
    grow(ctx, t, m, step, seeds, n, ops)


def jobs(tier):
    q = tier == "quick"
    out = []
    R = ["done", "deleted", "inserted"]
    for be in ("py", "cpp"):
        for comp in (None, "gt"):
            for root in (True, False):
                for ops in ("**", "***") + ((((("iiid", "iidi", "idid") if root else ("iiid",)) if not comp else ()) if q else ("****", "iiiid", "iiidi", "iiidd", "iidii", "iiiidd"))):
                    out.append(Job("%s/%s/%s/%s" % (be, comp, root, ops), history, dict(be=be, comp=comp, root=root, ops=ops), reach=["done"]))
            for shape in SHAPES:
                if comp and shape not in ("full", "zigzag"):
                    continue
                for ops in (("d", "*d") if q else ("d", "*d", "ddd", "ddi", "id*")):
                    out.append(Job("%s/%s/%s/%s" % (be, comp, shape, ops), prepared, dict(be=be, comp=comp, shape=shape, ops=ops), reach=["done", "deleted", "absent"]))
            for shape, count in (("chain", 5), ("full", 4), ("zigzag", 4), ("wide", 3)) if q else (("chain", 5), ("full", 5), ("zigzag", 5), ("wide", 4), ("full", 7), ("deepleft", 5)):
                out.append(Job("%s/%s/drain/%s/%d" % (be, comp, shape, count), drain, dict(be=be, comp=comp, shape=shape, count=count, again=3), reach=["done", "deleted"]))
        out.append(Job("%s/grown/steps" % be, grown, dict(be=be, comp=None, seeds=40 if q else 200, n=50, ops=""), reach=["done"], path_timeout=30))
        out.append(Job("%s/grown/*" % be, grown, dict(be=be, comp="gt" if be == "py" else None, seeds=20 if q else 60, n=30, ops="*"), reach=["done"], path_timeout=30))
    return out
