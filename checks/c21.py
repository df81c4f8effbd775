from symex.api import *
from checks.treelib import *
from pydatastructs import SplayTree

BOUNDS = {
    "quick": "histories of up to 3 insertions/deletions from an empty tree and 4 from a root with unbounded integer keys (repeats included), default and descending comparators; trees of 7 keys in several shapes and trees shaped by 40 fixed histories of 50 operations, followed by a free operation; joins of trees of up to 3+2 free keys, and of shaped trees, each followed by a free operation; splits at a free key; 300 consecutive keys; both backends",
    "thorough": "one operation more in every history, joins of 3+3 keys, splits followed by joins"}
ASSUMPTIONS = ["keys are totally ordered by the comparator", "a root given to the constructor carries data"]
HALVES = ["*/grown/steps", "*/join/*", "*/[*][*][*]"]

SHAPES = {"full": [40, 20, 60, 10, 30, 50, 70], "asc": [10, 20, 30, 40, 50, 60, 70], "zigzag": [70, 10, 60, 20, 50, 30, 40]}


def new(be, comp, keys=(), root=False):
    f, better = COMPS[comp]
    m = Model(better)
    keys = list(keys)
    if root:
        k = keys.pop(0)
        tag = m.tag()
        t = SplayTree(k, tag, f, backend=BE[be])
        m.put(k, tag)
    else:
        t = SplayTree(None, None, f, backend=BE[be])
    for k in keys:
        tag = m.tag()
        t.insert(k, tag)
        m.put(k, tag)
    return t, m


def step(ctx, t, m, op, k):
    if op == "i":
        tag = m.tag()
        t.insert(k, tag)
        m.put(k, tag)
        w = look(ctx, t, m, "insert")
        if w.ok:
            ctx.check(t.tree[w.root].data == tag, "insert: the inserted key is not at the root")
        ctx.reach("inserted")
    else:
        r = t.delete(k)
        had = m.drop(k)
        ctx.check((r is True) == had and (r is None) == (not had), "delete: reports an absent key")
        look(ctx, t, m, "delete")
        ctx.reach("deleted" if had else "absent")


def free(ctx, t, m, ops, pre=""):
    for n, op in enumerate(ops):
        if op == "*":
            op = "id"[ctx.choice("%sop%d" % (pre, n), 2)]
        step(ctx, t, m, op, ctx.int("%sk%d" % (pre, n)))


def history(ctx, be, comp, shape, ops):
    keys = SHAPES[shape] if shape in SHAPES else [ctx.int("root")] if shape else []
    t, m = new(be, comp, keys, bool(shape))
    look(ctx, t, m, "start")
    free(ctx, t, m, ops)
    if len(ops) < 2:
        probe(ctx, t, m, ctx.int("probe"))
    ctx.reach("done")


def grown(ctx, be, comp, seeds, n, ops):
    t, m = new(be, comp)
    grow(ctx, t, m, step, seeds, n, ops)


def big(ctx, be, n):
    t, m = new(be, None)
    down = ctx.flag("down")
    for j in range(n):
        k = n - j if down else j
        t.insert(k, 5000 + j)
        m.live[5000 + j] = k
    look(ctx, t, m, "many insertions")
    for j in range(0, n, 3):
        t.delete(j + 1)
    m.live = {a: k for a, k in m.live.items() if not (k >= 1 and (k - 1) % 3 == 0)}
    look(ctx, t, m, "many deletions")
    k = 3 * ctx.choice("at", 40) + 90
    o = t.split(k)
    mo = Model()
    mo.live = {a: x for a, x in m.live.items() if x > k}
    m.live = {a: x for a, x in m.live.items() if x <= k}
    look(ctx, t, m, "split a large tree")
    look(ctx, o, mo, "tree split from a large one")
    t.join(o)
    m.live.update(mo.live)
    look(ctx, t, m, "join large trees")
    ctx.reach("done")


def merged(m, mo):
    u = Model(m.better)
    u.live = dict(m.live)
    u.n = m.n
    for a, k in mo.live.items():
        u.live[a + 500] = k
    return u


def join(ctx, be, comp, left, right, ops, dels=0):
    """left/right: number of free keys, or a shape name."""
    def build(spec, name, shift):
        keys = [k + shift for k in SHAPES[spec]] if isinstance(spec, str) else [ctx.int("%s%d" % (name, i)) for i in range(spec)]
        return new(be, comp, keys)
    t, m = build(left, "a", 0)
    o, mo = build(right, "b", 0 if comp is None else -200)
    if isinstance(left, str):
        for d in range(dels):
            ks = sorted(m.live.values())
            k = ks[ctx.choice("del%d" % d, len(ks))]
            t.delete(k)
            m.drop(k)
    if isinstance(right, str):
        # move the second tree past the first
        s = 100 if comp is None else -100
        o, mo = new(be, comp, [k + s for k in SHAPES[right]])
        for d in range(dels):
            ks = sorted(mo.live.values())
            k = ks[ctx.choice("odel%d" % d, len(ks))]
            o.delete(k)
            mo.drop(k)
    for a in list(mo.live):
        mo.live[a + 500] = mo.live.pop(a)
    # distinct data in the two trees
    for i in range(len(o.tree)):
        if o.tree[i] is not None and o.tree[i].data is not None:
            o.tree[i].data = o.tree[i].data + 500
    a = [m.live[x] for x in m.sorted_tags()]
    b = [mo.live[x] for x in mo.sorted_tags()]
    before = str(t) if be == "py" and not ctx.symbolic else None
    separated = not a or not b or (a[-1] < b[0] if comp is None else a[-1] > b[0])
    if separated:
        t.join(o)
        ctx.reach("joined")
        look(ctx, o, mo, "join changed the other tree")
        m.live.update(mo.live)
        m.n = 400
    else:
        try:
            t.join(o)
            ctx.fail("join of trees that are not separated did not raise")
        except ValueError:
            pass
        ctx.reach("rejected")
    look(ctx, t, m, "join")
    free(ctx, t, m, ops)
    look(ctx, o, mo, "an operation on the joined tree changed the other tree")
    ctx.reach("done")


def split(ctx, be, comp, keys, dels, ops, rejoin=False):
    ks = SHAPES[keys] if isinstance(keys, str) else [ctx.int("a%d" % i) for i in range(keys)]
    t, m = new(be, comp, ks)
    for d in range(dels):
        live = list(m.live.values())
        k = live[ctx.choice("del%d" % d, len(live))]
        t.delete(k)
        m.drop(k)
    k = ctx.int("at")
    o = t.split(k)
    mo = Model(m.better)
    mo.n = 300
    if not m.has(k):
        ctx.check(o is None, "split at an absent key returned a tree")
        ctx.reach("absent")
        look(ctx, t, m, "split at an absent key")
        return
    ctx.reach("split")
    gt_ = (lambda x: x > k) if comp is None else (lambda x: x < k)
    for a in list(m.live):
        if gt_(m.live[a]):
            mo.live[a] = m.live.pop(a)
    w = look(ctx, t, m, "split: first part")
    if w.ok and not w.empty:
        ctx.check(eq(t.tree[w.root].key, k), "split: the key is not at the root of its part")
    look(ctx, o, mo, "split: second part")
    if rejoin:
        t.join(o)
        m.live.update(mo.live)
        look(ctx, t, m, "join after split")
        free(ctx, t, m, ops)
        return
    free(ctx, t, m, ops)
    free(ctx, o, mo, ops, "o")
    look(ctx, t, m, "after operations on both parts: first part")
    ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    out = []
    D = ["done"]
    for be in ("py", "cpp"):
        for comp in (None, "gt"):
            for shape, ops in ((("", "***"), ("root", "**"), ("root", "iid")) if q else (("", "****"), ("root", "***"), ("root", "iiid"))):
                if comp and q and ops == "iid":
                    continue
                out.append(Job("%s/%s/%s/%s" % (be, comp, shape or "empty", ops), history, dict(be=be, comp=comp, shape=shape, ops=ops), reach=D))
            for shape in SHAPES:
                if comp and shape != "zigzag":
                    continue
                out.append(Job("%s/%s/%s" % (be, comp, shape), history, dict(be=be, comp=comp, shape=shape, ops="*" if q else "**"), reach=D))
            for l, r in ((2, 2), (3, 1), (0, 2), (2, 0), (0, 0)) if q else ((2, 2), (3, 2), (2, 3), (0, 3), (3, 0), (0, 0)):
                if comp and q and (l, r) != (2, 2):
                    continue
                out.append(Job("%s/%s/join/%d+%d" % (be, comp, l, r), join, dict(be=be, comp=comp, left=l, right=r, ops="*"), reach=D))
            for l, r in (("full", "zigzag"), ("asc", "full")):
                if comp and l == "asc":
                    continue
                out.append(Job("%s/%s/join/%s+%s" % (be, comp, l, r), join, dict(be=be, comp=comp, left=l, right=r, ops="*", dels=1), reach=D + ["joined"]))
            for ks, dels, ops, rj in ((3, 0, "*", False), ("full", 1, "d", False), ("zigzag", 1, "*", True)):
                if comp and q and ks != "zigzag":
                    continue
                out.append(Job("%s/%s/split/%s/%s" % (be, comp, ks, rj), split, dict(be=be, comp=comp, keys=ks, dels=dels, ops=ops, rejoin=rj), reach=["split", "absent"]))
        out.append(Job("%s/grown/steps" % be, grown, dict(be=be, comp=None, seeds=40 if q else 200, n=50, ops=""), reach=D, path_timeout=30))
        out.append(Job("%s/grown/*" % be, grown, dict(be=be, comp="gt" if be == "py" else None, seeds=20 if q else 60, n=30, ops="*"), reach=D, path_timeout=30))
        out.append(Job("%s/big" % be, big, dict(be=be, n=300), reach=D, path_timeout=30))
    return out
