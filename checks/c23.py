import random as _random
from symex.api import *
from checks.treelib import *
from checks import c22
from pydatastructs import BinarySearchTree, AVLTree, RedBlackTree, SplayTree, CartesianTree, Treap

BOUNDS = {
    "quick": "every search tree class in both backends; trees of up to 3 unbounded integer keys after a free deletion or insertion, trees of 7 keys in several shapes after one free operation, trees shaped by 10 fixed histories of 45 operations after one free operation, 300 consecutive keys; on each: both bounds and the rank at a free query key, rank and select at every position, both ancestor algorithms at every pair (large trees excepted)",
    "thorough": "up to 4 free keys, two free operations, 80 histories"}
ASSUMPTIONS = ["keys are totally ordered by the comparator", "rank and select are queried on trees constructed as order statistic trees",
               "priorities of Cartesian trees and treaps are fixed pseudo-random values here (C22 varies them)"]
HALVES = ["*/free3", "*/free2[*]"]

CLS = {"bst": BinarySearchTree, "avl": AVLTree, "rb": RedBlackTree, "splay": SplayTree, "cart": CartesianTree, "treap": Treap}
SHAPES = {"full": [40, 20, 60, 10, 30, 50, 70], "desc": [70, 60, 50, 40, 30, 20, 10], "zigzag": [70, 10, 60, 20, 50, 30, 40]}


class Tree:
    def __init__(self, ctx, kind, be, comp):
        self.ctx, self.kind, self.be = ctx, kind, be
        f, better = COMPS[comp]
        self.m = Model(better)
        self.t = CLS[kind](None, None, f, True, backend=BE[be])
        self.rng = _random.Random(12345)

    def insert(self, k):
        tag = self.m.tag()
        p = self.rng.randrange(60)
        if self.kind == "cart":
            self.t.insert(k, p, tag)
        elif self.kind == "treap" and self.be == "py":
            with patched(_random, random=lambda: p):
                self.t.insert(k, tag)
        else:
            if self.kind == "treap":
                c22.drive_rand(p * 30000000 + 1000)
            self.t.insert(k, tag)
        self.m.put(k, tag)

    def delete(self, k):
        self.t.delete(k)
        self.m.drop(k)

    def op(self, op, k):
        if op == "i":
            self.insert(k)
        else:
            self.delete(k)


def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False


def queries(ctx, T_, q, pairs, absent=True):
    """q: a query key; pairs: 'all' or a number of free pairs"""
    t, m = T_.t, T_.m
    w = look(ctx, t, m, "before the queries")
    if not w.ok:
        return
    tags = m.sorted_tags()
    keys = [m.live[a] for a in tags]
    up = m.better
    lo = hi = None
    for k in reversed(keys):
        if not (k < q if up is lt else k > q):
            lo = k
        if k > q if up is lt else k < q:
            hi = k
    for name, want in (("lower_bound", lo), ("upper_bound", hi)):
        r = getattr(t, name)(q)
        ctx.check((r is None) == (want is None), name + ": returns None exactly when there is no such key")
        if r is not None and want is not None:
            ctx.check(eq(r, want), name + ": not the nearest key")
    # rank and select
    n = len(keys)
    for i, (a, k) in enumerate(zip(tags, keys)):
        ctx.check(t.rank(k) == i + 1, "rank of a key is not its position")
        x = t.select(i + 1)
        ctx.check(x is not None and x.data == a, "select returned another key than the one at the position")
    ctx.check(raises(lambda: t.select(0)), "select(0) did not raise")
    ctx.check(raises(lambda: t.select(n + 1)), "select past the last key did not raise")
    if not m.has(q):
        ctx.check(t.rank(q) is None, "rank of an absent key is not None")
        if n and absent:
            for alg in (1, 2):
                ctx.check(raises(lambda: t.lowest_common_ancestor(keys[0], q, alg)), "ancestor of an absent key did not raise")
                ctx.check(raises(lambda: t.lowest_common_ancestor(q, keys[-1], alg)), "ancestor of an absent key did not raise")
        ctx.reach("absent")
    # common ancestors
    if n:
        where = {t.tree[i].data: i for i in w.idx}
        if pairs == "all":
            todo = [(a, b) for a in range(n) for b in range(n)]
        else:
            todo = [(ctx.choice("u%d" % z, n), ctx.choice("v%d" % z, n)) for z in range(pairs)]
        for a, b in todo:
            up_, x = set(), where[tags[a]]
            while x is not None:
                up_.add(x)
                x = w.par.get(x)
            x = where[tags[b]]
            while x not in up_:
                x = w.par[x]
            for alg in (1, 2):
                r = t.lowest_common_ancestor(keys[a], keys[b], alg)
                ctx.check(eq(r, t.tree[x].key) if r is not None else False, "algorithm %d: not the lowest common ancestor" % alg)
        ctx.reach("ancestors")


def free(ctx, kind, be, comp, n, ops):
    T_ = Tree(ctx, kind, be, comp)
    for i in range(n):
        T_.insert(ctx.int("k%d" % i))
    for j, op in enumerate(ops):
        T_.op("id"[ctx.choice("op%d" % j, 2)] if op == "*" else op, ctx.int("o%d" % j))
    queries(ctx, T_, ctx.int("q"), "all")


def shaped(ctx, kind, be, comp, shape, ops, dels=0):
    T_ = Tree(ctx, kind, be, comp)
    for k in SHAPES[shape]:
        T_.insert(k)
    for j in range(dels):
        live = list(T_.m.live.values())
        T_.delete(live[ctx.choice("d%d" % j, len(live))])
    for j, op in enumerate(ops):
        T_.op("id"[ctx.choice("op%d" % j, 2)] if op == "*" else op, ctx.int("o%d" % j))
    queries(ctx, T_, ctx.int("q"), "all" if not dels else 0)


def grown(ctx, kind, be, comp, seeds, n, ops):
    rng = _random.Random(15485863 * (1 + ctx.choice("seed", seeds)))
    T_ = Tree(ctx, kind, be, comp)
    keys = []
    for j in range(n):
        if len(keys) > 3 and rng.random() < (0.2 if j < n // 2 else 0.45):
            op, k = "d", keys.pop(rng.randrange(len(keys)))
        else:
            op, k = "i", 10 * rng.randrange(-3 * n, 3 * n)
            if k not in keys:
                keys.append(k)
        T_.op(op, k)
    for j, op in enumerate(ops):
        T_.op("id"[ctx.choice("op%d" % j, 2)] if op == "*" else op, ctx.int("o%d" % j))
    queries(ctx, T_, ctx.int("q"), "all" if not ops else 0)


def big(ctx, kind, be, n, points):
    T_ = Tree(ctx, kind, be, None)
    t, m = T_.t, T_.m
    for j in range(n):
        m.n += 1
        k = (j * 7) % n
        if kind == "cart":
            t.insert(k, T_.rng.randrange(1000), 5000 + k)
        else:
            if kind == "treap" and be == "cpp":
                c22.drive_rand(T_.rng.randrange(2 ** 31))
            t.insert(k, 5000 + k)
    gone = {k for k in range(n) if k % 5 == 2}
    for k in gone:
        t.delete(k)
    live = [k for k in range(n) if k not in gone]
    for i, k in enumerate(live):
        ctx.check(t.rank(k) == i + 1, "large tree: rank")
        ctx.check(t.select(i + 1).data == 5000 + k, "large tree: select")
    q = ctx.choice("q", points) * (n // points) + 2
    ctx.check(t.lower_bound(q) == min([k for k in live if k >= q], default=None), "large tree: lower bound")
    ctx.check(t.upper_bound(q) == min([k for k in live if k > q], default=None), "large tree: upper bound")
    a, b = live[(q * 13) % len(live)], live[(q * 29 + 5) % len(live)]
    ctx.check(t.lowest_common_ancestor(a, b, 1) == t.lowest_common_ancestor(a, b, 2), "large tree: the two ancestor algorithms disagree")
    ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    out = []
    for kind in CLS:
        for be in ("py", "cpp"):
            for comp in (None, "gt"):
                if comp and q and kind not in ("bst", "rb"):
                    continue
                for n, ops in (((0, ""), (2, "*"), (3, "")) if q else ((0, ""), (2, "**"), (3, "*"), (4, ""))):
                    if comp and (n, ops) != (2, "*"):
                        continue
                    out.append(Job("%s/%s/%s/free%d%s" % (kind, be, comp, n, ops), free, dict(kind=kind, be=be, comp=comp, n=n, ops=ops), reach=["absent"]))
                for shape in SHAPES:
                    if comp and shape != "zigzag":
                        continue
                    out.append(Job("%s/%s/%s/%s" % (kind, be, comp, shape), shaped, dict(kind=kind, be=be, comp=comp, shape=shape, ops="*" if q else "**"), reach=["ancestors"]))
                if not comp:
                    out.append(Job("%s/%s/%s/dels" % (kind, be, comp), shaped, dict(kind=kind, be=be, comp=comp, shape="full", ops="d", dels=1 if q else 2), reach=["ancestors"]))
            out.append(Job("%s/%s/grown" % (kind, be), grown, dict(kind=kind, be=be, comp=None, seeds=10 if q else 80, n=45, ops=""), reach=["ancestors"], path_timeout=30))
            out.append(Job("%s/%s/grown*" % (kind, be), grown, dict(kind=kind, be=be, comp="gt", seeds=2 if q else 20, n=30, ops="*"), reach=["absent"], path_timeout=30))
            out.append(Job("%s/%s/big" % (kind, be), big, dict(kind=kind, be=be, n=300, points=5 if q else 60), reach=["done"], path_timeout=30))
    return out
