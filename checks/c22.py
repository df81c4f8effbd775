import ctypes
import random as _random
from symex.api import *
from checks.treelib import *
from pydatastructs import CartesianTree, Treap
import pydatastructs.trees.binary_trees as _bt

BOUNDS = {
    "quick": "histories of up to 3 insertions/deletions with unbounded integer keys (repeats included) from an empty tree and of 2 from an initial root (which has priority 0); trees of 7 keys with the heap shape given by several fixed priority orders, and trees shaped by 30 fixed histories of 50 operations, followed by one free operation; priorities: any integers in the Python trees, any order type out of 6 ranks (ties included) in the compiled ones, where the random generator of the C library is driven through its state; 300 consecutive keys; default and descending comparators; both backends",
    "thorough": "one operation more in every history, 100 shaped trees"}
ASSUMPTIONS = ["keys are totally ordered by the comparator",
               "trees start empty: the constructor has no priority for a root key",
               "compiled trees store priorities as doubles; the ranks stand for every assignment of priorities with their order"]
HALVES = ["*/iid", "*/[*][*][*]", "*/root"]

LEVELS = 6
PRI = {"bal": {40: 0, 20: 10, 60: 20, 10: 30, 30: 40, 50: 50, 70: 60},
       "right": {10: 0, 20: 10, 30: 20, 40: 30, 50: 40, 60: 50, 70: 60},
       "zig": {70: 0, 10: 10, 60: 20, 20: 30, 50: 40, 30: 50, 40: 60}}

_libc = None
_state = ctypes.create_string_buffer(8)


def drive_rand(r):
    """The next value rand() of the C library returns is r (0 <= r < 2**31)."""
    global _libc
    if _libc is None:
        _libc = ctypes.CDLL("libc.so.6")
        _libc.initstate.restype = ctypes.c_void_p
    _libc.initstate(1, _state, 8)
    s = ((r - 12345) * pow(1103515245, -1, 2 ** 31)) % 2 ** 31
    _libc.srand(s or 2 ** 31)


class Tree:
    """One tree with its model; every insertion has a priority."""

    def __init__(self, ctx, kind, be, comp, root=None):
        self.ctx, self.kind, self.be = ctx, kind, be
        f, better = COMPS[comp]
        self.m = Model(better)
        self.pri = {}
        tag = None
        if root is not None:
            tag = self.m.tag()
            self.m.put(root, tag)
            self.pri[tag] = 0
        self.t = (CartesianTree if kind == "cart" else Treap)(root, tag, f, backend=BE[be])

    def insert(self, k, tag, p):
        self.pri[tag] = p
        if self.kind == "cart":
            self.t.insert(k, p, tag)
        elif self.be == "py":
            with patched(_random, random=lambda: p):
                self.t.insert(k, tag)
        else:
            drive_rand((p * 30000000 + 100000000) % 2 ** 31)
            self.t.insert(k, tag)

    def put(self, k, p):
        tag = self.m.tag()
        self.insert(k, tag, p)
        self.m.put(k, tag)
        return tag

    def free_priority(self, name):
        if self.be == "py":
            return self.ctx.int(name)
        return self.ctx.choice(name, LEVELS) * 15 - 5

    def look(self, what):
        ctx, t = self.ctx, self.t
        w = look(ctx, t, self.m, what)
        if not w.ok or w.empty:
            return w
        for i in w.idx:
            x = t.tree[i]
            if self.kind == "cart" or self.be == "py":
                ctx.check(eq(x.priority, self.pri[x.data]) if x.data in self.pri else False, what + ": a node has another priority than it was given")
            if i in w.par:
                ctx.check(le(t.tree[w.par[i]].priority, x.priority), what + ": a node's priority is below its parent's")
        return w


def step(ctx, T_, op, k, p=None, n=0):
    t, m = T_.t, T_.m
    if op == "i":
        T_.put(k, T_.free_priority("p%d" % n) if p is None else p)
        T_.look("insert")
        ctx.reach("inserted")
    else:
        r = t.delete(k)
        had = m.drop(k)
        ctx.check((r is True) == had and (r is None) == (not had), "delete: reports an absent key")
        T_.look("delete")
        ctx.reach("deleted" if had else "absent")


def history(ctx, kind, be, comp, shape, ops, root=False):
    T_ = Tree(ctx, kind, be, comp, ctx.int("root") if root else None)
    for k, p in (PRI[shape].items() if shape else ()):
        T_.put(k, p)
    T_.look("start")
    for n, op in enumerate(ops):
        if op == "*":
            op = "id"[ctx.choice("op%d" % n, 2)]
        step(ctx, T_, op, ctx.int("k%d" % n), n=n)
    if len(ops) < 2:
        probe(ctx, T_.t, T_.m, ctx.int("probe"))
    ctx.reach("done")


def grown(ctx, kind, be, comp, seeds, n, ops):
    rng = _random.Random(104729 * (1 + ctx.choice("seed", seeds)))
    T_ = Tree(ctx, kind, be, comp)
    keys = []
    for j in range(n):
        if len(keys) > 3 and rng.random() < (0.2 if j < n // 2 else 0.45):
            op, k = "d", keys.pop(rng.randrange(len(keys)))
        else:
            op, k = "i", 10 * rng.randrange(-3 * n, 3 * n)
            if keys and rng.random() < 0.15:
                k = rng.choice(keys)
            if k not in keys:
                keys.append(k)
        p = rng.randrange(0, 60)
        if not ops:
            step(ctx, T_, op, k, p)
        elif op == "i":
            T_.put(k, p)
        else:
            T_.t.delete(k)
            T_.m.drop(k)
    for j, op in enumerate(ops):
        if op == "*":
            op = "id"[ctx.choice("op%d" % j, 2)]
        step(ctx, T_, op, ctx.int("k%d" % j), n=j)
    ctx.reach("done")


def big(ctx, kind, be, n):
    T_ = Tree(ctx, kind, be, None)
    way = ctx.choice("way", 3)
    for j in range(n):
        k = n - j if way == 1 else j
        tag = T_.m.tag()
        T_.insert(k, tag, (n - j) % 60 if way == 2 else (j * 37) % 60)
        T_.m.live[tag] = k
    T_.look("many insertions")
    for j in range(0, n, 3):
        T_.t.delete(j + 1)
    T_.m.live = {a: k for a, k in T_.m.live.items() if not (k >= 1 and (k - 1) % 3 == 0)}
    T_.look("many deletions")
    step(ctx, T_, "id"[ctx.choice("op", 2)], 3 * ctx.choice("at", 20) + 90, 30)
    ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    out = []
    D = ["done"]
    for kind in ("cart", "treap"):
        for be in ("py", "cpp"):
            for comp in (None, "gt"):
                if comp and (kind, be) not in (("cart", "py"), ("treap", "cpp")):
                    continue
                for ops in (("***", "iid") if q else ("***", "iii*", "iidi")):
                    if comp and ops != "***":
                        continue
                    out.append(Job("%s/%s/%s/%s" % (kind, be, comp, ops), history, dict(kind=kind, be=be, comp=comp, shape="", ops=ops), reach=D))
                if not comp:
                    out.append(Job("%s/%s/root" % (kind, be), history, dict(kind=kind, be=be, comp=comp, shape="", ops="**" if q else "***", root=True), reach=D))
                for shape in PRI:
                    if comp and shape != "zig":
                        continue
                    out.append(Job("%s/%s/%s/%s" % (kind, be, comp, shape), history, dict(kind=kind, be=be, comp=comp, shape=shape, ops="*" if q else "**"), reach=D))
            out.append(Job("%s/%s/grown/steps" % (kind, be), grown, dict(kind=kind, be=be, comp=None, seeds=30 if q else 100, n=50, ops=""), reach=D, path_timeout=30))
            out.append(Job("%s/%s/grown/*" % (kind, be), grown, dict(kind=kind, be=be, comp="gt" if be == "py" else None, seeds=15 if q else 50, n=30, ops="*"), reach=D, path_timeout=30))
            out.append(Job("%s/%s/big" % (kind, be), big, dict(kind=kind, be=be, n=300), reach=D, path_timeout=30))
    return out
