import random as _random
from symex.api import *
from pydatastructs import DisjointSetForest

BOUNDS = {
    "quick": "histories of up to 3 operations with unbounded integer keys (equal or not), of 4 free operations on 2 existing keys, 3 on 3 and 4, 2 on 5, two free operations after 20 fixed histories of 6 to 60 operations on 4 to 20 keys; after every step all roots, sizes, the partition, the data and the rejection of unknown keys",
    "thorough": "5 operations with unbounded keys, 5 free operations on 4 keys, 150 fixed histories"}
ASSUMPTIONS = ["keys are hashable and totally ordered"]


class Forest:
    def __init__(self, ctx):
        self.ctx, self.f = ctx, DisjointSetForest()
        self.keys, self.cls, self.data, self.n = [], [], [], 0      # cls[i]: the class number of keys[i]
        self.rooted = {}                                             # class number -> key made root last, until the next union

    def idx(self, k):
        for i, x in enumerate(self.keys):
            if x == k:
                return i

    def make(self, k):
        i = self.idx(k)
        self.n += 1
        self.f.make_set(k, ("data", self.n))
        if i is None:
            self.keys.append(k)
            self.cls.append(self.n)
            self.data.append(("data", self.n))

    def absent(self, f):
        try:
            f()
        except KeyError:
            return True
        return False

    def union(self, a, b):
        i, j = self.idx(a), self.idx(b)
        if i is None or j is None:
            self.ctx.check(self.absent(lambda: self.f.union(a, b)), "union of an unknown key not rejected")
            return
        self.f.union(a, b)
        x, y = self.cls[i], self.cls[j]
        if x != y:
            self.rooted.pop(x, None)
            self.rooted.pop(y, None)
            self.cls = [x if c == y else c for c in self.cls]

    def find(self, k):
        i = self.idx(k)
        if i is None:
            self.ctx.check(self.absent(lambda: self.f.find_root(k)), "find_root of an unknown key not rejected")
            self.ctx.check(self.absent(lambda: self.f.find_size(k)), "find_size of an unknown key not rejected")
            return
        r = self.f.find_root(k)
        j = self.idx(r.key)
        self.ctx.check(j is not None and self.cls[i] == self.cls[j], "the root is not in the set")
        self.ctx.check(self.f.find_size(k) == self.cls.count(self.cls[i]), "size of the set")

    def root(self, k):
        i = self.idx(k)
        if i is None:
            self.ctx.check(self.absent(lambda: self.f.make_root(k)), "make_root of an unknown key not rejected")
            return
        self.f.make_root(k)
        self.rooted[self.cls[i]] = i

    def op(self, kind, a, b):
        {"m": lambda: self.make(a), "u": lambda: self.union(a, b), "f": lambda: self.find(a), "r": lambda: self.root(a)}[kind]()

    def look(self, queries=True):
        ctx, f = self.ctx, self.f
        if queries:
            roots = [f.find_root(k) for k in self.keys]
            for i in range(len(self.keys)):
                ctx.check(f.find_root(self.keys[i]) is roots[i], "find_root changed the root")
                ctx.check(f.find_size(self.keys[i]) == self.cls.count(self.cls[i]), "size of the set")
                ctx.check(any(self.cls[j] == self.cls[i] and self.keys[j] == roots[i].key for j in range(len(self.keys))), "the root is not a member of its set")
                ctx.check(f.tree[self.keys[i]].data == self.data[i], "data of a member")
                for j in range(i):
                    ctx.check((roots[i] is roots[j]) == (self.cls[i] == self.cls[j]), "same root exactly for connected members")
                if self.cls[i] in self.rooted:
                    ctx.check(roots[i].key == self.keys[self.rooted[self.cls[i]]], "make_root did not make it the root")
        groups = {}
        for k, c in zip(self.keys, self.cls):
            groups.setdefault(c, []).append(k)
        want = sorted(sorted(g) for g in groups.values())
        ctx.check(f.disjoint_sets() == want, "the reported partition")


def symbolic(ctx, n, look_each):
    F = Forest(ctx)
    F.make(ctx.int("k"))
    for j in range(n):
        kind = "mufr"[ctx.choice("op%d" % j, 4)]
        F.op(kind, ctx.int("a%d" % j), ctx.int("b%d" % j) if kind == "u" else None)
        if look_each:
            F.look()
    F.look()
    ctx.reach("done")


def keyed(ctx, keys, n, each):
    F = Forest(ctx)
    for k in keys:
        F.make(k)
    F.look()
    free_ops(ctx, F, keys, n, each)
    ctx.reach("done")


def free_ops(ctx, F, keys, n, each):
    for j in range(n):
        kind = "urf"[ctx.choice("op%d" % j, 3 if j < n - 1 else 2)]
        a = keys[ctx.choice("a%d" % j, len(keys))]
        F.op(kind, a, keys[ctx.choice("b%d" % j, len(keys))] if kind == "u" else None)
        if each:
            F.look()
    F.look()


def grown(ctx, seeds, size, length, n):
    rng = _random.Random(15485867 * (1 + ctx.choice("seed", seeds)) + size)
    F = Forest(ctx)
    keys = [rng.randrange(1000) * 10 for _ in range(size)]
    for k in keys:
        F.make(k)
    keys = list(F.keys)
    weights = rng.choice([(5, 1, 1), (2, 2, 1), (2, 5, 1)])
    for _ in range(length):
        kind = rng.choices("urf", weights)[0]
        F.op(kind, rng.choice(keys), rng.choice(keys))
    F.look()
    pick = keys[:3] + keys[-2:]
    free_ops(ctx, F, pick, n, True)
    ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    out = [Job("free%d" % n, symbolic, dict(n=n, look_each=n < 3), reach=["done"]) for n in (1, 2, 3) + (() if q else (4, 5))]
    for keys, n, each in [(["b", "a"], 4, True), ([0, -1, 5], 3, True), ([3, 1, 2, 0], 3, True), ([(1, 2), (0, 5), (1, 0), (0, 0), (9,)], 2, False)] + ([] if q else [([0, -1, 5], 4, True), ([(1, 2), (0, 5), (1, 0), (0, 0), (9,)], 3, False), ([3, 1, 2, 0], 4, True), ([3, 1, 2, 0], 5, False)]):
        out.append(Job("keyed%dx%d%s" % (len(keys), n, "e" if each else ""), keyed, dict(keys=keys, n=n, each=each), reach=["done"]))
    for size, length in (4, 6), (6, 12), (9, 20), (20, 60):
        out.append(Job("grown%d" % size, grown, dict(seeds=5 if q else 40, size=size, length=length, n=2), reach=["done"]))
    return out
