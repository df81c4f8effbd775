"""Model of an ordered map and structural reader for the array-backed search trees."""
from symex.api import *
from pydatastructs import Backend

BE = {"py": Backend.PYTHON, "cpp": Backend.CPP}
GT = lambda u, v: u > v
COMPS = {None: (None, lt), "gt": (GT, gt)}


class Walk:
    """Follow the links from the root; structural faults are reported, never followed twice."""

    def __init__(self, ctx, t, what):
        self.ctx, self.what = ctx, what
        self.nodes, self.idx, self.depth, self.kids, self.par = [], [], {}, {}, {}
        self.ok = True
        n = len(t.tree)
        root = t.root_idx
        if not (isinstance(root, int) and 0 <= root < n and t.tree[root] is not None):
            self.bad("root index does not name a node")
            self.empty = True
            return
        r = t.tree[root]
        self.root = root
        self.empty = r.key is None
        if self.empty:
            ctx.check(r.left is None and r.right is None, what + ": an empty tree has children")
            return
        if r.parent is not None:
            self.bad("the root has a parent")
        seen = set()
        stack = [(root, 0, 0)]
        while stack:
            i, d, state = stack.pop()
            if state == 0:
                if not (0 <= i < n) or t.tree[i] is None:
                    self.bad("a child link leads to no node")
                    continue
                if i in seen:
                    self.bad("two links lead to the same node")
                    continue
                seen.add(i)
                x = t.tree[i]
                self.depth[i] = d
                self.kids[i] = (x.left, x.right)
                for c in (x.left, x.right):
                    if c is not None:
                        self.par[c] = i
                        if 0 <= c < n and t.tree[c] is not None and t.tree[c].parent != i:
                            self.bad("parent and child links disagree")
                if x.right is not None:
                    stack.append((x.right, d + 1, 0))
                stack.append((i, d, 1))
                if x.left is not None:
                    stack.append((x.left, d + 1, 0))
            else:
                self.nodes.append(t.tree[i])
                self.idx.append(i)

    def bad(self, msg):
        self.ok = False
        self.ctx.check(False, self.what + ": " + msg)


class Model:
    def __init__(self, better=lt):
        self.live, self.better, self.n = {}, better, 0

    def tag(self):
        self.n += 1
        return 1000 + self.n

    def has(self, k):
        return [t for t in self.live if self.live[t] == k]

    def put(self, k, tag):
        for t in self.has(k):
            del self.live[t]
        self.live[tag] = k

    def drop(self, k):
        h = self.has(k)
        for t in h:
            del self.live[t]
        return bool(h)

    def sorted_tags(self):
        """tags in key order (decided by branching on the path)"""
        out = []
        for t, k in self.live.items():
            i = 0
            while i < len(out) and (self.live[out[i]] < k if self.better is lt else self.live[out[i]] > k):
                i += 1
            out.insert(i, t)
        return out


def look(ctx, t, m, what):
    """The tree is a consistent search tree holding exactly the model's keys and data."""
    w = Walk(ctx, t, what)
    if not w.ok:
        return w
    ctx.check(w.empty == (not m.live), what + ": emptiness disagrees with the live keys")
    if w.empty:
        return w
    tags = [x.data for x in w.nodes]
    same = len(set(tags)) == len(tags) and set(tags) == set(m.live)
    ctx.check(same, what + ": a key was lost, duplicated or has stale data")
    if same:
        ctx.check(And([eq(x.key, m.live[x.data]) for x in w.nodes]), what + ": key and data were separated")
        ctx.check(And([m.better(a.key, b.key) for a, b in zip(w.nodes, w.nodes[1:])]), what + ": the inorder walk is not in key order")
    return w


def probe(ctx, t, m, k, what="search"):
    r = t.search(k)
    h = m.has(k)
    ctx.check((r is None) == (not h), what + ": a key is found exactly when it is present")
    if h and r is not None:
        ctx.check(0 <= r < len(t.tree) and t.tree[r] is not None and t.tree[r].data == h[0], what + ": the wrong node was found")
    return r


def grow(ctx, t, m, step, seeds, n, ops, plain=None):
    """A tree shaped by one of `seeds` fixed histories of n insertions and deletions of known keys,
    then operations with free keys. Without free operations every step of the history is checked."""
    import random
    rng = random.Random(7919 * (1 + ctx.choice("seed", seeds)))
    keys = list(m.live.values())
    for j in range(n):
        # grow, then hover around the final size
        if keys and len(keys) > 3 and rng.random() < (0.2 if j < n // 2 else 0.45):
            op, k = "d", keys.pop(rng.randrange(len(keys)))
        else:
            op, k = "i", 10 * rng.randrange(-3 * n, 3 * n)
            if k not in keys:
                keys.append(k)
        if not ops:
            step(ctx, t, m, op, k)
        elif op == "i":
            tag = m.tag()
            (plain or t.insert)(k, tag)
            m.put(k, tag)
        else:
            t.delete(k)
            m.drop(k)
    for j, op in enumerate(ops):
        if op == "*":
            op = "id"[ctx.choice("op%d" % j, 2)]
        step(ctx, t, m, op, ctx.int("k%d" % j))
    ctx.reach("done")
