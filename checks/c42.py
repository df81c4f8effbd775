import ast
import re
from symex.api import *
from checks import c23
from checks.treelib import *
import pydatastructs.miscellaneous_data_structures.sparse_table as st_mod
from pydatastructs import (OneDimensionalArray as ODA, DynamicOneDimensionalArray as DODA, MultiDimensionalArray as MDA,
                           SinglyLinkedList, DoublyLinkedList, SinglyCircularLinkedList, DoublyCircularLinkedList, SkipList,
                           Queue, Stack, BinaryHeap, TernaryHeap, DHeap, ArraySegmentTree, SparseTable,
                           OneDimensionalSegmentTree, MAryTree)
from pydatastructs.utils import TreeNode

BOUNDS = {
    "quick": "arrays of 0 to 3 cells and dynamic arrays with 5 operations; multi-dimensional arrays of 5 shapes; linked lists with 3 operations, skip lists with 3 insertions and a removal; queues and stacks with 5 operations; every search tree class in both backends with 3 free operations and of 7 keys with one or two; heaps of up to 5; segment trees and sparse tables of up to 6 cells; interval trees of up to 2 intervals; all values unbounded integers",
    "thorough": "one or two operations more"}
ASSUMPTIONS = ["in the symbolic runs str() of a value is an integer literal that stands for the value; the values' own formatting is Python's"]
HALVES = ["*"]


def same(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return And(*[same(x, y) for x, y in zip(a, b)])
    if is_num(a) and is_num(b) and not isinstance(a, bool) and not isinstance(b, bool):
        return eq(a, b)
    return type(a) is type(b) and a == b


def shows(ctx, obj, want, what, deep=False, cut=None):
    """str(obj) reads as `want`; deep: the listed items are strings that are read in turn"""
    with printing() as p:
        try:
            text = str(obj)
        except Exception as e:
            ctx.fail("%s: printing raised %s" % (what, type(e).__name__))
            return
        try:
            got = ast.literal_eval(text)
            if deep:
                got = [x if x == "" else ast.literal_eval(x) for x in got]
        except (ValueError, SyntaxError):
            ctx.fail("%s: the text cannot be read back" % what)
            return
        got = p.value(got)
    if cut is not None:
        ctx.check(isinstance(got, list) and all(x is None for x in got[len(want):]), what + ": shows values that are not there")
        got = got[:len(want)]
    ctx.check(same(got, want), what + ": shows other values or another order than it holds")


def arrays(ctx, be, n, writes):
    a = ODA(ctx.dtype, n, backend=BE[be])
    model = [None] * n
    def look(what):
        shows(ctx, a, ["" if x is None else x for x in model] if be == "cpp" else model, what, deep=be == "cpp")
    look("new array")
    if n:
        for k in range(writes):
            i = ctx.choice("i%d" % k, n)
            v = None if ctx.flag("none%d" % k) else ctx.int("v%d" % k)
            a[i] = v
            model[i] = v
            look("array")
        v = ctx.int("fill")
        a.fill(v)
        model[:] = [v] * n
        look("filled array")
    ctx.reach("done")


def dynamic(ctx, be, ops):
    a = DODA(ctx.dtype, 0, backend=BE[be], load_factor=0)
    model = []
    def look(what):
        shows(ctx, a, ["" if x is None else x for x in model], what, deep=True)
    look("new dynamic array")
    for k in range(ops):
        if not model or ctx.flag("op%d" % k):
            v = ctx.int("v%d" % k)
            a.append(v)
            model.append(v)
        else:
            i = ctx.choice("i%d" % k, len(model))
            if model[i] is not None:
                a.delete(i)
                model[i] = None
                if i == len(model) - 1:
                    model.pop()
        look("dynamic array")
    while any(x is not None for x in model):
        a.delete(max(i for i, x in enumerate(model) if x is not None))
        if model[-1] is not None:
            model.pop()
        else:
            model[max(i for i, x in enumerate(model) if x is not None)] = None
        look("emptied dynamic array")
    ctx.reach("done")


def multi(ctx, shape, writes):
    a = MDA(ctx.dtype, *shape)
    idx = [()]
    for s in shape:
        idx = [i + (j,) for i in idx for j in range(s)]
    model = {i: None for i in idx}
    shows(ctx, a, [model[i] for i in idx], "new array")
    for k in range(writes):
        i = idx[ctx.choice("i%d" % k, len(idx))]
        v = ctx.int("v%d" % k)
        a[i if len(shape) > 1 else i[0]] = v
        model[i] = v
        shows(ctx, a, [model[i] for i in idx], "array")
    ctx.reach("done")


LISTS = {"singly": SinglyLinkedList, "doubly": DoublyLinkedList, "singly-circular": SinglyCircularLinkedList, "doubly-circular": DoublyCircularLinkedList}


def lists(ctx, kind, ops):
    l = LISTS[kind]()
    model = []
    shows(ctx, l, [], "new list", deep=True)
    for k in range(ops):
        if not model or ctx.flag("op%d" % k):
            i = ctx.choice("i%d" % k, len(model) + 1)
            x = (ctx.int("k%d" % k), ctx.int("d%d" % k))
            l.insert_at(i, *x)
            model.insert(i, x)
        else:
            i = ctx.choice("i%d" % k, len(model))
            l.extract(i)
            model.pop(i)
        shows(ctx, l, model, "list", deep=True)
    while model:
        l.popleft()
        model.pop(0)
        shows(ctx, l, model, "list", deep=True)
    ctx.reach("done")


def skip(ctx, n, dels):
    from symex.stubs import coin_random
    import random
    s = SkipList()
    model = []

    def look(what):
        with printing() as p:
            try:
                rows = [re.findall(r"\([^()]*\)|None", r) for r in str(s).split("\n") if r.strip()]
            except Exception as e:
                ctx.fail("%s: printing raised %s" % (what, type(e).__name__))
                return
            rows = [[p.value(ast.literal_eval(x)) for x in r] for r in rows]
        if not model:
            ctx.check(not rows, what + ": an empty list shows nodes")
            return
        ok = len(rows) == s.levels and all(len(r) == len(model) for r in rows)
        ctx.check(ok, what + ": not one row for every level and one column for every node")
        if not ok:
            return
        keys, at = [], s.head
        while at.down is not None:
            at = at.down
        at = at.next
        while at.next is not None:
            keys.append((at.key, at.data))
            at = at.next
        ctx.check(same(rows[-1], keys), what + ": the last row is not the content in key order")
        ctx.check(And(*[eq(x[0], keys[j][0]) for r in rows for j, x in enumerate(r) if x is not None]), what + ": a column shows different keys")
        for up, low in zip(rows, rows[1:]):
            ctx.check(all(y is not None for x, y in zip(up, low) if x is not None), what + ": a tower has a gap")
    with patched(random, getrandbits=lambda b: ctx.choice("coin%d" % coins.pop(0), 2) if coins else 1):
        coins = list(range(n + 1))
        look("new skip list")
        for k in range(n):
            x = (ctx.int("k%d" % k), ctx.int("d%d" % k))
            s.insert(*x)
            model.append(x)
            look("skip list")
        for k in range(dels):
            i = ctx.choice("del%d" % k, len(model))
            s.extract(model[i][0])
            model.pop()
            look("skip list after a removal")
    ctx.reach("done")


def queues(ctx, impl, double, ops):
    q = Queue(implementation=impl, items=[], dtype=ctx.dtype, double_ended=double) if impl == "array" else Queue(implementation=impl, double_ended=double)
    model = []
    look = lambda what: shows(ctx, q, model if impl == "array" else [(x, None) for x in model], what, deep=impl != "array")
    look("new queue")
    names = "alAp" if double else "al"
    for k in range(ops):
        op = names[ctx.choice("op%d" % k, len(names))]
        v = ctx.int("v%d" % k) if op in "aA" else None
        if op == "a":
            q.append(v)
            model.append(v)
        elif op == "A":
            q.appendleft(v)
            model.insert(0, v)
        elif model:
            (q.popleft if op == "l" else q.pop)()
            model.pop(0 if op == "l" else -1)
        look("queue")
    while model:
        q.popleft()
        model.pop(0)
        look("queue")
    ctx.reach("done")


def stacks(ctx, impl, be, ops):
    s = Stack(implementation=impl, dtype=ctx.dtype, backend=BE[be])
    model = []

    def look(what):
        if impl != "array":
            shows(ctx, s, [(x, None) for x in model], what, deep=True)
        elif be == "py":
            shows(ctx, s, model, what, cut=True)
        else:
            shows(ctx, s, model, what, deep=True)
    look("new stack")
    for k in range(ops):
        if ctx.flag("op%d" % k):
            v = ctx.int("v%d" % k)
            s.push(v)
            model.append(v)
        elif model:
            s.pop()
            model.pop()
        look("stack")
    while model:
        s.pop()
        model.pop()
        look("stack")
    ctx.reach("done")


def tree_shows(ctx, T_, what):
    t, m = T_.t, T_.m
    w = look(ctx, t, m, what)
    if not w.ok:
        return
    last = t.tree._last_pos_filled
    want = []
    for i in range(last + 1):
        x = t.tree[i]
        if x is None:
            want.append("")
        elif w.empty and T_.kind in ("cart", "treap"):
            want.append(None)
        elif T_.kind in ("cart", "treap"):
            want.append((x.left, x.key, x.priority, x.data, x.right))
        else:
            want.append((x.left, x.key, x.data, x.right))
    with printing() as p:
        try:
            text = str(t)
            got = p.parse(text)
        except Exception as e:
            ctx.fail("%s: printing raised %s or cannot be read back" % (what, type(e).__name__))
            return
    ok = isinstance(got, list) and len(got) == len(want)
    ctx.check(ok, what + ": not one entry for every position")
    if ok:
        ctx.check(And(*[same(a, b) if b is not None else a != "" for a, b in zip(got, want)]), what + ": the text does not show the nodes")


def trees(ctx, kind, be, shape, ops):
    T_ = c23.Tree(ctx, kind, be, None)
    tree_shows(ctx, T_, "new tree")
    for k in c23.SHAPES[shape] if shape else ():
        T_.insert(k)
    if shape:
        tree_shows(ctx, T_, "tree")
    for j, op in enumerate(ops):
        T_.op("id"[ctx.choice("op%d" % j, 2)] if op == "*" else op, ctx.int("o%d" % j))
        tree_shows(ctx, T_, "tree after an operation")
    live = list(T_.m.live.values())
    for k in live:
        T_.delete(k)
        tree_shows(ctx, T_, "tree that is emptied")
    ctx.reach("done")


def heaps(ctx, d, n, ops):
    mk = {2: BinaryHeap, 3: TernaryHeap}.get(d)
    els = [TreeNode(ctx.int("x%d" % i), 100 + i) for i in range(n)]
    h = mk(list(els)) if mk else DHeap(list(els), d=d)
    look_n = [n]

    def look(what):
        size = look_n[0]
        want = [(h.heap[i].key, h.heap[i].data, [j for j in range(d * i + 1, d * i + d + 1) if j < size]) for i in range(size)]
        shows(ctx, h, want, what)
    look("heap")
    for k in range(ops):
        if look_n[0] == 0 or ctx.flag("op%d" % k):
            h.insert(ctx.int("k%d" % k), 200 + k)
            look_n[0] += 1
        else:
            h.extract()
            look_n[0] -= 1
        look("heap")
    while look_n[0]:
        h.extract()
        look_n[0] -= 1
        look("heap")
    ctx.reach("done")


def segments(ctx, n):
    add = lambda t: t[0] if len(t) == 1 else (t[1] if t[0] is None else t[0] if t[1] is None else t[0] + t[1])
    xs = [ctx.int("x%d" % i) for i in range(n)]
    t = ArraySegmentTree(ODA(ctx.dtype, n, list(xs)), add)
    shows(ctx, t, [""], "segment tree that is not built")
    t.build()

    def want(a, b):
        tot = xs[a]
        for x in xs[a + 1:b + 1]:
            tot = tot + x
        if a == b:
            return [((a, b), tot), "", ""]
        m = (a + b) // 2
        return [((a, b), tot)] + want(a, m) + want(m + 1, b)
    shows(ctx, t, want(0, n - 1), "segment tree", deep=True)
    i = ctx.choice("i", n)
    xs[i] = ctx.int("new")
    t.update(i, xs[i])
    shows(ctx, t, want(0, n - 1), "updated segment tree", deep=True)
    with patched(st_mod, OneDimensionalArray=lambda tp, k: ODA(ctx.dtype, k)):
        s = SparseTable(ODA(ctx.dtype, n, list(xs)), add)
    rows, levels = [], n.bit_length()
    for a in range(n):
        row = []
        for j in range(levels):
            if a + (1 << j) <= n:
                tot = xs[a]
                for x in xs[a + 1:a + (1 << j)]:
                    tot = tot + x
                row.append(tot)
            else:
                row.append(None)
        rows.append(row)
    shows(ctx, s, rows, "sparse table", deep=True)
    ctx.reach("done")


def intervals(ctx, n):
    segs = []
    for i in range(n):
        a, b = ctx.int("a%d" % i), ctx.int("b%d" % i)
        ctx.assume(a <= b)
        segs.append((a, b))
    t = OneDimensionalSegmentTree(segs)
    with printing() as p:
        try:
            got = p.parse(str(t))
        except Exception as e:
            ctx.fail("interval tree: printing raised %s or cannot be read back" % type(e).__name__)
            return
    ok = isinstance(got, list) and len(got) == len(t.tree) and all(isinstance(g, tuple) and len(g) == 4 for g in got)
    ctx.check(ok, "interval tree: not one entry for every node")
    if ok:
        for g, x in zip(got, t.tree):
            ctx.check(same(g[:2] + g[3:], (x.left, x.key, x.right)), "interval tree: the text does not show the nodes")
            ctx.check((g[2] is None) == (x.data is None) and (x.data is None or len(g[2]) == len(x.data)), "interval tree: the text does not show the intervals of a node")
    ctx.reach("done")


def mary(ctx, n):
    k, d = ctx.int("k"), ctx.int("d")
    t = MAryTree(k, d)
    shows(ctx, t, [(k, d)], "M-ary tree")
    for i in range(n):
        t.tree[0].add_children(i + 1)
        shows(ctx, t, [(k, d) + tuple(range(1, i + 2))], "M-ary tree with children")
    ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    out = []
    J = lambda name, fn, **c: out.append(Job(name, fn, c, reach=["done"]))
    for be in ("py", "cpp"):
        for n in range(0, 4):
            J("array/%s/%d" % (be, n), arrays, be=be, n=n, writes=3 if q else 4)
        J("dynamic/%s" % be, dynamic, be=be, ops=5 if q else 7)
    for shape in ((2,), (2, 2), (1, 3), (2, 1, 2), (2, 2, 2)):
        J("mda/%s" % "x".join(map(str, shape)), multi, shape=shape, writes=2 if q else 3)
    for kind in LISTS:
        J("list/%s" % kind, lists, kind=kind, ops=3 if q else 5)
    J("skip", skip, n=3, dels=1 if q else 2)
    for impl in ("array", "linked_list"):
        for double in (False, True):
            J("queue/%s/%s" % (impl, double), queues, impl=impl, double=double, ops=5 if q else 6)
    for impl, be in (("array", "py"), ("array", "cpp"), ("linked_list", "py")):
        J("stack/%s/%s" % (impl, be), stacks, impl=impl, be=be, ops=5 if q else 8)
    for kind in c23.CLS:
        for be in ("py", "cpp"):
            J("tree/%s/%s/free" % (kind, be), trees, kind=kind, be=be, shape="", ops="***" if q or kind != "bst" else "****")
            for shape in c23.SHAPES:
                J("tree/%s/%s/%s" % (kind, be, shape), trees, kind=kind, be=be, shape=shape, ops="*" if q else "**")
    for d in (2, 3, 4):
        for n in (0, 1, 5):
            J("heap/%d/%d" % (d, n), heaps, d=d, n=n, ops=(3 if n < 5 else 1) if q else (4 if n < 5 else 2))
    for n in range(1, 7 if q else 12):
        J("segments/%d" % n, segments, n=n)
    for n in range(0, 3):
        J("intervals/%d" % n, intervals, n=n)
    J("mary", mary, n=3)
    return out
