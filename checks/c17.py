from symex.api import *
from pydatastructs.trees.heaps import BinomialHeap

BOUNDS = {
    "quick": "every history of up to 4 operations (insert, delete minimum, decrease any node's key, delete any node) on unbounded integer keys; merges of two heaps of up to 3 and 3 free keys; heaps of 5 to 11 ordered concrete keys followed by two operations on any node; one free operation after 12 seeded histories of 20 to 36 operations (up to 33 elements)",
    "thorough": "5 operations, merges of 4 and 3, up to 15 keys"}
ASSUMPTIONS = ["keys are integers (deletion subtracts one from the minimum)", "a merged heap is not used again"]
HALVES = ["*"]


def nodes_of(node, out):
    out.append(node)
    for c in node.children:
        if c is not None:
            nodes_of(c, out)
    return out


def shape(ctx, node, order, what, bad):
    kids = [c for c in node.children if c is not None]
    if len(kids) != order:
        bad.append("a tree of order %d whose root has %d children" % (order, len(kids)))
        return
    for k, c in enumerate(kids):
        ctx.check(le(node.key, c.key), what + ": heap order broken")
        if c.is_root or c.parent is not node:
            bad.append("child does not link to its parent")
        shape(ctx, c, k, what, bad)


def look(ctx, h, live, what):
    orders = [t.order for t in h.root_list]
    ctx.check(all(a < b for a, b in zip(orders, orders[1:])), what + ": tree orders are not distinct and ascending")
    bad, nodes = [], []
    for t in h.root_list:
        if not t.root.is_root:
            bad.append("root is not marked as root")
        shape(ctx, t.root, t.order, what, bad)
        nodes_of(t.root, nodes)
    ctx.check(not bad, what + ": " + (bad or [""])[0])
    tags = [x.data for x in nodes]
    ok = len(set(tags)) == len(tags) and set(tags) == set(live)
    ctx.check(ok, what + ": an element was lost or duplicated")
    if ok:
        ctx.check(And([eq(x.key, live[x.data]) for x in nodes]), what + ": key and data were separated")
    ctx.check(bool(h.is_empty) == (not live), what + ": emptiness")
    if live:
        m = h.find_minimum()
        ctx.check(And([le(m.key, v) for v in live.values()]), what + ": find_minimum is not the minimum")
        ctx.check(m.data in live, what + ": find_minimum is not an element")
    return nodes


def delmin(ctx, h, live):
    if not live:
        try:
            h.delete_minimum()
            ctx.fail("deletion from an empty heap did not raise")
        except IndexError:
            ctx.reach("empty")
        return
    m = h.find_minimum().data
    h.delete_minimum()
    if m in live:
        k = live.pop(m)
        ctx.check(And([le(k, v) for v in live.values()]), "delete_minimum: removed another element than the least")


def operate(ctx, h, live, nodes, op, s):
    if op == "i":
        live[100 + s] = ctx.int("n%d" % s)
        h.insert(live[100 + s], 100 + s)
    elif op == "m":
        delmin(ctx, h, live)
    else:
        if not nodes:
            return nodes
        node = nodes[ctx.choice("node%d" % s, len(nodes))]
        tag, old = node.data, node.key
        if op == "d":
            h.delete(node)
            del live[tag]
        else:
            new = ctx.int("new%d" % s)
            try:
                h.decrease_key(node, new)
                ctx.check(lt(new, old), "decrease_key accepted a key that is not less")
                live[tag] = new
            except ValueError:
                ctx.check(ge(new, old), "decrease_key refused a lesser key")
    return look(ctx, h, live, {"i": "insert", "m": "delete_minimum", "d": "delete", "k": "decrease_key"}[op])


def history(ctx, pre, ops, keys=None, drain=True):
    h, live = BinomialHeap(), {}
    nodes = []
    if keys:
        r = ctx.choice("rotation", len(keys))
        keys = keys[r:] + keys[:r]
    for i in range(len(keys) if keys else pre):
        live[i] = keys[i] if keys else ctx.int("k%d" % i)
        h.insert(live[i], i)
        if not keys:
            nodes = look(ctx, h, live, "insert")
    nodes = look(ctx, h, live, "insert")
    for s, op in enumerate(ops):
        if op == "*":
            op = "imdk"[ctx.choice("op%d" % s, 4)]
        nodes = operate(ctx, h, live, nodes, op, s)
    if drain:
        while live:
            delmin(ctx, h, live)
            look(ctx, h, live, "delete_minimum")
    ctx.reach("done")


def merge(ctx, n, m, ops="", known=False):
    live, hs = {}, []
    for j, k in enumerate((n, m)):
        h = BinomialHeap()
        for i in range(k):
            t = 10 * j + i
            live[t] = ctx.int("k%d" % t) if not known else (7 * t + 3 * j) % 23
            h.insert(live[t], t)
        hs.append(h)
    hs[0].merge(hs[1])
    nodes = look(ctx, hs[0], live, "merge")
    for s, op in enumerate(ops):
        nodes = operate(ctx, hs[0], live, nodes, op, s)
    ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    out = []
    J = lambda name, **c: out.append(Job(name, history, c, reach=["done"]))
    J("free/4", pre=0, ops="***" if q else "****")
    J("free/2", pre=2, ops="**", drain=not q)
    J("free/3m", pre=3, ops="m*", drain=False)
    J("free/3*", pre=3, ops="*", drain=False)
    J("free/4*", pre=4, ops="*" if not q else "m", drain=False)
    J("free/4d", pre=4, ops="d", drain=False)
    J("free/4k", pre=4, ops="k", drain=False)
    J("free/5", pre=5, ops="", drain=False)
    for n in (5, 7, 8, 11) + (() if q else (15,)):
        keys = [(5 * i) % n for i in range(n)]
        for ops in ("dm", "km", "mi", "im"):
            J("known/%d/%s" % (n, ops), pre=0, ops=ops, keys=keys, drain=ops != "km" and q)
    for n, k, seeds in ((10, 10, 8), (18, 6, 3), (33, 3, 1)):
        out.append(grown("grown/%d" % n, history, dict(pre=0, ops="i" * n + "*" * k + "*", drain=n < 15), seeds if q else 10 * seeds, n + k))
    for n in range(4):
        for m in range(4):
            out.append(Job("merge/%d+%d" % (n, m), merge, dict(n=n, m=m), reach=["done"]))
    for n in range(0, 10, 1 if not q else 1):
        for m in range(0, 10, 3):
            out.append(Job("merge/known/%d+%d" % (n, m), merge, dict(n=n, m=m, ops="dm" if n + m > 1 else "i", known=True), reach=["done"]))
    return out
