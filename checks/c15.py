from symex.api import *
from pydatastructs import PriorityQueue

BOUNDS = {
    "quick": "5 pushes in any of the push/pop interleavings of 7 operations with unbounded integer priorities (equal ones included), then popping everything; one free operation after 20 seeded histories of 24 operations; linked-list, binary-heap and binomial-heap queues; default, descending and non-strict comparators",
    "thorough": "9 operations"}
ASSUMPTIONS = ["priorities are totally ordered by the comparator (the binomial heap orders by ascending numbers only)"]
HALVES = ["*"]
COMPS = {None: (None, lt), "gt": (lambda u, v: u > v, gt), "le": (lambda u, v: u <= v, lt)}


def pop(ctx, pq, live, better):
    if not live:
        for f in (pq.pop, lambda: pq.peek):
            try:
                f()
                ctx.fail("pop or peek of an empty priority queue did not raise")
            except IndexError:
                ctx.reach("empty")
        return
    top = pq.peek
    ctx.check(top.data in live, "peek: element is not in the queue")
    if top.data in live:
        ctx.check(And([Not(better(p, live[top.data])) for p in live.values()]), "peek: a more urgent element is there")
    r = pq.pop()
    ctx.check(r in live, "pop: element is not in the queue")
    if r in live:
        p = live.pop(r)
        ctx.check(And([Not(better(x, p)) for x in live.values()]), "pop: a more urgent element remains")


def history(ctx, impl, comp, ops):
    kw = {} if comp is None else dict(comp=COMPS[comp][0])
    pq = PriorityQueue(implementation=impl, **kw)
    better = COMPS[comp][1]
    live = {}
    for k, op in enumerate(ops):
        if op == "*":
            op = "+-"[ctx.choice("op%d" % k, 2)]
        if op == "+":
            live[k] = ctx.int("p%d" % k)
            pq.push(k, live[k])
        else:
            pop(ctx, pq, live, better)
        ctx.check(bool(pq.is_empty) == (not live), "emptiness")
    while live:
        pop(ctx, pq, live, better)
    ctx.check(bool(pq.is_empty), "emptiness")
    pop(ctx, pq, live, better)
    ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    out = []
    for impl in ("linked_list", "binary_heap", "binomial_heap"):
        for comp in COMPS:
            if impl == "binomial_heap" and comp:
                continue
            for ops in ("******", "+++++", "+++-*+", "++-+-++") + (() if q else ("*******", "++++++", "+++*+*+")):
                out.append(Job("%s/%s/%s" % (impl, comp, ops), history, dict(impl=impl, comp=comp, ops=ops), reach=["done", "empty"]))
            out.append(grown("%s/%s/grown" % (impl, comp), history, dict(impl=impl, comp=comp, ops="+" * 12 + "*" * 13), 20 if q else 100, 24))
    return out
