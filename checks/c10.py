from symex.api import *
import pydatastructs.linear_data_structures.linked_lists as L

BOUNDS = {
    "quick": "after 0..3 appended elements, every history of 2 operations (3 after none, 1 after 4) out of append, appendleft, popleft, popright, insert at / extract at any index from two before the first to two past the last, insert after / before any node, then lookup at every index and search of any key; one such operation after 12 seeded histories of 10 operations and 4 of 30; keys and data are unbounded integers",
    "thorough": "histories of 3 operations after 0..4 elements, 4 after 0 and 1"}
ASSUMPTIONS = ["nodes given to insert_after and insert_before belong to the list"]
HALVES = ["*/4+1", "*/1+2"]


def walk(lst, n, circular, doubly):
    nodes, cur = [], lst.head
    for _ in range(n):
        if cur is None:
            return None
        nodes.append(cur)
        cur = cur.next
    return nodes, cur


def look(ctx, lst, model, circular, doubly, what):
    n = len(model)
    ctx.check(len(lst) == n and lst.is_empty == (n == 0), what + ": length")
    if n == 0:
        ctx.check(lst.head is None and lst.tail is None, what + ": an empty list has a head or tail")
        return []
    w = walk(lst, n, circular, doubly)
    if w is None:
        ctx.fail(what + ": the chain is shorter than the list")
        return []
    nodes, end = w
    ctx.check(And([And(eq(x.key, k), eq(x.data, d)) for x, (k, d) in zip(nodes, model)]), what + ": wrong sequence")
    ctx.check(len({id(x) for x in nodes}) == n, what + ": a node occurs twice")
    ctx.check(lst.tail is nodes[-1], what + ": tail is not the last node")
    ctx.check(end is (nodes[0] if circular else None), what + ": the last node links to the wrong place")
    if doubly:
        ctx.check(nodes[0].prev is (nodes[-1] if circular else None), what + ": the first node links back to the wrong place")
        ctx.check(all(b.prev is a for a, b in zip(nodes, nodes[1:])), what + ": backward links disagree")
    for i in range(n):
        ctx.check(lst[i] is nodes[i] and lst[i - n] is nodes[i], what + ": indexing disagrees")
    return nodes


def outside(ctx, f, what, exc):
    try:
        f()
    except exc:
        ctx.reach("rejected")
        return
    ctx.fail(what + ": position that does not exist was accepted")


def history(ctx, cls, pre, ops):
    circular, doubly = "Circular" in cls, "Doubly" in cls
    lst, model = getattr(L, cls)(), []
    nodes = look(ctx, lst, model, circular, doubly, "new list")
    for i in range(pre):
        model.append((ctx.int("k%d" % i), ctx.int("d%d" % i)))
        lst.append(*model[-1])
        nodes = look(ctx, lst, model, circular, doubly, "append")
    names = ["append", "appendleft", "popleft", "popright", "insert_at", "extract", "insert_after", "getitem"] + (["insert_before"] if doubly else [])
    for s in range(ops):
        op = names[ctx.choice("op%d" % s, len(names))]
        n = len(model)
        new = (ctx.int("nk%d" % s), ctx.int("nd%d" % s))
        got = None
        if op == "append":
            lst.append(*new)
            model.append(new)
        elif op == "appendleft":
            lst.appendleft(*new)
            model.insert(0, new)
        elif op in ("popleft", "popright"):
            if n == 0:
                outside(ctx, getattr(lst, op), op, (ValueError, IndexError))
            else:
                got = getattr(lst, op)()
                want = model.pop(0 if op == "popleft" else -1)
        elif op in ("insert_at", "extract", "getitem"):
            i = ctx.choice("i%d" % s, 2 * n + 5) - n - 2
            if op == "insert_at":
                if (-n <= i <= n) or (n == 0 and i == -1):
                    lst.insert_at(i, *new)
                    model.insert(i, new)
                else:
                    outside(ctx, lambda: lst.insert_at(i, *new), op, IndexError)
            elif op == "extract":
                if -n <= i < n:
                    got = lst.extract(i)
                    want = model.pop(i)
                else:
                    outside(ctx, lambda: lst.extract(i), op, (ValueError, IndexError))
            else:
                if -n <= i < n:
                    continue
                outside(ctx, lambda: lst[i], op, IndexError)
        else:
            if n == 0:
                continue
            i = ctx.choice("i%d" % s, n)
            getattr(lst, op)(nodes[i], *new)
            model.insert(i + (op == "insert_after"), new)
        if got is not None:
            ctx.check(And(eq(got.key, want[0]), eq(got.data, want[1])), op + ": wrong element returned")
        nodes = look(ctx, lst, model, circular, doubly, op)
    ctx.reach("done")
    q = ctx.int("q")
    r = lst.search(q)
    if r is None:
        ctx.check(And([ne(k, q) for k, _ in model]), "search: did not find a key of the list")
    else:
        at = [i for i, x in enumerate(nodes) if x is r]
        ctx.check(len(at) == 1 and eq(r.key, q), "search: found a wrong node")


def make_jobs(tier, classes):
    q = tier == "quick"
    out = []
    for cls in classes:
        for pre in range(5):
            ops = 2 if q else 3
            if q:
                ops = (3, 2, 2, 2, 1)[pre]
            if not q and pre <= 1:
                ops = 4
            out.append(Job("%s/%d+%d" % (cls, pre, ops), history, dict(cls=cls, pre=pre, ops=ops), reach=["done", "rejected"]))
        for n, seeds in ((10, 12), (30, 4)):
            out.append(grown("%s/grown%d" % (cls, n), history, dict(cls=cls, pre=0, ops=n + 1), seeds if q else 8 * seeds, n))
    return out


def jobs(tier):
    return make_jobs(tier, ["SinglyLinkedList", "DoublyLinkedList"])
