from symex.api import *
from pydatastructs import Queue

BOUNDS = {
    "quick": "single-ended: every history of 8 operations after several fills and drains (up to 16 elements in, 13 out, reaching every growth and shrinking of the storage); double-ended: every history of 4 operations after such histories, 5 from scratch; 2 after 10 seeded histories of 40; then emptying from the front or the rear; 4 operations, emptying and values of another type; array and linked-list queues; values are unbounded integers",
    "thorough": "10 and 6 operations"}
ASSUMPTIONS = ["values of one type as long as the queue is not empty, none of them None; the values of another type given to an emptied queue are a fixed list of floats, strings, tuples, booleans and large integers"]
HALVES = ["*/items[12]", "*/single/3-1"]


def val(impl, r):
    return r.key if impl == "linked_list" else r


def look(ctx, q, model, impl, what):
    n = len(model)
    ctx.check(len(q) == n, what + ": length")
    ctx.check(bool(q.is_empty) == (n == 0), what + ": emptiness")
    if n:
        if impl == "array":
            f, r = q.front, q.rear
            ok = 0 <= f <= r < len(q.items) and r - f == n - 1
            ctx.check(ok, what + ": front and rear do not span the elements")
            if ok:
                got = [q.items[i] for i in range(f, r + 1)]
                ctx.check(all(x is not None for x in got) and seq_eq(got, model), what + ": elements or their order changed")
        else:
            ctx.check(eq(q.front.key, model[0]), what + ": front is not the first element")
            ctx.check(eq(q.rear.key, model[-1]), what + ": rear is not the last element")


def step(ctx, q, model, impl, double, op, name):
    if op in "aA":
        v = ctx.int(name)
        if op == "a":
            q.append(v)
            model.append(v)
        elif double:
            q.appendleft(v)
            model.insert(0, v)
        else:
            try:
                q.appendleft(v)
                ctx.fail("appendleft on a single-ended queue")
            except NotImplementedError:
                pass
        return look(ctx, q, model, impl, "append" if op == "a" else "appendleft")
    f = q.popleft if op == "l" else q.pop
    if op == "p" and not double:
        try:
            f()
            ctx.fail("pop on a single-ended queue")
        except NotImplementedError:
            pass
    elif not model:
        try:
            f()
            ctx.fail("removal from an empty queue did not raise")
        except IndexError:
            ctx.reach("empty")
    else:
        ctx.check(eq(val(impl, f()), model.pop(0 if op == "l" else -1)), "%s: wrong element" % ("popleft" if op == "l" else "pop"))
    look(ctx, q, model, impl, "popleft" if op == "l" else "pop")


def history(ctx, impl, double, pre, ops, items=0, alphabet=None):
    model = [ctx.int("x%d" % i) for i in range(items)]
    q = Queue(implementation=impl, items=list(model), dtype=ctx.dtype, double_ended=double)
    look(ctx, q, model, impl, "new queue")
    alphabet = alphabet or ("alAp" if double else "al")
    for i, op in enumerate(pre):
        step(ctx, q, model, impl, double, op, "p%d" % i)
    for k in range(ops):
        step(ctx, q, model, impl, double, alphabet[ctx.choice("op%d" % k, len(alphabet))], "v%d" % k)
    end = "p" if double and ctx.flag("drain") else "l"
    while model:
        step(ctx, q, model, impl, double, end, "")
    step(ctx, q, model, impl, double, end, "")
    step(ctx, q, model, impl, double, "a", "last")
    ctx.reach("done")


OTHER = [2.5, "ab", "", (1, 2), True, 10 ** 30]


def same(a, b):
    return type(a) is type(b) and a == b


def retype(ctx, impl, double, pre, ops):
    """an emptied queue takes values of any one type, and gives them back as they are"""
    q = Queue(implementation=impl, dtype=ctx.dtype, items=[ctx.int("x%d" % i) for i in range(pre)], double_ended=double)
    n = pre
    end = lambda name: q.pop() if double and ctx.flag(name) else q.popleft()
    put = lambda v, name: q.appendleft(v) if double and ctx.flag(name) else q.append(v)
    for k in range(ops):
        if n == 0 or ctx.flag("op%d" % k):
            put(ctx.int("v%d" % k), "side%d" % k)
            n += 1
        else:
            end("side%d" % k)
            n -= 1
    for k in range(n):
        q.popleft()
    v = OTHER[ctx.choice("type", len(OTHER))]
    put(v, "first")
    ctx.check(len(q) == 1 and not q.is_empty, "value after emptying: length")
    put(v, "second")
    a, b = end("third"), end("fourth")
    ctx.check(same(val(impl, a), v) and same(val(impl, b), v), "a value of another type was changed")
    ctx.check(len(q) == 0 and bool(q.is_empty), "not empty after everything was removed")
    ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    out = []
    for impl in ("array", "linked_list"):
        J = lambda name, **c: out.append(Job("%s/%s" % (impl, name), history, dict(c, impl=impl), reach=["done", "empty"]))
        n = 8 if q else 10
        for fill, drain in ((0, 0), (3, 1), (7, 4), (7, 5), (15, 10), (16, 13)):
            J("single/%d-%d" % (fill, drain), double=False, pre="a" * fill + "l" * drain, ops=n if fill < 10 else n - 2)
        for items in (1, 2, 3):
            J("single/items%d" % items, double=False, pre="", items=items, ops=5)
        for double in (False, True):
            for pre in (1, 3):
                out.append(Job("%s/retype/%s/%d" % (impl, double, pre), retype, dict(impl=impl, double=double, pre=pre, ops=4), reach=["done"]))
        J("single/refused", double=False, pre="a", ops=3, alphabet="alAp")
        n = 4 if q else 6
        for double in (False, True):
            out.append(grown("%s/grown/%s" % (impl, double), history, dict(impl=impl, double=double, pre="", ops=42), 10 if q else 60, 40))
        J("double/0", double=True, pre="", ops=n + 1)
        for pre in ("aaa", "aaaal", "aaaaaaalllll", "aaaaaaappppp", "aAaAaAa", "aaaaaaallpll", "aaaaaaaaaaaaaaalllllppppp"):
            J("double/" + pre, double=True, pre=pre, ops=n)
        for items in (1, 2, 3):
            J("double/items%d" % items, double=True, pre="", items=items, ops=n)
    return out
