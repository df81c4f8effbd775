from symex.api import *
from pydatastructs import Stack, Backend

BOUNDS = {
    "quick": "every history of 7 pushes and pops after 0, 1, 3, 7 or 15 pushes or from a given list, then popping everything; 3 operations after 10 seeded histories of 40; 4 operations, emptying and values of another type; array (Python and C++) and linked-list stacks; values are unbounded integers",
    "thorough": "histories of 10 operations, up to 31 pushes before"}
ASSUMPTIONS = ["values of one type as long as the stack is not empty, none of them None; the values of another type given to an emptied stack are a fixed list of floats, strings, tuples, booleans and large integers"]
HALVES = ["*/3", "*/retype*", "*/items4"]


def val(impl, r):
    return r.key if impl == "linked_list" else r


def look(ctx, s, model, impl, what):
    n = len(model)
    ctx.check(len(s) == n, what + ": length")
    ctx.check(bool(s.is_empty) == (n == 0), what + ": emptiness")
    if n:
        ctx.check(eq(val(impl, s.peek), model[-1]), what + ": peek is not the last pushed value")


def pop(ctx, s, model, impl):
    if not model:
        try:
            s.pop()
            ctx.fail("pop of an empty stack did not raise")
        except IndexError:
            ctx.reach("empty")
        return
    r = s.pop()
    ctx.check(eq(val(impl, r), model.pop()), "pop: not the last pushed value")


def history(ctx, impl, be, pre, ops, items=False):
    kw = dict(backend=Backend.CPP if be == "cpp" else Backend.PYTHON)
    model = []
    if items:
        model = [ctx.int("x%d" % i) for i in range(pre)]
        kw["items"] = list(model)
    s = Stack(implementation=impl, dtype=ctx.dtype, **kw)
    look(ctx, s, model, impl, "new stack")
    if not items:
        for i in range(pre):
            model.append(ctx.int("x%d" % i))
            s.push(model[-1])
            look(ctx, s, model, impl, "push")
    for k in range(ops):
        if ctx.flag("op%d" % k):
            v = ctx.int("v%d" % k)
            s.push(v)
            model.append(v)
            look(ctx, s, model, impl, "push")
        else:
            pop(ctx, s, model, impl)
            look(ctx, s, model, impl, "pop")
    while model:
        pop(ctx, s, model, impl)
        look(ctx, s, model, impl, "pop")
    pop(ctx, s, model, impl)
    v = ctx.int("last")
    s.push(v)
    look(ctx, s, [v], impl, "push after emptying")
    ctx.reach("done")


OTHER = [2.5, "ab", "", (1, 2), True, 10 ** 30]


def same(a, b):
    return type(a) is type(b) and a == b


def retype(ctx, impl, be, pre, ops):
    """an emptied stack takes values of any one type, and gives them back as they are"""
    s = Stack(implementation=impl, dtype=ctx.dtype, items=[ctx.int("x%d" % i) for i in range(pre)], backend=Backend.CPP if be == "cpp" else Backend.PYTHON)
    n = pre
    for k in range(ops):
        if n == 0 or ctx.flag("op%d" % k):
            s.push(ctx.int("v%d" % k))
            n += 1
        else:
            s.pop()
            n -= 1
    while n:
        s.pop()
        n -= 1
    v = OTHER[ctx.choice("type", len(OTHER))]
    s.push(v)
    ctx.check(len(s) == 1 and not s.is_empty, "push after emptying: length")
    ctx.check(same(val(impl, s.peek), v), "peek: a value of another type was changed")
    s.push(v)
    ctx.check(same(val(impl, s.pop()), v) and same(val(impl, s.pop()), v), "pop: a value of another type was changed")
    ctx.check(len(s) == 0 and bool(s.is_empty), "not empty after everything was removed")
    ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    out = []
    for impl, be in (("array", "py"), ("array", "cpp"), ("linked_list", "py")):
        for pre in (0, 1, 3, 7, 15) + (() if q else (8, 16, 31)):
            out.append(Job("%s/%s/%d" % (impl, be, pre), history, dict(impl=impl, be=be, pre=pre, ops=7 if q else 10), reach=["done", "empty"]))
        out.append(grown("%s/%s/grown" % (impl, be), history, dict(impl=impl, be=be, pre=0, ops=43), 10 if q else 60, 40))
        for pre in (1, 3):
            out.append(Job("%s/%s/retype%d" % (impl, be, pre), retype, dict(impl=impl, be=be, pre=pre, ops=4), reach=["done"]))
        for pre in (1, 2, 4):
            out.append(Job("%s/%s/items%d" % (impl, be, pre), history, dict(impl=impl, be=be, pre=pre, ops=5, items=True), reach=["done", "empty"]))
    return out
