import gc
import weakref
from itertools import product
from symex.api import *
from pydatastructs import OneDimensionalArray as ODA, MultiDimensionalArray as MDA, Backend

BOUNDS = {
    "quick": "one-dimensional: size 0..4, three accesses with any unbounded index (C++: -2..size+1), every way to create; multi-dimensional: eleven shapes up to 2x3x2, every cell, then one write and one read at any unbounded index tuple, and with a wrong number of indices; element conversion on sizes up to 3",
    "thorough": "size up to 6 with four accesses, shapes up to 3x3x3 and four dimensions"}
ASSUMPTIONS = ["indices are integers", "sizes are non-negative"]
HALVES = ["oda/*", "mda/[134]*", "mda/2x[12]", "mda/fill", "lifetime"]
BE = {"py": Backend.PYTHON, "cpp": Backend.CPP}


def cells(a):
    return [a[i] for i in range(len(a))]


def same(a, model, ctx, what):
    got = cells(a)
    ctx.check(len(got) == len(model), what + ": size changed")
    ctx.check(And([(g is None) if m is None else eq(g, m) for g, m in zip(got, model)]), what + ": a cell does not hold what was last written to it")


def oda(ctx, be, how, n, ops):
    kw = dict(backend=BE[be])
    xs = [ctx.int("x%d" % i) for i in range(n)]
    given = list(xs)
    ref = given
    if how == "size":
        a, model = ODA(ctx.dtype, n, **kw), [None] * n
    elif how == "init":
        y = ctx.int("y")
        a, model = ODA(ctx.dtype, n, init=y, **kw), [y] * n
    elif how == "list":
        a, model = ODA(ctx.dtype, given, **kw), list(xs)
    elif how == "tuple":
        a, model = ODA(ctx.dtype, tuple(given), **kw), list(xs)
    elif how == "size+list":
        a, model = ODA(ctx.dtype, n, given, **kw), list(xs)
    else:
        a, model = ODA(ctx.dtype, given, n, **kw), list(xs)
    same(a, model, ctx, "new array")
    for k in range(ops):
        op = ctx.choice("op%d" % k, 4 if how != "tuple" else 3)
        if op == 3:
            v = ctx.int("f%d" % k)
            a.fill(v)
            model = [v] * n
            same(a, model, ctx, "fill")
            continue
        i = ctx.index("i%d" % k) if be == "py" else ctx.choice("i%d" % k, n + 4) - 2
        v = ctx.int("v%d" % k) if op == 1 else None
        try:
            if op:
                a[i] = v
            else:
                r = a[i]
            ctx.check(And(le(0, i), lt(i, n)), "out of range index accepted")
            i = int(i)
            ctx.assume(0 <= i < n)
            ctx.reach("inside")
            if op:
                model[i] = v
            else:
                ctx.check((r is None) if model[i] is None else eq(r, model[i]), "read: not the value last written")
        except IndexError:
            ctx.reach("outside")
            ctx.check(Or(lt(i, 0), ge(i, n)), "in range index rejected")
        same(a, model, ctx, "after an access")
    ctx.check(len(given) == n and And([x is g if not is_num(x) else eq(x, g) for x, g in zip(xs, given)]), "the caller's list was changed")
    if given:
        given[0] = None
        same(a, model, ctx, "after changing the caller's list")


class Box:
    """An element type that records conversions."""
    def __init__(self, v):
        self.v = v.v if isinstance(v, Box) else v


def conversion(ctx, how, n):
    """Values of another type become values of the element type."""
    xs = [ctx.int("x%d" % i) for i in range(n)]
    given = [Box(x) if ctx.flag("boxed%d" % i) else x for i, x in enumerate(xs)]
    orig = list(given)
    if how == "list":
        a = ODA(Box, given)
    elif how == "tuple":
        a = ODA(Box, tuple(given))
    elif how == "size+list":
        a = ODA(Box, n, given)
    else:
        a = ODA(Box, given, n)
    ctx.reach("done")

    def ok(what):
        ctx.check(all(isinstance(c, Box) for c in cells(a)), what + ": cell is not of the element type")
        ctx.check(And([eq(c.v, x) for c, x in zip(cells(a), xs)]), what + ": wrong value")
    ok("new array")
    ctx.check(len(given) == n and all(p is q for p, q in zip(given, orig)), "the caller's list was changed")
    i = ctx.choice("i", n)
    v = ctx.int("v")
    a[i] = Box(v) if ctx.flag("boxed") else v
    xs[i] = v
    ok("write")
    v = ctx.int("w")
    a.fill(v)
    xs[:] = [v] * n
    ok("fill")


def shapes_mismatch(ctx, be, n):
    """Size and list that disagree are rejected."""
    k = ctx.choice("k", n + 2)
    ctx.assume(k != n)
    xs = [ctx.int("x%d" % i) for i in range(n)]
    for args in ((k, xs), (xs, k)):
        try:
            ODA(ctx.dtype, *args, backend=BE[be])
            ctx.fail("size and length of the list disagree, but accepted")
        except ValueError:
            ctx.check(True, "rejected")
    ctx.reach("rejected")


def lifetime(ctx, n):
    """The compiled array keeps its elements alive (initial value, elements)."""
    class E:
        pass
    e = E()
    w = weakref.ref(e)
    how = ctx.choice("how", 3)
    if how == 0:
        a = ODA(E, n, init=e, backend=Backend.CPP)
    elif how == 1:
        a = ODA(E, [e] * n, backend=Backend.CPP)
    else:
        a = ODA(E, n, backend=Backend.CPP)
        a.fill(e)
    extra = [e] * 8         # keeps the object valid if the array releases too often
    import sys
    before = sys.getrefcount(e)
    left = set(range(n))
    for k in range(n):
        op = ctx.choice("op%d" % k, n + 1)
        if op < n:
            a[op] = E()
            left.discard(op)
        ctx.check(sys.getrefcount(e) >= 2 + 8 + len(left), "the array released an element it still holds")
        ctx.check(all(a[i] is e for i in left), "cell changed")
    ctx.reach("done")


def mda(ctx, dims, fill=False, near=False):
    a = MDA(ctx.dtype, *dims)
    ctx.check(tuple(a.shape) == tuple(dims), "shape is not the one requested")
    d1 = len(dims) == 1
    idx = list(product(*[range(d) for d in dims]))
    key = (lambda t: t[0]) if d1 else (lambda t: t)
    ctx.check(all(a[key(t)] is None for t in idx), "new array is not empty")
    model = {}
    if fill:
        v = ctx.int("fill")
        a.fill(v)
        model = {t: v for t in idx}
    else:
        for t in idx:
            model[t] = ctx.int("x" + "_".join(map(str, t)))
            a[key(t)] = model[t]

    def same(what):
        ctx.check(And([eq(a[key(t)], model[t]) for t in idx]), what + ": a cell does not hold what was last written to it")
    same("after filling")
    ctx.check(tuple(a.shape) == tuple(dims), "shape changed")
    for k, op in enumerate("wr"):
        # near the shape, positions are tried one by one: a wrong one must not be confused with another cell
        i = tuple(ctx.index("%s%d" % (op, j), *((-2, d + 2) if near else ())) for j, d in enumerate(dims))
        v = ctx.int("v%d" % k)
        inside = And([And(le(0, x), lt(x, d)) for x, d in zip(i, dims)])
        try:
            if op == "w":
                a[key(i)] = v
            else:
                r = a[key(i)]
            ctx.check(inside, "out of range index accepted")
            ctx.reach("inside " + op)
            ctx.assume(inside)
            i = tuple(int(x) for x in i)
            if op == "w":
                model[i] = v
            else:
                ctx.check(eq(r, model[i]), "read: not the value last written")
        except IndexError:
            ctx.reach("outside " + op)
            ctx.check(Not(inside), "in range index rejected")
        same("after an access")
    for bad in [(0,) * (len(dims) + 1)] + [(0,) * (len(dims) - 1)] * (len(dims) > 2) + [0] * (not d1):
        try:
            a[bad]
            ctx.fail("reading with a wrong number of indices accepted")
        except IndexError:
            pass
        try:
            a[bad] = 5
            ctx.fail("writing with a wrong number of indices accepted")
        except IndexError:
            pass
    same("after rejected accesses")


def jobs(tier):
    q = tier == "quick"
    out = []
    for be in ("py", "cpp"):
        for how in ("size", "init", "list", "tuple", "size+list", "list+size"):
            for n in ((1, 3) if q else (1, 2, 4)):
                out.append(Job("oda/%s/%s/%d" % (be, how, n), oda, dict(be=be, how=how, n=n, ops=2 if how != "size" else 3),
                               reach=["inside", "outside"]))
        out.append(Job("oda/%s/size/0" % be, oda, dict(be=be, how="size", n=0, ops=2), reach=["outside"]))
        out.append(Job("oda/%s/list/0" % be, oda, dict(be=be, how="list", n=0, ops=1), reach=["outside"]))
        out.append(Job("oda/%s/mismatch" % be, shapes_mismatch, dict(be=be, n=2), reach=["rejected"]))
        if not q:
            out.append(Job("oda/%s/size/6" % be, oda, dict(be=be, how="size", n=6, ops=3), reach=["inside", "outside"]))
    for how in ("list", "tuple", "size+list", "list+size"):
        out.append(Job("convert/" + how, conversion, dict(how=how, n=3), reach=["done"]))
    out.append(Job("lifetime", lifetime, dict(n=3), reach=["done"]))
    dims = [(3,), (1,), (2, 3), (3, 2), (1, 4), (4, 1), (2, 2), (2, 2, 2), (2, 3, 2), (1, 2, 3), (2, 1, 2, 1)]
    if not q:
        dims += [(3, 3, 3), (5, 2), (2, 5), (3, 2, 4), (2, 2, 2, 2), (1, 3, 1, 2)]
    for d in dims:
        for near in (False, True):
            out.append(Job("mda/" + "x".join(map(str, d)) + "/near" * near, mda, dict(dims=list(d), near=near), reach=["inside w", "outside w", "inside r", "outside r"]))
    out.append(Job("mda/fill", mda, dict(dims=[2, 3], fill=True), reach=["inside w"]))
    return out
