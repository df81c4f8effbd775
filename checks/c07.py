from symex.api import *
import pydatastructs.linear_data_structures.algorithms as A
from pydatastructs import OneDimensionalArray as ODA

BOUNDS = {
    "quick": "every shape r x m times m x c with r, m, c in 1..3 and unbounded integer entries, as lists and as arrays of arrays, every mismatch up to 3; 1 or 2 threads, any task order",
    "thorough": "shapes up to 4"}
ASSUMPTIONS = ["matrices are rectangular with at least one row and column", "thread pools run tasks one at a time in any order (task-level interleaving)"]
HALVES = ["*"]


def build(ctx, name, r, c, arrays):
    rows = [[ctx.int("%s%d%d" % (name, i, j)) for j in range(c)] for i in range(r)]
    if not arrays:
        return rows, [list(x) for x in rows]
    m = []
    for row in rows:
        a = ODA(ctx.dtype, c)
        for j, v in enumerate(row):
            a[j] = v
        m.append(a)
    return ODA(ODA, m), rows


def mul(ctx, r, m, c, arrays=False):
    A1, a = build(ctx, "a", r, m, arrays)
    B1, b = build(ctx, "b", m, c, arrays)
    with patched(A, ThreadPoolExecutor=pool_class(ctx)):
        C = A.matrix_multiply_parallel(A1, B1, num_threads=1 + ctx.choice("threads", 2))
    ctx.reach("product")
    ok = len(C) == r and all(len(row) == c for row in C)
    ctx.check(ok, "matrix product: wrong shape")
    if ok:
        for i in range(r):
            for j in range(c):
                ctx.check(eq(C[i][j], sum(a[i][k] * b[k][j] for k in range(m))), "matrix product: wrong entry")
    for M, w in ((A1, a), (B1, b)):
        for i in range(len(w)):
            ctx.check(seq_eq([M[i][j] for j in range(len(w[i]))], w[i]), "matrix product: a factor was changed")


def mismatch(ctx, n):
    r, m, k, c = (1 + ctx.choice(x, n) for x in "rmkc")
    ctx.assume(m != k)
    A1, _ = build(ctx, "a", r, m, False)
    B1, _ = build(ctx, "b", k, c, False)
    try:
        with patched(A, ThreadPoolExecutor=pool_class(ctx)):
            A.matrix_multiply_parallel(A1, B1, num_threads=1)
        ctx.fail("matrix product: incompatible shapes accepted")
    except ValueError:
        ctx.reach("rejected")
        ctx.check(True, "rejected")


def jobs(tier):
    n = 3 if tier == "quick" else 4
    out = [Job("mul/%d%d%d%s" % (r, m, c, "a" if arr else ""), mul, dict(r=r, m=m, c=c, arrays=arr), reach=["product"])
           for r in range(1, n + 1) for m in range(1, n + 1) for c in range(1, n + 1) for arr in (False, True)]
    out.append(Job("mismatch", mismatch, dict(n=n), reach=["rejected"]))
    return out
