import random as _random
from symex.api import *
import pydatastructs.strings.algorithms as A
from pydatastructs import OneDimensionalArray as ODA

ALGS = ["kmp", "knuth_morris_pratt", "rabin_karp", "boyer_moore", "z_function"]
BOUNDS = {
    "quick": "every algorithm name: texts of up to 5 and queries of up to 3 free characters of the whole Unicode range (Rabin-Karp: texts of up to 4), texts of 9 letters and queries of up to 3 over an alphabet of 2 and 3, texts of 14 to 20 letters built from periodic, Fibonacci, Thue-Morse and seeded words with 2 free letters and a query cut out of the same word with one free letter (Rabin-Karp: 12 letters, one free letter of three); empty texts and queries",
    "thorough": "texts of up to 6, queries of up to 4 free characters, binary texts of 11 and queries of up to 5, words of up to 40 letters, more seeds"}
ASSUMPTIONS = ["Rabin-Karp's array of hashes accepts the solver's integers: its element type int is replaced by the harness's"]


def mk(ctx, cs):
    return Str(cs) if ctx.symbolic else "".join(chr(int(c)) for c in cs)


def search(ctx, alg, tc, qc, label=""):
    text, query = mk(ctx, tc), mk(ctx, qc)
    sub = {"ord": sym_ord}
    if alg == "rabin_karp" and ctx.symbolic:
        sub["OneDimensionalArray"] = lambda t, *a: ODA(ctx.dtype if t is int else t, *a)
    with patched(A, **sub):
        res = A.find(text, query, algorithm=alg)
    got = [res[i] for i in range(res._last_pos_filled + 1)]
    n, m = len(tc), len(qc)
    ctx.check(all(type(i) is int or is_num(i) for i in got) and all(a < b for a, b in zip(got, got[1:])), "%s: positions are not increasing" % alg)
    got = [int(i) for i in got]
    ctx.check(all(0 <= i <= n - m for i in got), "%s: position outside the text" % alg)
    if m == 0:
        ctx.check(got == [], "%s: positions for an empty query" % alg)
    else:
        ctx.check(And(*[And(*[eq(tc[i + j], qc[j]) for j in range(m)]) for i in got if i + m <= n]), "%s: reported a position without an occurrence" % alg)
        ctx.check(And(*[Not(And(*[eq(tc[i + j], qc[j]) for j in range(m)])) for i in range(n - m + 1) if i not in got]), "%s: missed an occurrence" % alg)
    ctx.reach("done")


def free(ctx, alg, n, m, lo, hi):
    t = [ctx.int("t%d" % i, lo, hi) for i in range(n)]
    q = [ctx.int("q%d" % i, lo, hi) for i in range(m)]
    search(ctx, alg, t, q)


def word(kind, n, seed=0):
    rng = _random.Random(1299709 * seed + n)
    if kind == "fib":
        a, b = "a", "ab"
        while len(b) < n:
            a, b = b, b + a
        return b[:n]
    if kind == "thue":
        return "".join("ab"[bin(i).count("1") & 1] for i in range(n))
    if kind == "ones":
        return "a" * n
    if kind == "rand2":
        return "".join(rng.choice("ab") for _ in range(n))
    if kind == "rand4":
        return "".join(rng.choice("ab$c") for _ in range(n))
    return (kind * n)[:n]


WORDS = ["ones", "ab", "aab", "abac", "abaab", "a$", "fib", "thue", "rand2", "rand4"]


def shaped(ctx, alg, kind, n, m, seeds, free_t, lo, hi):
    w = word(kind, n, ctx.choice("seed", seeds) if seeds > 1 else 0)
    cut = ctx.choice("cut", min(n - m + 1, 5))
    t = [ctx.const(ord(c)) for c in w]
    q = list(t[cut:cut + m])
    for i in range(free_t):
        p = (cut + i * (m + 1) + m // 2) % n
        t[p] = ctx.int("t%d" % i, lo, hi)
    k = ctx.choice("qfree", m)
    q[k] = ctx.int("q", lo, hi)
    search(ctx, alg, t, q)


def jobs(tier):
    q = tier == "quick"
    out = []
    for alg in ALGS:
        rk = alg == "rabin_karp"
        for n in range(0, (5 if rk else 6) if q else (6 if rk else 7)):
            for m in range(0, 4 if q else 5):
                if rk and n == 4 and m == 2 and q:
                    continue
                if m > n + 1:
                    continue
                out.append(Job("%s/unicode/%d.%d" % (alg, n, m), free, dict(alg=alg, n=n, m=m, lo=0, hi=0x10ffff), reach=["done"]))
        if alg == "knuth_morris_pratt" and q:
            continue
        for n, m, k in ((9, 2, 2), (9, 3, 2), (7, 2, 3)) if q else ((11, 2, 2), (11, 3, 2), (11, 4, 2), (11, 5, 2), (8, 2, 3), (8, 3, 3)):
            out.append(Job("%s/letters%d/%d.%d" % (alg, k, n, m), free, dict(alg=alg, n=n if not rk else n - 2, m=m, lo=97, hi=96 + k), reach=["done"], path_timeout=20))
        for kind in WORDS:
            sd = (2 if q else 20) if kind.startswith("rand") else 1
            if rk and q and kind not in ("aab", "fib", "a$"):
                continue
            for n, m in (((12, 3),) if q else ((12, 3), (14, 5))) if rk else ((14, 4), (20, 7)) if q else ((14, 4), (20, 7), (40, 9)):
                out.append(Job("%s/%s/%d.%d" % (alg, kind, n, m), shaped, dict(alg=alg, kind=kind, n=n, m=m, seeds=sd, free_t=1 if rk else 2 if q else 3, lo=97 if rk else 36, hi=99 if rk else 100), reach=["done"], path_timeout=20))
    return out
