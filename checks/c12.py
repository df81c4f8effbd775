import math
from symex.api import *
from symex.stubs import coin_random
import pydatastructs.linear_data_structures.linked_lists as L

BOUNDS = {
    "quick": "every history of up to 3 operations (insert or remove of any unbounded integer key, duplicates included), 2 insertions then 2 removals, and every coin toss; 3 insertions of concrete keys (with and without duplicates) in any order then 2 removals; one free operation (up to 4 tosses) after 12 seeded histories of 12 operations and 3 of 24",
    "thorough": "histories of 4 operations and 3 insertions then 2 removals with free keys; 4 and 5 insertions of concrete keys in any order then 2 removals"}
ASSUMPTIONS = ["keys are totally ordered numbers, data are integers", "the module draws its coins from its random generator"]
HALVES = ["i*r*/free"]


def levels(sl):
    out, row = [], sl.head
    while row is not None:
        nodes, cur = [], row.next
        while cur is not None and cur.key != math.inf:
            nodes.append(cur)
            cur = cur.next
        out.append(nodes)
        row = row.down
    return out[::-1]


def look(ctx, sl, model, what):
    lv = levels(sl)
    ctx.check(sl.levels == len(lv), what + ": number of levels")
    ctx.check(sl.size == len(model), what + ": size")
    base = lv[0]
    ctx.check(len(base) == len(model), what + ": bottom level does not hold all keys")
    ctx.check(sorted_nd([x.key for x in base]), what + ": bottom level is not sorted")
    if len(base) == len(model):
        ctx.check(is_perm([x.key for x in base], [k for k, _ in model]), what + ": keys differ")
        # every (key, data) pair is there
        ctx.check(And([Or([And(eq(x.key, k), eq(x.data, d)) for x in base]) for k, d in model]), what + ": data lost")
    for lo, hi in zip(lv, lv[1:]):
        ids = [id(x) for x in lo]
        pos = [ids.index(id(x.down)) if id(x.down) in ids else -1 for x in hi]
        ctx.check(all(p >= 0 for p in pos) and all(a < b for a, b in zip(pos, pos[1:])), what + ": a level is not part of the one below")
        ctx.check(And([eq(x.key, x.down.key) for x in hi if x.down is not None]), what + ": tower with different keys")


def insert(ctx, sl, model, k, d):
    sl.insert(k, d)
    model.append((k, d))


def remove(ctx, sl, model, k):
    try:
        r = sl.extract(k)
    except KeyError:
        ctx.reach("absent")
        ctx.check(And([ne(k, m[0]) for m in model]), "remove: present key reported absent")
        return
    ctx.reach("removed")
    ctx.check(eq(r.key, k), "remove: returned another key")
    ctx.check(Or([And(eq(k, m[0]), eq(r.data, m[1])) for m in model]), "remove: returned data that is not the key's")
    for i, m in enumerate(model):
        if m[1] is r.data or (is_num(m[1]) and is_num(r.data) and m[1].z.eq(r.data.z)):
            del model[i]
            return
    ctx.fail("remove: returned data that was never inserted")


def history(ctx, ops, keys=None, probe=True):
    with patched(L, random=coin_random(ctx)):
        sl, model = L.SkipList(), []
        look(ctx, sl, model, "new list")
        pool = list(range(len(keys))) if keys else None
        for s, op in enumerate(ops):
            if op == "*":
                op = "ir"[ctx.choice("op%d" % s, 2)]
            if op == "i":
                if keys:
                    k = keys[pool.pop(ctx.choice("p%d" % s, len(pool)))]
                else:
                    k = ctx.int("k%d" % s)
                insert(ctx, sl, model, k, 1000 + s)
                look(ctx, sl, model, "insert")
            else:
                remove(ctx, sl, model, keys[ctx.choice("r%d" % s, len(keys))] if keys else ctx.int("k%d" % s))
                look(ctx, sl, model, "remove")
        q = ctx.int("q") if probe else ctx.const(1)
        r = sl.search(q)
        ctx.check(r is True or r is False, "search: not a truth value")
        present = Or([eq(q, k) for k, _ in model])
        ctx.check(present if r else Not(present), "search: wrong answer %s" % r)
        ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    J = lambda ops, keys=None, reach=("done",): Job("%s/%s" % (ops, "free" if not keys else "".join(map(str, keys))), history, dict(ops=ops, keys=keys), reach=list(reach))
    out = [J("*"), J("**"), J("***"), J("iir", reach=["done", "removed", "absent"]), J("iirr"), J("iri"),
           J("iiirr", [1, 2, 3]), J("iiirr", [1, 2, 2])]
    for n, seeds in ((12, 12), (24, 3)):
        out.append(grown("grown%d" % n, history, dict(ops="i" * (n // 2) + "*" * (n // 2) + "*", probe=False), seeds if q else 8 * seeds, n))
    if not q:
        out += [J("****"), J("i*i*"), J("irir"), J("iiiirr", [1, 2, 3, 4]), J("iiiirr", [1, 1, 2, 1]), J("iiir"), J("iiirr"), J("iiiiirr", [1, 2, 3, 3, 4]), J("iiiirrr", [1, 2, 2, 3]), J("iirir")]
    return out
