import random as _random
from symex.api import *
from pydatastructs import Trie
from checks.c30 import mk

BOUNDS = {
    "quick": "histories of up to 5 insertions and deletions of words of 0 to 3 free Unicode characters (every pattern of equal characters and shared prefixes), queried with the words, all their prefixes, and a free word; deletions of the held words in a free order; one free operation on 20 seeded dictionaries of up to 40 words over 2 letters of up to 7 letters",
    "thorough": "6 operations, two free operations, 80 dictionaries"}
ASSUMPTIONS = ["is_present of the empty prefix is not constrained"]


class Words:
    def __init__(self, ctx):
        self.ctx, self.t, self.held, self.seen = ctx, Trie(), [], []

    def has(self, w):
        return any(w == h for h in self.held)

    def pre(self, w):
        return any(len(h) >= len(w) and h[:len(w)] == w for h in self.held)

    def insert(self, w):
        self.t.insert(w)
        if not self.has(w):
            self.held.append(w)
        self.seen.append(w)

    def delete(self, w):
        held, pre = self.has(w), self.pre(w)
        r = self.t.delete(w)
        if held:
            self.ctx.check(r is True, "deleting a held string does not return True")
        elif not pre and len(w):
            self.ctx.check(r is None, "deleting an absent string does not return None")
        self.held = [h for h in self.held if not h == w]
        self.seen.append(w)

    def ask(self, w):
        ctx, t = self.ctx, self.t
        ctx.check(t.is_inserted(w) is self.has(w), "inserted exactly the held strings")
        if len(w):
            ctx.check(t.is_present(w) is self.pre(w), "present exactly the prefixes of held strings")
        got, want = list(t.strings_with_prefix(w)), [h for h in self.held if len(h) >= len(w) and h[:len(w)] == w]
        ctx.check(all(isinstance(g, str) for g in got), "listed something that is no string")
        ctx.check(len(got) == len(want), "number of strings listed for a prefix")
        ctx.check(all(any(g == h for h in want) for g in got) and all(any(g == h for g in got) for h in want), "strings listed for a prefix")

    def look(self, extra=()):
        asked = []
        for w in self.seen + list(extra):
            for i in range(len(w) + 1):
                p = w[:i]
                if not any(p == a for a in asked):
                    asked.append(p)
                    self.ask(p)


def free(ctx, lens, ops, probe, each, drain):
    W = Words(ctx)
    for j, (n, op) in enumerate(zip(lens, ops)):
        w = mk(ctx, [ctx.int("c%d.%d" % (j, i), 0, 0x10ffff) for i in range(n)])
        if op == "*":
            op = "id"[ctx.choice("op%d" % j, 2)]
        (W.insert if op == "i" else W.delete)(w)
        if each:
            W.look()
    W.look([mk(ctx, [ctx.int("p%d" % i, 0, 0x10ffff) for i in range(probe)])] if probe else [])
    while drain and W.held:
        W.delete(W.held[ctx.choice("d%d" % len(W.held), len(W.held))])
        W.look()
    if drain:
        ctx.check(not W.t.root._children, "an empty trie still has characters")
    ctx.reach("done")


def dictionary(ctx, seeds, n, k, letters):
    seed = ctx.choice("seed", seeds)
    rng = _random.Random(86028121 * (1 + seed) + n)
    W = Words(ctx)
    words = []
    for _ in range(n):
        if words and rng.random() < 0.3:
            w = rng.choice(words)
            w = w[:rng.randrange(len(w) + 1)] if rng.random() < 0.5 else w + rng.choice(letters)
        else:
            w = "".join(rng.choice(letters) for _ in range(rng.randrange(0, 8)))
        words.append(w)
        w = mk(ctx, [ctx.const(ord(c)) for c in w])
        (W.delete if rng.random() < 0.3 else W.insert)(w)
    W.seen = W.seen[-8:]
    W.look()
    W.seen = []
    for j in range(k):
        m = ctx.choice("len%d" % j, 4)
        w = mk(ctx, [ctx.int("c%d.%d" % (j, i), ord(letters[0]), ord(letters[-1])) for i in range(m)])
        (W.insert if ctx.flag("ins%d" % j) else W.delete)(w)
        W.look()
    for h in W.held:
        W.ask(h)
    for h in list(W.held):
        W.delete(h)
    ctx.check(not W.t.root._children, "an empty trie still has characters")
    ctx.reach("done")


def jobs(tier):
    q = tier == "quick"
    out = []
    for lens, ops, probe, each, drain in [
            ((), "", 1, False, True), ((0,), "*", 1, True, True), ((1,), "*", 1, True, True), ((3,), "i", 3, True, True),
            ((2, 2), "i*", 1, True, True), ((0, 2), "i*", 1, True, True), ((2, 3), "ii", 0, True, True), ((1, 2, 3), "iii", 0, False, True), ((2, 2, 1), "ii*", 0, False, False),
            ((1, 1, 1, 1), "iiii", 0, False, True), ((1, 2, 1, 2), "ii**", 0, False, False), ((2, 1, 2), "iid", 0, True, False), ((2, 0, 2), "i**", 0, True, False),
            ((3, 2, 3), "iid", 0, False, False), ((2, 2, 2), "iii", 0, False, True),
            ((2, 2, 2), "i**", 2, False, True), ((3, 3, 3), "iii", 0, False, True), ((1, 2, 2, 1, 2), "ii***", 0, False, False), ((3, 3, 2, 3), "iiid", 0, False, False)] + ([] if q else [
                ((2, 3, 2, 3), "ii**", 2, True, True), ((3, 4, 3, 2), "iii*", 0, True, True), ((2, 2, 2, 2, 2, 2), "iii***", 0, False, False)]):
        out.append(Job("free/%s/%s" % ("".join(map(str, lens)) or "none", ops), free, dict(lens=lens, ops=ops, probe=probe, each=each, drain=drain), reach=["done"]))
    for letters in ("ab", "abc"):
        out.append(Job("dictionary/" + letters, dictionary, dict(seeds=10 if q else 40, n=40, k=1 if q else 2, letters=letters), reach=["done"], path_timeout=30))
    return out
