"""Symbolic execution of the LLVM IR that the library hands to its JIT.

Values are (z3 term, concrete value) pairs on bit-vectors / IEEE floats; every
conditional branch or select on data is recorded in the current Run."""
import re
import struct
import z3
from . import core
from .explore import Unsupported

_W = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}


def fsort(t):
    return z3.Float32() if t == "float" else z3.Float64()


def bits_to_float(v, t):
    return struct.unpack("<f" if t == "float" else "<d", struct.pack("<I" if t == "float" else "<Q", v))[0]


def width(t):
    return {"float": 32, "double": 64}.get(t) or _W[t]


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


class Val:
    """Integer: z is a BitVec term or None when constant; c unsigned value.
    Float: z is an FP term, c the python float, bits kept for stores."""
    __slots__ = ("t", "z", "c", "src")

    def __init__(self, t, z, c, src=None):
        self.t, self.z, self.c, self.src = t, z, c, src

    def term(self):
        if self.z is not None:
            return self.z
        if self.t in ("float", "double"):
            return z3.FPVal(self.c, fsort(self.t))
        return z3.BitVecVal(self.c, width(self.t))


class Ptr:
    __slots__ = ("base", "off")

    def __init__(self, base, off):
        self.base, self.off = base, off


def parse(text):
    """-> {fn: (args, {block: [lines]}, entry)}"""
    fns, cur, blocks, blk = {}, None, None, None
    for line in text.splitlines():
        line = line.split(" ;")[0].rstrip()
        if line.startswith("define"):
            m = re.match(r"define .*?@([\w.\"]+)\((.*?)\)", line)
            args = [a.strip().split()[-1] for a in m.group(2).split(",")]
            cur, blocks, blk = m.group(1), {}, None
            fns[cur] = [args, blocks, None]
        elif cur and line.startswith("}"):
            cur = None
        elif cur and re.match(r'^("?[\w.\-$]+"?):', line):
            blk = line.split(":")[0].strip('"')
            blocks[blk] = []
            fns[cur][2] = fns[cur][2] or blk
        elif cur and line.strip():
            if blk is None:
                blk = "0"
                blocks[blk] = []
                fns[cur][2] = blk
            blocks[blk].append(line.strip())
    return fns


_FLAGS = {"nsw", "nuw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg", "samesign", "nusw", "volatile", "tail", "musttail", "notail"}


class Machine:
    def __init__(self, text, max_steps=20000):
        self.fns = parse(text)
        self.steps = max_steps
        self.executed = set()

    def call(self, name, args, mem):
        """mem: {base: {index: Val}} element-indexed; args: list of Val/Ptr."""
        names, blocks, blk = self.fns[name]
        env = dict(zip(names, args))
        prev = None
        run = core.RUN
        while True:
            self.executed.add(blk)
            phis, rest = [], []
            for l in blocks[blk]:
                (phis if " = phi " in l else rest).append(l)
            new = {}
            for l in phis:
                d, r = l.split(" = phi ", 1)
                t, r = r.split(" ", 1)
                for m in re.finditer(r"\[\s*([^,\]]+),\s*%(\"?[^\s\]]+\"?)\s*\]", r):
                    if m.group(2).strip('"') == prev:
                        new[d] = self.val(env, t, m.group(1).strip())
                        break
                else:
                    raise Unsupported("phi without predecessor: " + l)
            env.update(new)
            nxt = None
            for l in rest:
                self.steps -= 1
                if self.steps <= 0:
                    raise core.PathLimit()
                if " = " in l:
                    d, r = l.split(" = ", 1)
                    env[d] = self.op(run, env, r, mem)
                    continue
                toks = [x for x in re.split(r"[\s,]+", l) if x and x not in _FLAGS]
                if toks[0] == "br":
                    if toks[1] == "label":
                        nxt = toks[2][1:].strip('"')
                    else:
                        c = self.val(env, "i1", toks[2])
                        nxt = toks[4 if self.cond(run, c) else 6][1:].strip('"')
                    break
                if toks[0] == "store":
                    v = self.val(env, toks[1], toks[2])
                    p = self.val(env, "ptr", toks[4])
                    cells = mem[p.base]
                    if p.off not in cells:
                        raise OutOfBounds("store at element %d" % p.off)
                    cells[p.off] = v
                    continue
                if toks[0] == "ret":
                    return None if toks[1] == "void" else self.val(env, toks[1], toks[2])
                if toks[0] == "switch" or toks[0] == "unreachable":
                    raise Unsupported(l)
                if toks[0] == "call" and "llvm.lifetime" in l or "llvm.assume" in l:
                    continue
                raise Unsupported(l)
            prev, blk = blk, nxt

    def cond(self, run, c):
        if c.z is None:
            return bool(c.c)
        return run.branch(c.z == z3.BitVecVal(1, 1) if not z3.is_bool(c.z) else c.z, c.c)

    def val(self, env, t, s):
        s = s.rstrip(",")
        if s.startswith("%"):
            return env[s]
        if t == "ptr":
            raise Unsupported("pointer constant " + s)
        if t in ("float", "double"):
            if s.startswith("0x"):
                v = struct.unpack("<d", struct.pack("<Q", int(s, 16)))[0]
            else:
                v = float(s)
            return Val(t, None, v)
        if s in ("true", "false"):
            return Val(t, None, int(s == "true"))
        if s in ("undef", "poison"):
            raise Unsupported("undefined value")
        return Val(t, None, int(s) & ((1 << width(t)) - 1))

    def op(self, run, env, r, mem):
        toks = [x for x in re.split(r"[\s,]+", r) if x and x not in _FLAGS]
        o = toks[0]
        if o == "load":
            p = self.val(env, "ptr", toks[3])
            cells = mem[p.base]
            if p.off not in cells:
                raise OutOfBounds("load at element %d" % p.off)
            v = cells[p.off]
            if v.t != toks[1]:
                raise Unsupported("load of another type")
            return v
        if o == "getelementptr":
            p = self.val(env, "ptr", toks[3])
            i = self.val(env, toks[4], toks[5])
            if len(toks) > 6:
                raise Unsupported(r)
            w, bw = width(toks[1]) // 8, mem["elem"]
            if i.z is not None:
                raise Unsupported("symbolic address")
            b = signed(i.c, width(toks[4])) * w
            if b % bw:
                raise Unsupported("unaligned address")
            return Ptr(p.base, p.off + b // bw)
        if o == "icmp":
            if toks[2] == "ptr":
                a, b = self.val(env, "ptr", toks[3]), self.val(env, "ptr", toks[4])
                w, ac, bc, az, bz, sym = 64, a.off, b.off, None, None, False
            else:
                a, b = self.val(env, toks[2], toks[3]), self.val(env, toks[2], toks[4])
                w = width(toks[2])
                sym = a.z is not None or b.z is not None
                ac, bc = a.c, b.c
            p = toks[1]
            if p[0] == "s":
                ac, bc = signed(ac, w), signed(bc, w)
            c = {"eq": ac == bc, "ne": ac != bc, "gt": ac > bc, "lt": ac < bc, "ge": ac >= bc, "le": ac <= bc}[p if p in ("eq", "ne") else p[1:]]
            if not sym:
                return Val("i1", None, int(c))
            az, bz = a.term(), b.term()
            z = {"eq": lambda: az == bz, "ne": lambda: az != bz, "sgt": lambda: az > bz, "slt": lambda: az < bz, "sge": lambda: az >= bz,
                 "sle": lambda: az <= bz, "ugt": lambda: z3.UGT(az, bz), "ult": lambda: z3.ULT(az, bz), "uge": lambda: z3.UGE(az, bz), "ule": lambda: z3.ULE(az, bz)}[p]()
            return Val("i1", z, int(c))
        if o == "fcmp":
            a, b = self.val(env, toks[2], toks[3]), self.val(env, toks[2], toks[4])
            p = toks[1]
            if p in ("true", "false"):
                return Val("i1", None, int(p == "true"))
            x, y, az, bz = a.c, b.c, a.term(), b.term()
            nan = x != x or y != y
            nanz = z3.Or(z3.fpIsNaN(az), z3.fpIsNaN(bz))
            if p in ("ord", "uno"):
                return Val("i1", nanz if p == "uno" else z3.Not(nanz), int(nan == (p == "uno")))
            k = p[1:]
            c = {"eq": x == y, "ne": x != y and not nan, "gt": x > y, "lt": x < y, "ge": x >= y, "le": x <= y}[k]
            z = {"eq": lambda: z3.fpEQ(az, bz), "ne": lambda: z3.And(z3.Not(nanz), z3.fpNEQ(az, bz)), "gt": lambda: z3.fpGT(az, bz),
                 "lt": lambda: z3.fpLT(az, bz), "ge": lambda: z3.fpGEQ(az, bz), "le": lambda: z3.fpLEQ(az, bz)}[k]()
            if p[0] == "u":
                c, z = c or nan, z3.Or(nanz, z)
            return Val("i1", z, int(c))
        if o == "select":
            c = self.val(env, "i1", toks[2])
            t = toks[3]
            return self.val(env, t, toks[4]) if self.cond(run, c) else self.val(env, toks[5], toks[6])
        if o in ("sext", "zext", "trunc"):
            a, w0, w1 = self.val(env, toks[1], toks[2]), width(toks[1]), width(toks[4])
            c = (signed(a.c, w0) if o == "sext" else a.c) & ((1 << w1) - 1)
            if a.z is None:
                return Val(toks[4], None, c)
            z = a.z
            if z3.is_bool(z):
                z = z3.If(z, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            z = z3.SignExt(w1 - w0, z) if o == "sext" else z3.ZeroExt(w1 - w0, z) if o == "zext" else z3.Extract(w1 - 1, 0, z)
            return Val(toks[4], z, c)
        if o == "freeze":
            return self.val(env, toks[1], toks[2])
        if o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            t = toks[1]
            w = width(t)
            a, b = self.val(env, t, toks[2]), self.val(env, t, toks[3])
            m = (1 << w) - 1
            x, y = a.c, b.c
            if o in ("udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr") and (b.z is not None or (y == 0 and "div" in o)):
                raise Unsupported(r)
            sx, sy = signed(x, w), signed(y, w)
            c = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                 "shl": lambda: x << y, "lshr": lambda: x >> y, "ashr": lambda: sx >> y, "udiv": lambda: x // y, "urem": lambda: x % y,
                 "sdiv": lambda: int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1), "srem": lambda: (abs(sx) % abs(sy)) * (-1 if sx < 0 else 1)}[o]() & m
            if a.z is None and b.z is None:
                return Val(t, None, c)
            az, bz = a.term(), b.term()
            if w == 1 and (z3.is_bool(az) or z3.is_bool(bz)):
                f = lambda v: v if z3.is_bool(v) else v == z3.BitVecVal(1, 1)
                z = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[o](f(az), f(bz))
            else:
                z = {"add": lambda: az + bz, "sub": lambda: az - bz, "mul": lambda: az * bz, "and": lambda: az & bz, "or": lambda: az | bz, "xor": lambda: az ^ bz,
                     "shl": lambda: az << bz, "lshr": lambda: z3.LShR(az, bz), "ashr": lambda: az >> bz, "udiv": lambda: z3.UDiv(az, bz), "urem": lambda: z3.URem(az, bz),
                     "sdiv": lambda: az / bz, "srem": lambda: z3.SRem(az, bz)}[o]()
            return Val(t, z, c)
        if o == "call":
            m = re.match(r".*@llvm\.([su])(min|max)\.i(\d+)\(i\d+ ([^,]+), i\d+ ([^)]+)\)", r)
            if m:
                t = "i" + m.group(3)
                a, b = self.val(env, t, m.group(4)), self.val(env, t, m.group(5))
                w = int(m.group(3))
                k = (lambda v: signed(v.c, w)) if m.group(1) == "s" else (lambda v: v.c)
                less = k(a) < k(b)
                if a.z is not None or b.z is not None:
                    az, bz = a.term(), b.term()
                    less = run.branch(az < bz if m.group(1) == "s" else z3.ULT(az, bz), less)
                return (a if less else b) if m.group(2) == "min" else (b if less else a)
        raise Unsupported("instruction: " + r)


class OutOfBounds(Exception):
    pass
