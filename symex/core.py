"""Concolic symbolic execution of real Python (and, through the CPython API,
C++-extension) code, with z3 deciding every branch flip and every assertion.

A *run* executes a harness on proxy values.  Each proxy carries a z3 term and
the concrete value that term has under the run's input assignment, so a run
follows exactly the path of one concrete input and collects the path condition
(PC).  After the run

  * z3 decides  PC and not(assertions)         -> unsat: holds for EVERY input
                                                  on this path
                                                  sat: counterexample
  * z3 decides  PC[:i] and not(PC[i]) for each new branch i
                                               -> sat: a new path to run
                                                  unsat: no input goes there

until no unexplored branch is left: then every input within the declared bounds
lies on an explored path.  Nothing is sampled: the inputs of the next path are
whatever the solver returns.
"""
import z3

LT, EQ, GT = 1, 2, 4
_MIRROR = {0: 0, 1: 4, 2: 2, 3: 6, 4: 1, 5: 5, 6: 3, 7: 7}


class PathAbort(BaseException):
    """End of a path that cannot go on (assumption false)."""


class PathTimeout(BaseException):
    pass


class PathLimit(BaseException):
    pass


class Divergence(BaseException):
    pass


RUN = None          # the current Run, while a symbolic run is going on


class Entry:
    """One branch decision of a run."""
    __slots__ = ("cond", "neg", "flip", "multi", "excl")

    def __init__(self, cond, neg, flip=True, multi=None, excl=None):
        self.cond = cond      # z3 Bool that holds on this run
        self.neg = neg        # its negation (what a flip would assume)
        self.flip = flip
        self.multi = multi    # the concretised term, for multiway entries
        self.excl = excl


class Run:
    def __init__(self, inputs, bound=0, excl=None, expect=None, max_entries=20000):
        self.inputs = dict(inputs)
        self.bound = bound
        self.excl = excl or {}
        self.expect = expect or []
        self.entries = []
        self.vars = {}          # name -> (z3 var, default)
        self.rel = {}
        self.known = {}
        self.max_entries = max_entries
        self.keep = []
        self.seq = {}
        self.consts = set()

    # -- recording --------------------------------------------------------
    def _push(self, e):
        i = len(self.entries)
        if i < len(self.expect) and not e.cond.eq(self.expect[i]):
            if not (e.multi is not None and i == self.bound):
                raise Divergence("entry %d: %s vs %s" % (i, e.cond, self.expect[i]))
        self.entries.append(e)
        if i > self.max_entries:
            raise PathLimit()

    def branch(self, cond, value):
        """cond: z3 Bool; value: its concrete value on this run."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        got = self.known.get(k)
        if got is not None:
            return got[0]
        value = bool(value)
        neg = z3.Not(cond)
        if value:
            self._push(Entry(cond, neg))
        else:
            self._push(Entry(neg, cond))
        self.known[k] = (value, cond)
        return value

    def assume(self, cond, value):
        if z3.is_true(cond):
            return
        if value:
            self._push(Entry(cond, None, flip=False))
        else:
            # the run must stop here; the flip leads to inputs that satisfy it
            self._push(Entry(z3.Not(cond), cond))
            raise PathAbort()

    def domain(self, cond):
        self._push(Entry(cond, None, flip=False))

    def _seq(self, z):
        """Number of a term by first use on this run (same on a re-run)."""
        i = z.get_id()
        s = self.seq.get(i)
        if s is None:
            s = self.seq[i] = len(self.keep)
            self.keep.append(z)
        return s

    def compare(self, a, b, mask):
        """a, b: Num or plain numbers, at least one Num. mask over LT/EQ/GT."""
        az = a.z if isinstance(a, Num) else None
        bz = b.z if isinstance(b, Num) else None
        ka = self._seq(az) if az is not None else ("k", a)
        kb = self._seq(bz) if bz is not None else ("k", b)
        if ka == kb:
            return bool(mask & EQ)
        if self.consts and (az is None or ka in self.consts) and (bz is None or kb in self.consts):
            u, v = (a.c if az is not None else a), (b.c if bz is not None else b)
            return bool(mask & (LT if u < v else (GT if u > v else EQ)))
        ac = a.c if az is not None else a
        bc = b.c if bz is not None else b
        swap = (az is None) or (bz is not None and kb < ka)
        if swap:
            a, b, az, bz, ka, kb, ac, bc = b, a, bz, az, kb, ka, bc, ac
            mask = _MIRROR[mask]
        cur = self.rel.get((ka, kb), 7)
        t = cur & mask
        if t == cur:
            return True
        if t == 0:
            return False
        here = LT if ac < bc else (GT if ac > bc else EQ)
        val = bool(mask & here)
        use = mask if val else 7 & ~mask
        bt = bz if bz is not None else lift(b)
        yes, no = _relz(az, bt, use), _relz(az, bt, 7 & ~use)
        self._push(Entry(yes, no))
        self.rel[(ka, kb)] = cur & use
        return val

    def concretise(self, term, value):
        """Pin term to a value; other values become other paths."""
        if not z3.is_expr(term):
            return value
        k = ("v", term.get_id())
        if k in self.known:
            return self.known[k][0]
        i = len(self.entries)
        excl = list(self.excl.get(i, ())) if i == self.bound else []
        lv = lift(value)
        for x in excl:
            assert x != value
        ent = Entry(term == lv, None, flip=True, multi=term, excl=excl + [value])
        ent.neg = z3.And([term != lift(x) for x in excl + [value]])
        self._push(ent)
        self.known[k] = (value, term)
        return value

    def const(self, v):
        """A known value in the guise of a symbolic one (typed stores of compiled containers)."""
        x = Num(z3.IntVal(v), v)
        self.consts.add(self._seq(x.z))
        return x

    # -- inputs -----------------------------------------------------------
    def var(self, name, sort="int", lo=None, hi=None, default=None):
        if name in self.vars:
            raise RuntimeError("input %r declared twice" % name)
        if sort.startswith("bv"):
            z = z3.BitVec(name, int(sort[2:]))
            self.vars[name] = (z, default or 0)
            return z, self.inputs.get(name, default or 0)
        z = z3.Int(name) if sort == "int" else z3.Real(name)
        if default is None:
            default = 0
            if lo is not None and default < lo:
                default = lo
            if hi is not None and default > hi:
                default = hi
        self.vars[name] = (z, default)
        c = self.inputs.get(name, default)
        if lo is not None and hi is not None and lo == hi:
            return lo
        if lo is not None:
            self.domain(z >= lo)
        if hi is not None:
            self.domain(z <= hi)
        return Num(z, c)


def _relz(a, b, mask):
    if mask == LT:
        return a < b
    if mask == LT | EQ:
        return a <= b
    if mask in (EQ, LT | GT):
        e = _congruent(a, b)
        if e is None:
            e = a == b
        return e if mask == EQ else z3.Not(e)
    if mask == GT:
        return b < a
    if mask == GT | EQ:
        return b <= a
    raise AssertionError(mask)


def lift(v):
    if isinstance(v, Num):
        return v.z
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if type(v) is int:
        return z3.IntVal(v)
    if isinstance(v, float):
        if v == int(v):
            return z3.IntVal(int(v))
        from fractions import Fraction
        f = Fraction(v)
        return z3.Q(f.numerator, f.denominator)
    from fractions import Fraction
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return z3.IntVal(v.numerator)
        return z3.Q(v.numerator, v.denominator)
    raise TypeError(type(v))


def _const(v):
    """Plain number usable with symbolic arithmetic?"""
    return type(v) in (int, bool) or (type(v) is float)


INF = float("inf")


def _cmp(mask):
    def op(self, other):
        if isinstance(other, Num):
            return RUN.compare(self, other, mask)
        if _const(other):
            if type(other) is float and (other in (INF, -INF) or other != other):
                if other != other:
                    return mask == (LT | GT)
                return bool(mask & (LT if other == INF else GT))
            return RUN.compare(self, other, mask)
        if mask == EQ:
            return False
        if mask == LT | GT:
            return True
        return NotImplemented
    return op


def _arith(f, fz, rev=False):
    def op(self, other):
        if isinstance(other, Num):
            oz, oc = other.z, other.c
        elif _const(other):
            if type(other) is float and (other in (INF, -INF) or other != other):
                return f(other, 1.0) if rev else f(1.0, other)
            oz, oc = other if type(other) is int else lift(other), other
        else:
            return NotImplemented
        if rev:
            return mk(fz(oz, self.z), f(oc, self.c))
        return mk(fz(self.z, oz), f(self.c, oc))
    return op


def mk(z, c):
    if not z3.is_expr(z):
        return c
    z = z3.simplify(z) if _SIMPLIFY else z
    if z3.is_int_value(z):
        return z.as_long()
    return Num(z, c)


_SIMPLIFY = True


class _NumMeta(type):
    def __call__(cls, *a):
        # Num(x) used as an element type (dtype): conversion is the identity.
        if len(a) == 1:
            if isinstance(a[0], Num) or type(a[0]) in (int, float):
                return a[0]
            raise TypeError("cannot convert %r to a number" % (a[0],))
        if len(a) == 0:
            return 0
        return type.__call__(cls, *a)



PRINT_BASE = 7 * 10 ** 12
_printed = None


class printing:
    """Within this context str() of a symbolic number is a literal that `value` maps back to the number."""

    def __enter__(self):
        global _printed
        _printed = {}
        self.table = _printed
        return self

    def __exit__(self, *a):
        global _printed
        _printed = None

    def parse(self, text):
        import ast
        return self.value(ast.literal_eval(text))

    def value(self, x):
        if type(x) is int:
            return self.table.get(x, x)
        if type(x) in (list, tuple):
            return type(x)(self.value(y) for y in x)
        return x


class Num(metaclass=_NumMeta):
    """Symbolic number: z3 term + its concrete value on this run."""
    __slots__ = ("z", "c", "__weakref__")

    def __init__(self, z, c):
        self.z = z
        self.c = c

    @property
    def __class__(self):
        return int if type(self.c) in (int, bool) else Num

    __lt__ = _cmp(LT)
    __le__ = _cmp(LT | EQ)
    __gt__ = _cmp(GT)
    __ge__ = _cmp(GT | EQ)
    __eq__ = _cmp(EQ)
    __ne__ = _cmp(LT | GT)

    def __hash__(self):
        return 0

    def __bool__(self):
        return RUN.compare(self, 0, LT | GT)

    __add__ = _arith(lambda a, b: a + b, lambda a, b: a + b)
    __radd__ = _arith(lambda a, b: a + b, lambda a, b: a + b, True)
    __sub__ = _arith(lambda a, b: a - b, lambda a, b: a - b)
    __rsub__ = _arith(lambda a, b: a - b, lambda a, b: a - b, True)
    __mul__ = _arith(lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = _arith(lambda a, b: a * b, lambda a, b: a * b, True)

    def __neg__(self):
        return mk(-self.z, -self.c)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __floordiv__(self, o):
        return _divmod(self, o)[0]

    def __rfloordiv__(self, o):
        return _divmod(o, self)[0]

    def __mod__(self, o):
        return _divmod(self, o)[1]

    def __rmod__(self, o):
        return _divmod(o, self)[1]

    def __divmod__(self, o):
        return _divmod(self, o)

    def __rdivmod__(self, o):
        return _divmod(o, self)

    def __truediv__(self, o):
        return _truediv(self, o)

    def __rtruediv__(self, o):
        return _truediv(o, self)

    def __pow__(self, o, m=None):
        if m is not None:
            return pow(int(self), int(o), m)
        o = int(o)
        if o < 0:
            return int(self) ** o
        r = 1
        for _ in range(o):
            r = self * r
        return r

    def __rpow__(self, o):
        return o ** int(self)

    def __index__(self):
        if z3.is_real(self.z):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return RUN.concretise(self.z, self.c)

    def __int__(self):
        v = RUN.concretise(self.z, self.c)
        return int(v)

    def __float__(self):
        return float(RUN.concretise(self.z, self.c))

    def __trunc__(self):
        return self.__int__()

    def __floor__(self):
        if type(self.c) is int:
            return self
        return mk(z3.ToInt(self.z), self.c.__floor__())

    def __ceil__(self):
        if type(self.c) is int:
            return self
        return -((-self).__floor__())

    def __round__(self, n=None):
        if type(self.c) is int:
            return self
        return round(self.__float__(), n)

    def _bits(name, rev=False):
        def op(self, o):
            a, b = int(self), int(o)
            if rev:
                a, b = b, a
            return getattr(a, name)(b)
        return op

    __and__ = _bits("__and__")
    __rand__ = _bits("__and__", True)
    __or__ = _bits("__or__")
    __ror__ = _bits("__or__", True)
    __xor__ = _bits("__xor__")
    __rxor__ = _bits("__xor__", True)
    __lshift__ = _bits("__lshift__")
    __rlshift__ = _bits("__lshift__", True)
    __rshift__ = _bits("__rshift__")
    __rrshift__ = _bits("__rshift__", True)

    def __invert__(self):
        return -self - 1

    def bit_length(self):
        return int(self).bit_length()

    def is_integer(self):
        return type(self.c) is int

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return int(self)

    @property
    def denominator(self):
        return 1

    # formatting never concretises; while `printing()` is on the text is an integer literal that names the value
    def __repr__(self):
        if _printed is not None:
            k = PRINT_BASE + len(_printed)
            _printed[k] = self
            return str(k)
        return "<%s~%s>" % (str(self.z)[:40], self.c)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("symbolic value cannot be pickled")


def is_num(x):
    return type(x) is Num


def _linear(t, m):
    """t as a linear form over opaque atoms, modulo m: ({id: (atom, coefficient)}, constant)."""
    acc, c0, todo = {}, 0, [(t, 1)]
    while todo:
        t, k = todo.pop()
        if z3.is_int_value(t):
            c0 += k * t.as_long()
        elif z3.is_add(t):
            todo.extend((x, k) for x in t.children())
        elif z3.is_sub(t):
            ch = t.children()
            todo.append((ch[0], k))
            todo.extend((x, -k) for x in ch[1:])
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
            todo.append((t.arg(0), -k))
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            todo.append((t.arg(1), k * t.arg(0).as_long()))
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(1)):
            todo.append((t.arg(0), k * t.arg(1).as_long()))
        elif z3.is_app_of(t, z3.Z3_OP_MOD) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == m:
            todo.append((t.arg(0), k))
        else:
            i = t.get_id()
            acc[i] = (t, acc[i][1] + k if i in acc else k)
    return acc, c0


def _reduce(t, m):
    """t modulo m with nested residues flattened and coefficients reduced."""
    acc, c0 = _linear(t, m)
    terms = []
    for a, k in acc.values():
        k %= m
        if k:
            terms.append((k if k <= m // 2 else k - m) * a)
    c0 %= m
    if not terms:
        return z3.IntVal(c0)
    return (z3.Sum(terms) + c0) % m


def _residue(t):
    return z3.is_app_of(t, z3.Z3_OP_MOD) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 1


def _congruent(a, b):
    """The equality of two residues (or a residue and a number) of one modulus as one congruence, else None."""
    if not (z3.is_int(a) and z3.is_int(b)):
        return None
    if not _residue(a):
        a, b = b, a
    if not _residue(a):
        return None
    m = a.arg(1).as_long()
    if not (_residue(b) and b.arg(1).as_long() == m or z3.is_int_value(b) and 0 <= b.as_long() < m):
        return None
    return _reduce(a - b, m) == 0


def _divmod(a, b):
    for v in (a, b):
        if not (is_num(v) or _const(v)):
            return (NotImplemented, NotImplemented)
    if is_num(b):
        b = int(b)      # symbolic divisors are enumerated, not left nonlinear
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if b < 0:
        a, b, neg = -a, -b, True
    else:
        neg = False
    ac = a.c if is_num(a) else a
    bc = b.c if is_num(b) else b
    az, bz = lift(a), lift(b)
    q = mk(az / bz, ac // bc) if is_num(a) or is_num(b) else ac // bc
    m = mk(_reduce(az, b) if z3.is_int(az) else az % bz, ac % bc) if is_num(a) else ac % bc
    return (q, -m if neg else m)


def _truediv(a, b):
    from fractions import Fraction
    for v in (a, b):
        if not (is_num(v) or _const(v)):
            return NotImplemented
    if type(b) is float and b in (INF, -INF):
        return 0
    if type(a) is float and a in (INF, -INF):
        return a if b > 0 else -a
    if b == 0:
        raise ZeroDivisionError("division by zero")
    ac = a.c if is_num(a) else Fraction(a)
    bc = b.c if is_num(b) else Fraction(b)
    return mk(z3.ToReal(lift(a)) / z3.ToReal(lift(b)) if z3.is_int(lift(a)) and z3.is_int(lift(b))
              else lift(a) / lift(b), Fraction(ac) / Fraction(bc))


# ---------------------------------------------------------------------------
class Str:
    """Symbolic string of known length over code points (Num or int)."""
    __slots__ = ("cs",)

    def __init__(self, cs=()):
        if isinstance(cs, str) and type(cs) is str:
            cs = [ord(x) for x in cs]
        elif type(cs) is Str:
            cs = cs.cs
        self.cs = tuple(cs)

    @property
    def __class__(self):
        return str

    def __len__(self):
        return len(self.cs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Str(self.cs[i])
        return Str((self.cs[i],))

    def __iter__(self):
        for c in self.cs:
            yield Str((c,))

    def __bool__(self):
        return bool(self.cs)

    def __add__(self, o):
        if not (type(o) is Str or type(o) is str):
            return NotImplemented
        return Str(self.cs + Str(o).cs)

    def __radd__(self, o):
        return Str(Str(o).cs + self.cs)

    def __mul__(self, n):
        return Str(self.cs * n)

    def __eq__(self, o):
        if not (type(o) is Str or type(o) is str):
            return False
        o = Str(o)
        if len(o.cs) != len(self.cs):
            return False
        for a, b in zip(self.cs, o.cs):
            if not (a == b):
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    def _lex(self, o):
        o = Str(o)
        for a, b in zip(self.cs, o.cs):
            if a == b:
                continue
            return -1 if a < b else 1
        return (len(self.cs) > len(o.cs)) - (len(self.cs) < len(o.cs))

    def __lt__(self, o):
        return self._lex(o) < 0

    def __le__(self, o):
        return self._lex(o) <= 0

    def __gt__(self, o):
        return self._lex(o) > 0

    def __ge__(self, o):
        return self._lex(o) >= 0

    def __hash__(self):
        return 0

    def __contains__(self, o):
        return self.find(o) >= 0

    def find(self, o, start=0, end=None):
        o = Str(o)
        n, m = len(self.cs) if end is None else min(end, len(self.cs)), len(o.cs)
        for i in range(start, n - m + 1):
            if self[i:i + m] == o:
                return i
        return -1

    def index(self, o, *a):
        r = self.find(o, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def startswith(self, o, start=0, end=None):
        o = Str(o)
        s = self[start:end] if end is not None else self[start:]
        return len(s) >= len(o) and s[:len(o)] == o

    def endswith(self, o):
        o = Str(o)
        return len(self) >= len(o) and (len(o) == 0 or self[-len(o):] == o)

    def join(self, parts):
        out = ()
        for i, p in enumerate(parts):
            if i:
                out += self.cs
            out += Str(p).cs
        return Str(out)

    def __repr__(self):
        return "<Str %s>" % "".join(chr(int(getattr(c, "c", c))) if 31 < int(getattr(c, "c", c)) < 127 else "?" for c in self.cs)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def sym_ord(x):
    if type(x) is Str:
        if len(x.cs) != 1:
            raise TypeError("ord() expected a character")
        return x.cs[0]
    return ord(x)


def sym_chr(x):
    if is_num(x):
        return Str((x,))
    return chr(x)


def sym_str(x=""):
    return x if type(x) is Str else str(x)
