"""Exhaustive path exploration of a harness, spec helpers, symbolic and
concrete harness contexts."""
import gc
import signal
import time
import traceback
import z3
from . import core
from .core import Num, is_num, PathAbort, PathTimeout, PathLimit, Divergence


# ---- polymorphic specification language ----------------------------------
def T(v):
    """Term of a value: z3 term for symbolic numbers, the value otherwise."""
    return v.z if is_num(v) else v


def _zb(v):
    return v if z3.is_expr(v) else z3.BoolVal(bool(v))


def And(*cs):
    if len(cs) == 1 and isinstance(cs[0], (list, tuple)):
        cs = cs[0]
    out = []
    for c in cs:
        if z3.is_expr(c):
            out.append(c)
        elif not c:
            return False
    return True if not out else (out[0] if len(out) == 1 else z3.And(out))


def Or(*cs):
    if len(cs) == 1 and isinstance(cs[0], (list, tuple)):
        cs = cs[0]
    out = []
    for c in cs:
        if z3.is_expr(c):
            out.append(c)
        elif c:
            return True
    return False if not out else (out[0] if len(out) == 1 else z3.Or(out))


def Not(c):
    return z3.Not(c) if z3.is_expr(c) else (not c)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if z3.is_expr(a) or z3.is_expr(b):
        return _zb(a) == _zb(b)
    return bool(a) == bool(b)


def If(c, a, b):
    if z3.is_expr(c):
        a, b = T(a), T(b)
        if not z3.is_expr(a):
            a = core.lift(a)
        if not z3.is_expr(b):
            b = core.lift(b)
        return z3.If(c, a, b)
    return a if c else b


def _bin(f):
    def g(a, b):
        a, b = T(a), T(b)
        if (a is None or b is None) and f is not _eqf:
            return False
        if a is None or b is None:
            return a is b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, float) and x in (core.INF, -core.INF) and z3.is_expr(y):
                # a symbolic number is always finite
                return f(a if not z3.is_expr(a) else 0, b if not z3.is_expr(b) else 0)
        if isinstance(a, str) != isinstance(b, str) or type(a).__name__ in ("list", "dict") or type(b).__name__ in ("list", "dict"):
            if f is _eqf:
                return (not z3.is_expr(a)) and (not z3.is_expr(b)) and type(a) is type(b) and a == b
        try:
            r = f(a, b)
        except (z3.Z3Exception, TypeError):
            return False
        return r
    return g


def _eqf(a, b):
    return a == b


eq = _bin(_eqf)
le = _bin(lambda a, b: a <= b)
lt = _bin(lambda a, b: a < b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def ne(a, b):
    return Not(eq(a, b))


def Sum(xs):
    r = 0
    for x in xs:
        x = T(x)
        r = r + (If(x, 1, 0) if isinstance(x, bool) or (z3.is_expr(x) and z3.is_bool(x)) else x)
    return r


def Min(xs):
    xs = list(xs)
    r = T(xs[0])
    for x in xs[1:]:
        x = T(x)
        r = If(lt(x, r), x, r)
    return r


def Max(xs):
    xs = list(xs)
    r = T(xs[0])
    for x in xs[1:]:
        x = T(x)
        r = If(lt(r, x), x, r)
    return r


def seq_eq(a, b):
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    return And([eq(x, y) for x, y in zip(a, b)])


def _ident(x):
    return ("z", x.z.get_id()) if is_num(x) else ("c", x)


def is_perm(a, b):
    """Same multiset of values (None allowed)."""
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    from collections import Counter
    try:
        ca, cb = Counter(map(_ident, a)), Counter(map(_ident, b))
    except TypeError:
        return False
    if ca == cb:
        return True
    if sum(x is None for x in a) != sum(x is None for x in b):
        return False
    a = [x for x in a if x is not None]
    b = [x for x in b if x is not None]
    return And([eq(Sum([eq(x, y) for y in a]), Sum([eq(x, y) for y in b])) for x in a + b])


def sorted_nd(xs, desc=False):
    return And([(ge if desc else le)(x, y) for x, y in zip(xs, xs[1:])])


# ---- contexts -------------------------------------------------------------
class Failure(Exception):
    pass


class Unsupported(Exception):
    """The code left the encodable fragment: the path is not explored."""


class BaseCtx:
    symbolic = False

    def __init__(self, known=()):
        self.obl = []           # (label, formula)
        self.regions = []       # (finding id, formula)
        self.known = set(known)
        self.reached = set()
        self.nfail = 0

    def check(self, formula, label):
        self.obl.append((label, formula))

    def check_eq(self, a, b, label):
        self.check(eq(a, b), label + (" [got %r want %r]" % (a, b) if not self.symbolic else ""))

    def fail(self, label):
        self.check(False, label)

    def finding(self, fid, region):
        """Inputs in `region` run into recorded finding fid."""
        if fid in self.known:
            self.regions.append((fid, region))

    def reach(self, label):
        self.reached.add(label)

    def permutation(self, name, n):
        """Every ordering of range(n)."""
        left, out = list(range(n)), []
        for i in range(n):
            out.append(left.pop(self.choice("%s.%d" % (name, i), len(left))))
        return out


HALF = 2 ** 30


class SymCtx(BaseCtx):
    symbolic = True
    dtype = Num

    def __init__(self, run, known=()):
        super().__init__(known)
        self.run = run

    half = False

    def halves(self):
        """From here on unbounded inputs are multiples of 1/2 (every fractional value a float can hold exactly to that step)."""
        self.half = True

    def int(self, name, lo=None, hi=None, default=None):
        if self.half and hi is None:
            v = self.run.var(name, "int", -HALF if lo is None else 2 * lo, HALF, max(1, 2 * (lo or 0)) if default is None else 2 * default)
            return core.Num(z3.ToReal(v.z) / 2, v.c / 2)
        return self.run.var(name, "int", lo, hi, default)

    def index(self, name, lo=None, hi=None):
        return self.run.var(name, "int", lo, hi)

    def const(self, v):
        return self.run.const(v)

    def choice(self, name, k):
        if k <= 1:
            if k < 1:
                raise ValueError("choice of nothing")
            return 0
        return int(self.run.var(name, "int", 0, k - 1))

    def flag(self, name):
        return bool(self.choice(name, 2))

    def bv(self, name, w):
        """-> (term, unsigned value)"""
        return self.run.var(name, "bv%d" % w)

    def str(self, name, n, lo=97, hi=None):
        return core.Str([self.int("%s[%d]" % (name, i), lo, hi if hi is not None else 122, default=lo) for i in range(n)])

    def assume(self, f):
        if f is True:
            return
        if f is False:
            self.run.assume(z3.BoolVal(False), False) if False else None
            raise PathAbort()
        self.run.assume(f, _evalz(f, self.run))

    def conc(self, x):
        """Concrete value of x on this path (for logs only)."""
        return x.c if is_num(x) else x


def _evalz(f, run):
    sub = []
    for n, (z, d) in run.vars.items():
        v = run.inputs.get(n, d)
        sub.append((z, z3.BitVecVal(v, z.size()) if z3.is_bv(z) else core.lift(v)))
    r = z3.simplify(z3.substitute(f, sub))
    return z3.is_true(r)


class ConcCtx(BaseCtx):
    symbolic = False
    dtype = int
    half = False

    def __init__(self, inputs, known=()):
        super().__init__(known)
        self.inputs = inputs
        self.used = {}

    def halves(self):
        self.half = True
        self.dtype = float

    def int(self, name, lo=None, hi=None, default=None):
        if self.half and hi is None:
            v = self.used[name] = self.inputs.get(name, max(1, 2 * (lo or 0)) if default is None else 2 * default)
            return v / 2
        if default is None:
            default = 0
            if lo is not None and default < lo:
                default = lo
            if hi is not None and default > hi:
                default = hi
        v = self.inputs.get(name, default)
        self.used[name] = v
        return v

    def index(self, name, lo=None, hi=None):
        half, self.half = self.half, False
        try:
            return self.int(name, lo, hi)
        finally:
            self.half = half

    def const(self, v):
        return v

    def choice(self, name, k):
        if k <= 1:
            return 0
        v = self.int(name, 0, k - 1)
        if v >= k:
            raise PathAbort()
        return v

    def flag(self, name):
        return bool(self.choice(name, 2))

    def bv(self, name, w):
        v = self.int(name)
        return v, v

    def str(self, name, n, lo=97, hi=None):
        return "".join(chr(self.int("%s[%d]" % (name, i), lo, hi, default=lo)) for i in range(n))

    def assume(self, f):
        if not f:
            raise PathAbort()

    def conc(self, x):
        return x


def _short_tb(e, n=6):
    return traceback.format_exception_only(type(e), e)[-1].strip() + " at " + \
        " < ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-n:]))


def concrete_run(fn, cfg, inputs, known=()):
    """Run a harness on plain values. -> (status, labels, ctx)"""
    ctx = ConcCtx(inputs, known)
    try:
        fn(ctx, **cfg)
    except PathAbort:
        return "abort", [], ctx
    except Exception as e:
        return "fail", ["unexpected exception: " + _short_tb(e)], ctx
    bad = [l for l, f in ctx.obl if not f]
    return ("fail" if bad else "ok"), bad, ctx


class Stats:
    def __init__(self):
        self.paths = self.aborted = self.queries = self.obligations = self.proved = 0
        self.static = self.branches = self.validated = self.unknown = 0
        self.solver_s = 0.0
        self.incomplete = []
        self.reached = set()
        self.samples = []
        self.known_hits = {}


class Explorer:
    def __init__(self, fn, cfg, known=(), path_timeout=10.0, budget=None,
                 validate_every=25, progress=None, max_paths=None):
        self.fn, self.cfg, self.known = fn, cfg, set(known)
        self.path_timeout = path_timeout
        self.deadline = time.time() + budget if budget else None
        self.validate_every = validate_every
        self.progress = progress
        self.max_paths = max_paths
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", 20000)
        self.frames = []
        self.st = Stats()

    # solver stack kept in step with the entries of the run
    def _sync(self, conds):
        k = 0
        fr = self.frames
        while k < len(fr) and k < len(conds) and fr[k].eq(conds[k]):
            k += 1
        if k < len(fr):
            self.solver.pop(len(fr) - k)
            del fr[k:]
        for c in conds[k:]:
            self.solver.push()
            self.solver.add(c)
            fr.append(c)

    def _check(self, extra):
        t = time.time()
        self.solver.push()
        self.solver.add(extra)
        r = self.solver.check()
        self.st.queries += 1
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.st.solver_s += time.time() - t
        if r == z3.unknown:
            self.st.unknown += 1
        return r, m

    def _inputs(self, m, run):
        out = {}
        for n, (z, d) in run.vars.items():
            v = m.eval(z, model_completion=False)
            if z3.is_int_value(v) or z3.is_bv_value(v):
                out[n] = v.as_long()
            elif z3.is_rational_value(v):
                from fractions import Fraction
                out[n] = Fraction(v.numerator_as_long(), v.denominator_as_long())
            else:
                out[n] = run.inputs.get(n, d)
        return out

    def _execute(self, item):
        inputs, bound, excl, expect = item
        run = core.Run(inputs, bound, excl, expect)
        ctx = SymCtx(run, self.known)
        core.RUN = run
        status, err = "ok", None
        if self.path_timeout:
            signal.setitimer(signal.ITIMER_REAL, self.path_timeout)
        try:
            self.fn(ctx, **self.cfg)
        except PathAbort:
            status = "abort"
        except PathTimeout:
            status = "timeout"
        except PathLimit:
            status = "limit"
        except Divergence as e:
            status, err = "diverged", str(e)
        except Unsupported as e:
            status, err = "unsupported", str(e)
        except RecursionError as e:
            status, err = "exception", "RecursionError"
        except Exception as e:
            status, err = "exception", _short_tb(e)
        finally:
            if self.path_timeout:
                signal.setitimer(signal.ITIMER_REAL, 0)
            core.RUN = None
        return run, ctx, status, err

    def explore(self):
        """-> list of candidate counterexamples [(inputs, label)]"""
        st = self.st
        work = [({}, 0, {}, [])]
        cands = []

        def alarm(*a):
            raise PathTimeout()
        old = signal.signal(signal.SIGALRM, alarm)
        try:
            while work:
                if (self.deadline and time.time() > self.deadline) or (self.max_paths and st.paths >= self.max_paths):
                    st.incomplete.append("budget: %d paths explored, %d or more left" % (st.paths, len(work)))
                    break
                item = work.pop()
                if self.progress:
                    self.progress(item[0])
                run, ctx, status, err = self._execute(item)
                st.paths += 1
                if status == "diverged":
                    # nondeterminism the harness does not control
                    run, ctx, status, err = self._execute(item)
                    if status == "diverged":
                        return [(item[0], "ENGINE nondeterministic: " + err)]
                conds = [e.cond for e in run.entries]
                bound = item[1]
                self._sync(conds[:bound])
                new = []
                for i in range(bound, len(conds)):
                    e = run.entries[i]
                    if e.flip:
                        st.branches += 1
                        r, m = self._check(e.neg)
                        if r == z3.sat:
                            inp = self._inputs(m, run)
                            if e.multi is not None:
                                new.append((inp, i, {i: list(e.excl)}, conds[:i]))
                                if len(e.excl) > 300:
                                    st.incomplete.append("value enumeration cut")
                                    new.pop()
                            else:
                                new.append((inp, i + 1, {}, conds[:i] + [e.neg]))
                        elif r == z3.unknown:
                            st.incomplete.append("solver unknown on a branch")
                    self.solver.push()
                    self.solver.add(e.cond)
                    self.frames.append(e.cond)
                work.extend(new)
                if status == "abort":
                    st.aborted += 1
                    continue
                if status == "unsupported":
                    st.incomplete.append("not encodable: " + err)
                    continue
                st.reached |= ctx.reached
                full = dict((n, run.inputs.get(n, d)) for n, (z, d) in run.vars.items())
                if status in ("exception", "timeout", "limit"):
                    label = {"exception": "unexpected exception: %s" % err,
                             "timeout": "does not terminate within %gs" % self.path_timeout,
                             "limit": "does not terminate (branch limit)"}[status]
                    if not self._real(full):
                        st.incomplete.append("engine: %s; not so on plain values" % label)
                        continue
                    ctx.obl.append((label, False))
                c = self._discharge(run, ctx, full)
                if c:
                    cands.append(c)
                    break
                if self.validate_every and (st.paths - 1) % self.validate_every == 0:
                    s, bad, cctx = concrete_run(self.fn, self.cfg, full, self.known)
                    if s == "fail" and not any(_holds(r) for _, r in cctx.regions):
                        return [(full, bad[0])]
                    if s == "ok":
                        st.validated += 1
                        if len(st.samples) < 2:
                            st.samples.append({"inputs": {k: str(v) for k, v in full.items()},
                                               "pc_len": len(conds),
                                               "assertions": [l for l, _ in ctx.obl][:4]})
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        return cands

    def _real(self, inputs):
        """Does the harness also fail (or not end) on plain values?"""
        if self.path_timeout:
            signal.setitimer(signal.ITIMER_REAL, self.path_timeout)
        try:
            s, _, _ = concrete_run(self.fn, self.cfg, inputs, self.known)
            return s == "fail"
        except PathTimeout:
            return True
        finally:
            if self.path_timeout:
                signal.setitimer(signal.ITIMER_REAL, 0)

    def _discharge(self, run, ctx, full):
        st = self.st
        regions = Or([r for _, r in ctx.regions])
        st.obligations += len(ctx.obl)
        goal = And([f for _, f in ctx.obl])
        if not ctx.obl:
            st.incomplete.append("path without assertion")
            return None
        if goal is True:
            # the assertions became ground facts along this path
            st.static += len(ctx.obl)
            return None
        for fid, reg in ctx.regions:
            r, m = self._check(_zb(And(Not(goal), reg)))
            if r == z3.sat:
                st.known_hits.setdefault(fid, (self._inputs(m, run), [l for l, f in ctx.obl if f is not True][0]))
        if regions is True:
            return None
        r, m = self._check(_zb(And(Not(goal), Not(regions))))
        if r == z3.unsat:
            st.proved += len(ctx.obl)
            return None
        if r == z3.unknown:
            st.incomplete.append("solver unknown on an assertion")
            return None
        inp = self._inputs(m, run)
        label = "?"
        for l, f in ctx.obl:
            if f is False or (z3.is_expr(f) and z3.is_false(m.eval(f, model_completion=True))):
                label = l
                break
        return (inp, label)


def _holds(f):
    return bool(f) if not z3.is_expr(f) else False
