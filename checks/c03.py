import contextlib
import ctypes
import importlib.util
import os
import z3
from symex.api import *
from symex import llvmir
import pydatastructs
import pydatastructs.linear_data_structures.algorithms as A
from pydatastructs import OneDimensionalArray as ODA, DynamicOneDimensionalArray as DODA, Backend
from checks import c01

BOUNDS = {
    "quick": "C++: arrays of up to 5 cells (order and duplicates), up to 4 cells with None anywhere, every slice, four comparators, dynamic arrays of 4 with a deletion, 9, 17 and 20 cells in four patterns with one free value, 100 seeded arrays per algorithm of 6 to 23 cells with empty cells, any slice and comparator, fixed or dynamic, with one or two free values; LLVM kernels: every array of up to 4 native elements of each type (all bit patterns; floats: every non-NaN value), one guard cell on each side; LLVM entry point: 3 cells with values in 0..2 or None, every slice",
    "thorough": "C++ up to 6 cells; LLVM kernels up to 5 elements; LLVM entry point 4 cells"}
ASSUMPTIONS = ["elements are totally ordered numbers (no NaN)", "the JIT compiles the final IR faithfully (each path is also run through the real machine code on its witness)",
               "comparators return bool"]
UNITS = ["C++: quick_sort, bubble_sort, selection_sort, insertion_sort, bubble_sort_llvm, selection_sort_llvm (machine code, branches on data observed at the object protocol)",
         "LLVM IR of bubble and selection sort for int32/int64/float32/float64"]
ALGS = ["quick_sort", "bubble_sort", "selection_sort", "insertion_sort"]
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(pydatastructs.__file__)))


class Elem:
    """Element type for compiled arrays: accepts any number."""


def _dtype(ctx):
    return ctx.dtype


def sort_cpp(ctx, alg, n, comp, nones, slice_, extra=None):
    arr = ODA(_dtype(ctx), n, backend=Backend.CPP)
    xs = []
    for i in range(n):
        if nones and ctx.flag("none%d" % i):
            xs.append(None)
        else:
            xs.append(ctx.int("x%d" % i))
            arr[i] = xs[-1]
    s, e, kw = c01.kwargs(ctx, alg, comp, slice_, n, extra)
    desc = c01.COMPS[comp][1] if comp else False
    getattr(A, alg)(arr, backend=Backend.CPP, **kw)
    ctx.reach("sorted")
    c01.spec(ctx, xs, [arr[i] for i in range(len(arr))], s, e, desc, "C++ " + alg)


def sort_cpp_dynamic(ctx, alg, n, dels, comp):
    xs = [ctx.int("x%d" % i) for i in range(n)]
    arr = DODA(_dtype(ctx), 0, backend=Backend.CPP)
    for x in xs:
        arr.append(x)
    for d in range(dels):
        arr.delete(ctx.choice("del%d" % d, n))
    size = len(arr)
    live = [arr[i] for i in range(size) if arr[i] is not None]
    ctx.assume(len(live) > 0)
    s, e, kw = c01.kwargs(ctx, alg, comp, False, size, None)
    getattr(A, alg)(arr, backend=Backend.CPP, **kw)
    ctx.reach("sorted")
    after = [arr[i] for i in range(len(arr))]
    out = [x for x in after if x is not None]
    ctx.check(len(out) == len(live) and is_perm(out, live), "C++ %s: dynamic array lost or gained values" % alg)
    ctx.check(sorted_nd(out, c01.COMPS[comp][1] if comp else False), "C++ %s: dynamic array not in order" % alg)
    ctx.check(all(x is not None for x in after[:len(live)]), "C++ %s: None entries are not last" % alg)
    y = ctx.int("y")
    arr.append(y)
    ctx.check(seq_eq([arr[i] for i in range(len(arr)) if arr[i] is not None], out + [y]), "C++ %s: append after sorting" % alg)


def long_cpp(ctx, alg, sizes, comp):
    c01.sort_long(ctx, alg, sizes, comp, (Backend.CPP, lambda arr, kw: getattr(A, alg)(arr, backend=Backend.CPP, **kw)))


def seeded_cpp(ctx, alg, seeds):
    c01.sort_seeded(ctx, alg, seeds, (Backend.CPP, lambda arr, kw: getattr(A, alg)(arr, backend=Backend.CPP, **kw)))


# ---- LLVM kernels ---------------------------------------------------------------
_mod = None


def llvm_module():
    global _mod
    if _mod is None:
        p = os.path.join(ROOT, "pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py")
        spec = importlib.util.spec_from_file_location("llvm_algorithms_under_test", p)
        _mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_mod)
    return _mod


_cache = {}


def kernel(alg, dtype):
    """(final IR text, machine address) as produced by the real code."""
    if (alg, dtype) not in _cache:
        m = llvm_module()
        got = []
        real = m.binding.create_mcjit_compiler

        def tap(mod, tm):
            got.append(str(mod))
            return real(mod, tm)
        m.binding.create_mcjit_compiler = tap
        try:
            addr = getattr(m, "get_%s_ptr" % alg)(dtype)
        finally:
            m.binding.create_mcjit_compiler = real
        _cache[(alg, dtype)] = (got[-1] if got else None, addr)
    return _cache[(alg, dtype)]


def llvm_kernel(ctx, alg, dtype, n):
    text, addr = kernel(alg, dtype)
    t, w = {"int32": ("i32", 32), "int64": ("i64", 64), "float32": ("float", 32), "float64": ("double", 64)}[dtype]
    isf = t in ("float", "double")
    ids = ["g0"] + ["x%d" % i for i in range(n)] + ["g1"]
    vals = [ctx.bv(i, w) for i in ids]
    if ctx.symbolic:
        if text is None:
            raise Unsupported("code shared with another kernel")
        cells = {}
        for k, (z, c) in enumerate(vals):
            if isf:
                fz = z3.fpBVToFP(z, llvmir.fsort(t))
                ctx.assume(z3.Not(z3.fpIsNaN(fz)))
                cells[k - 1] = llvmir.Val(t, fz, llvmir.bits_to_float(c, t), k)
            else:
                cells[k - 1] = llvmir.Val(t, z, c, k)
        before = dict(cells)
        m = llvmir.Machine(text)
        mem = {"arr": cells, "elem": w // 8}
        try:
            (name,) = [f for f in m.fns]
            m.call(name, [llvmir.Ptr("arr", 0), llvmir.Val("i32", None, n)], mem)
        except llvmir.OutOfBounds as e:
            raise Unsupported("access beyond the guard cells: %s" % e) if n == 0 else e
        ctx.reach("returned")
        out = [cells[i] for i in range(n)]
        if isf:
            ctx.check(And([z3.fpLEQ(a.term(), b.term()) for a, b in zip(out, out[1:])]), "%s %s: not in order" % (alg, dtype))
        else:
            ctx.check(And([a.term() <= b.term() for a, b in zip(out, out[1:])]), "%s %s: not in order" % (alg, dtype))
        if sorted(o.src or 0 for o in out) == list(range(1, n + 1)):
            ctx.check(True, "values preserved")
        else:
            cnt = lambda v, xs: Sum([v.term() == x.term() for x in xs])
            ins = [before[i] for i in range(n)]
            ctx.check(And([cnt(v, ins) == cnt(v, out) for v in ins + out]), "%s %s: values not preserved" % (alg, dtype))
        for g in (-1, n):
            ctx.check(True if cells[g] is before[g] else cells[g].term() == before[g].term(), "%s %s: wrote outside the array" % (alg, dtype))
        return
    ct = {"int32": ctypes.c_int32, "int64": ctypes.c_int64, "float32": ctypes.c_float, "float64": ctypes.c_double}[dtype]
    ut = ctypes.c_uint32 if w == 32 else ctypes.c_uint64
    raw = (ut * (n + 2))(*[v for v, _ in vals])
    view = ctypes.cast(raw, ctypes.POINTER(ct))
    before = [view[i] for i in range(n + 2)]
    ctx.assume(all(x == x for x in before))
    fn = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_int32)(addr)
    fn(ctypes.addressof(raw) + w // 8, n)
    after = [view[i] for i in range(n + 2)]
    ctx.check(all(a <= b for a, b in zip(after[1:n + 1], after[2:n + 1])), "%s %s: not in order" % (alg, dtype))
    ctx.check(sorted(before[1:n + 1]) == sorted(after[1:n + 1]), "%s %s: values not preserved" % (alg, dtype))
    ctx.check(before[0] == after[0] and before[-1] == after[-1], "%s %s: wrote outside the array" % (alg, dtype))


KERNELS = [(a, d) for a in ("bubble_sort", "selection_sort") for d in ("int32", "int64", "float32", "float64")]


def llvm_release(ctx):
    """Kernels chosen in any order can be created and released again, in a child process."""
    ks = [KERNELS[ctx.choice("kernel%d" % i, len(KERNELS))] for i in range(2)]
    pid = os.fork()
    if pid == 0:
        rc = 3
        try:
            global _mod
            _mod = None
            m = llvm_module()
            for a, d in ks:
                getattr(m, "get_%s_ptr" % a)(d)
            m._cleanup()
            rc = 0
        finally:
            os._exit(rc)
    ctx.reach("released")
    st = os.waitpid(pid, 0)[1]
    ctx.check(st == 0, "generated code cannot be released (status %d)" % st)


@contextlib.contextmanager
def in_root():
    # the entry point looks for its code generator relative to the source root
    old = os.getcwd()
    os.chdir(ROOT)
    try:
        yield
    finally:
        os.chdir(old)


def llvm_entry(ctx, alg, n, dtype, backend, dynamic=False, slice_=True):
    py = float if dtype and dtype.startswith("float") else int
    arr = (DODA if dynamic else ODA)(py, *([0] if dynamic else [n]), backend=Backend.CPP if backend == "cpp" else Backend.PYTHON)
    xs = []
    for i in range(n):
        if not dynamic and ctx.flag("none%d" % i):
            xs.append(None)
            continue
        # this entry point copies values into native buffers: enumerated by the solver
        xs.append(py(int(ctx.int("x%d" % i, 0, 2)) - 1))
        if dynamic:
            arr.append(xs[-1])
        else:
            arr[i] = xs[-1]
    if dynamic:
        arr.delete(ctx.choice("del", n))
        xs = [arr[i] for i in range(len(arr))]
    kw = {}
    s, e = 0, len(xs) - 1
    if slice_:
        s = ctx.choice("start", n)
        e = s + ctx.choice("len", n - s)
        kw = dict(start=s, end=e)
    if dtype:
        kw["dtype"] = dtype
    with in_root():
        getattr(A, alg)(arr, backend=Backend.LLVM, **kw)
    ctx.reach("sorted")
    after = [arr[i] for i in range(len(arr))]
    if dynamic:
        live = [x for x in xs if x is not None]
        ctx.check(after[:len(live)] == sorted(live) and all(x is None for x in after[len(live):]), "LLVM %s: dynamic array" % alg)
        arr.append(py(5))
        ctx.check([arr[i] for i in range(len(arr)) if arr[i] is not None] == sorted(live) + [5], "LLVM %s: append after sorting" % alg)
    else:
        c01.spec(ctx, xs, after, s, e, False, "LLVM " + alg)


def jobs(tier):
    q = tier == "quick"
    out = []
    for alg in ALGS:
        out.append(Job(alg + "/plain", sort_cpp, dict(alg=alg, n=5 if q else 6, comp=None, nones=False, slice_=False), reach=["sorted"]))
        for c in [None, "ge", "lt", "gt"]:
            out.append(Job("%s/slice/%s" % (alg, c), sort_cpp, dict(alg=alg, n=4, comp=c, nones=True, slice_=True), reach=["sorted"]))
        out.append(Job(alg + "/dynamic", sort_cpp_dynamic, dict(alg=alg, n=4, dels=1, comp=None), reach=["sorted"]))
        out.append(Job(alg + "/dynamic-ge", sort_cpp_dynamic, dict(alg=alg, n=4 if q else 5, dels=2, comp="ge"), reach=["sorted"]))
        out.append(Job(alg + "/seeded", seeded_cpp, dict(alg=alg, seeds=100 if q else 500), reach=["sorted"], validate_every=100, path_timeout=30))
        for c in ("gt",) if q else (None, "gt"):
            out.append(Job("%s/long/%s" % (alg, c), long_cpp, dict(alg=alg, sizes=[9, 17, 20] if q else [8, 9, 16, 17, 24, 33, 40], comp=c), reach=["sorted"], validate_every=100))
    out.append(Job("quick_sort/pivot", sort_cpp, dict(alg="quick_sort", n=4, comp=None, nones=False, slice_=False, extra="pivot"), reach=["sorted"]))
    for alg in ("bubble_sort", "selection_sort"):
        for d in ("int32", "int64", "float32", "float64"):
            for n in range(0, 5 if q else 6):
                out.append(Job("kernel/%s/%s/%d" % (alg, d, n), llvm_kernel, dict(alg=alg, dtype=d, n=n), reach=["returned"], validate_every=1, path_timeout=60))
        for d in (None, "int32", "int64", "float32", "float64"):
            out.append(Job("entry/%s/%s" % (alg, d), llvm_entry, dict(alg=alg, n=3 if q else 4, dtype=d, backend="cpp"), reach=["sorted"], path_timeout=60, validate_every=200))
        out.append(Job("entry/%s/py" % alg, llvm_entry, dict(alg=alg, n=3, dtype=None, backend="py"), reach=["sorted"], path_timeout=60, validate_every=200))
        out.append(Job("entry/%s/dynamic" % alg, llvm_entry, dict(alg=alg, n=3, dtype=None, backend="cpp", dynamic=True, slice_=False), reach=["sorted"], path_timeout=60, validate_every=200))
    out.append(Job("llvm/release", llvm_release, {}, reach=["released"], path_timeout=60, validate_every=50))
    return out
