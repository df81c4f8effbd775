#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the texts here, properties.jsonl, the checks' stated bounds, known_findings.txt and seeded/."""
import ast, json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent

TOP = """# Solver-based checking of pydatastructs

This file is written by `tools/gen_design.py` (texts in that file; bounds are read from the checks).

## Method

`symex/` is a concolic symbolic-execution engine for the real code.  Every check makes a scratch copy of /repo's current
working tree, rebuilds all C++ extensions from it and imports the copied Python modules; nothing of the encoding is
stored.  A harness in `checks/` builds structures from symbolic numbers, symbolic strings and solver-chosen choices and
calls the public API.

* **Values** (`symex/core.py`) are proxies that carry a z3 term and the concrete value under the current assignment.
  Comparison, arithmetic, truth, hashing, indexing and conversion act on both; each decision that depends on a term is
  recorded as a branch.  Integers are unbounded mathematical integers (Python's are too); jobs selected by a check's
  `HALVES` run a second time (`*/half`) on fractional values, every multiple of 1/2 within 2^29 (replayed as floats, which
  hold them exactly; conversion to an index or an int that drops the fraction shows), where the solver's mixed
  integer-real reasoning is quick enough; strings are sequences of
  symbolic code points; choices (`ctx.choice`, `ctx.flag`, `ctx.permutation`) are bounded symbolic integers, so
  histories, graph shapes, schedules and coin tosses are solver variables as well.
* **Exploration** (`symex/explore.py`) is depth first over branch flips.  For each path the solver decides
  `path condition and not assertion` for every assertion (unsat = holds for every input that takes the path), and decides
  for every branch whether the other direction is feasible.  It ends when no feasible flip is left: then all inputs
  within the declared bounds are covered, which is a verdict of the solver, not a sample.  Anything cut off (path time,
  number of paths, budget, an unbounded value used as an index) makes the job *incomplete*, which the evidence states and
  which is never counted as shown.
* **Compiled code**.  The C++ extensions are generic over Python objects: the machine code compares keys through the rich
  comparison protocol and calls back comparators, i.e. it *is* executed on the proxies, and its data-dependent branches
  are decided by the same recorded comparisons.  What is native in C++ (indices, edge costs as doubles, names) is made of
  solver choices among stated values.  The LLVM sorting kernels are executed symbolically from their IR
  (`symex/llvmir.py`) over bit-vectors and IEEE floats with a memory model that reports accesses outside the array; the
  IR is generated by the repository's generator at run time.
* **Schedules**.  Thread pools are replaced by a pool that runs each submitted task at a solver-chosen moment
  (`symex/stubs.py`); randomness (`random`, `rand`) is replaced by solver choices.
* **Counterexamples** are replayed with plain Python values against the same build without the engine; only a violation
  that replays is reported (`VIOLATION ... replay=<json>`; `python3-vt run.py --replay FILE` runs it again).  A
  counterexample that does not replay is an engine error: exit 2, not a violation.  A worker that dies (segmentation
  fault in compiled code) is replayed in a separate process and reported likewise.
* **Validation of the encoding.** A share of the paths of every job is run concretely on its witness and must agree.
  Every job names events it must reach (`reach`); a job that reaches none of them is vacuous: exit 2.

Exit codes: 0 quiet (also when incomplete; the evidence says so), 1 violation, 2 the check itself is broken.
Evidence per run: functions encoded (from coverage of the paths), bounds, jobs complete, queries, solver seconds.

### Why not elsewhere

CBMC, Kani and the like do not read Python or CPython extension code; CrossHair was tried first and rejected: it does not
see through the C extensions, replaces containers by its own and could not finish histories of three tree operations.
Nothing is under `not_applicable`: each property has a bounded decision by this method.  Where part of a property's inputs
is not symbolic, its entry says so.

### Limits

* All verdicts are within the bounds listed; nothing is claimed beyond them.
* Larger structures are reached by *shaped* starting states (fixed or seeded histories) followed by free operations; the
  free operations are decided for all values, the shapes are a finite set chosen by a solver variable.
* Edge costs in C++ graphs, indices given to C++ code and vertex names are chosen from stated values.
* Pools interleave whole tasks, not bytecodes.
* Floating-point arithmetic is exact only in the LLVM kernels; elsewhere numbers are integers (some jobs use concrete
  halves to see conversions).
* Memory leaks are not a property here: C41 is about objects freed too early.
"""

NOTES = {
"C01": "Output compared with the input: a permutation outside of which nothing moved, ordered by the comparator, None last. Task order of the parallel sorts and the pivot rule are solver choices.",
"C02": "Same oracle; digits and buckets are decided by forking on the values, hence the bounded values.",
"C03": "C++ sorts run as machine code on symbolic elements; LLVM kernels are executed from the IR that the repository's generator produces at run time, on arrays of symbolic native values with guard cells; plus entry-point runs and a process-exit test of the generated kernels.",
"C04": "Oracle: position of the first/any equal element, or None; ordered-check against pairwise order of neighbours.",
"C05": "Oracle: the first position not before, or after, the value.",
"C06": "Oracle: no longer increasing (common) subsequence exists, by enumeration of index sets as one formula; permutation steps against the definition (least greater arrangement).",
"C07": "Each entry equals the sum of products as a polynomial identity; mismatching shapes must raise.",
"C08": "A model list; every cell is compared after every access, any unbounded index, so a write that lands elsewhere is seen.",
"C09": "A model of cells with holes; content, counts, last filled position, no lost element across growth and compaction.",
"C10": "Model sequence; after each operation links forward and backward, head, tail, size, lookup and search.",
"C11": "As C10 plus closure of the circle in both directions.",
"C12": "Multiset model; every coin toss is a solver variable; levels are sublists of one another with consistent down links.",
"C13": "Model sequence, all observers after each operation.",
"C14": "Model deque, all observers after each operation.",
"C15": "The popped value is one of the best priority, each pushed value leaves once; default and given comparators.",
"C16": "Heap order at every node after every operation, multiset of (key, data) kept, extraction order.",
"C17": "Binomial shape, heap order, distinct orders, multiset of (key, data), minimum, decrease-key and delete.",
"C18": "Structural reader (links both ways, every node once, size) plus map model by data tags.",
"C19": "C18 plus heights and the balance condition at every node.",
"C20": "C18 plus colours: black root, no red child of a red node, equal black heights.",
"C21": "C18 plus: the operated key is at the root; join and split against the model.",
"C22": "C18 plus heap order of priorities; priorities are symbolic (Python) or driven through the C library's generator (C++).",
"C23": "Answers compared with the sorted model at free query keys and every position or pair.",
"C24": "Sequences computed from the links by the definitions.",
"C25": "Sums over the model as linear identities.",
"C26": "Aggregates over the model; ordered concatenation of symbolic tokens stands for every associative function.",
"C27": "The set of intervals that contain the query point.",
"C28": "Partition model; roots, sizes, members, data.",
"C29": "Counting model; bounds against the sorted distinct values.",
"C30": "Occurrences by the definition, over all texts and queries of symbolic characters; hash collisions are solver-reachable in Rabin-Karp.",
"C31": "Set-of-words model, queried with all prefixes and a free word.",
"C32": "Model of vertices and weighted edges; all queries on all vertices and pairs after each operation.",
"C33": "Reachability, levels and parents by the definition from the edge set; callback protocol; task order of the parallel search.",
"C34": "Spanning tree and minimal total weight: the weight is at most that of every spanning tree, as one formula over unbounded weights.",
"C35": "Distance is at most the weight of every simple path and equal to one of them, predecessors realise it, negative cycles reported; unbounded weights.",
"C36": "As C35 for all pairs.",
"C37": "Every edge goes forward; cyclic graphs are reported.",
"C38": "Mutual reachability by the definition.",
"C39": "The value is at most every cut and equals one, as one formula over unbounded capacities.",
"C40": "Removal of the edge separates its ends, by the definition.",
"C41": "Elements are fresh objects; after every step each object's reference count (sys.getrefcount) is at least the number of references that exist in the containers' cells, in results and in the harness. Reads no freed memory.",
"C42": "The text is parsed back (symbolic values print as literals that stand for their terms) and compared with the model, or the links for trees.",
"C43": "Requests outside the supported combinations; the solver chooses function, backend, name and arguments; the observable is the kind of exception and that arguments are unchanged.",
}

MID = """
## Defects found in the repository

Every violation on the unchanged tree was replayed against the real code and is either repaired by a `fix:` commit or
recorded as a finding.  `known_findings.txt` lists them all with commit ids.  The two findings that are recorded rather
than repaired:

* `graph-edge-key` (C32): edge data are stored under the joined text `source_target`; vertices `a`, `b_c`, `a_b`, `c` make
  two edges share one key.  A repair changes the public key format that tests and callers read (`edge_weights`).
* `graph-attribute-names` (C32): Python adjacency-list nodes keep neighbours as attributes of the node object, so a
  neighbour named like an attribute collides.  A repair changes the public way neighbours are stored.

## False alarms met and what was done

* C39: a changed residual update (`min(fp, -new_flow)`) was suspected and shown equivalent; no property was added for it.
* C05/C04: empty slices were first specified to raise; the code's documented meaning is `start`/None: the property was
  corrected.
* C18: keys given to a constructor without data are ignored by design (`Key required` logic); the checks give data.
* C15: the binomial-heap queue documents ascending order only; a comparator is not given to it.
* C17: a heap merged into another is not used again (its trees are shared by design).
* C12: `extract` need not keep the number of levels minimal; only sublist structure is required.
* C42: the array stack prints its free cells as None after the values (an existing test pins this); only the values and
  the absence of other values are required there.

## Planted bugs

Each is written from a property's text and the code, passes the existing tests and has a demonstration.
"""

BOTTOM = """
### Mutation campaign

`/tmp` tooling (not part of the checks) generated 2993 one-token mutants of the Python code (comparison and arithmetic
operators, constants, dropped conditions and statements, flipped flags, swapped attributes) and kept those that pass the
repository's tests; the checks mapped to the mutated function were run on samples of them.  Misses were read one by one;
the checks were strengthened for real ones (C08 wrong number of indices, C03 releasing kernels, C13/C14 a drained
container that is used with another type of value, C42 printed forms, C43 refused requests), the others do not change
behaviour a property speaks of (dropped backend arguments before a refusal, initial values that are overwritten,
equivalent conditions, error texts, trimming of empty skip-list levels).
"""


def bounds(pid):
    f = V / "checks" / (pid.lower() + ".py")
    for n in ast.parse(f.read_text()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS"):
            try:
                yield n.targets[0].id, ast.literal_eval(n.value)
            except ValueError:
                pass


props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
kf = (V / "known_findings.txt").read_text().splitlines()
o = [TOP, "## Properties\n"]
for p in props:
    pid = p["id"]
    b = dict(bounds(pid))
    if pid == "C11":
        b.setdefault("BOUNDS", "as C10, on circular lists")
    o.append("### %s %s\n" % (pid, p["title"]))
    o.append("*Oracle.* %s  " % NOTES[pid])
    B = b.get("BOUNDS", "")
    if isinstance(B, dict):
        o.append("*Bounds, quick.* %s.  \n*Thorough.* %s.  " % (B["quick"], B["thorough"]))
    elif B:
        o.append("*Bounds.* %s.  " % B)
    if b.get("ASSUMPTIONS"):
        o.append("*Assumed.* %s.  " % "; ".join(b["ASSUMPTIONS"]))
    o.append("*Beyond tests.* %s  " % p["why_tests_cant"])
    n = sum(l.startswith("fixed: property=%s " % pid) for l in kf)
    if n:
        o.append("*Repaired.* %d defect%s." % (n, "s" if n > 1 else ""))
    o.append("")
o.append(MID)
o.append("| planted bug | property | what it needs | caught by |\n|---|---|---|---|")
caught = json.loads((V / "tools" / "caught.json").read_text()) if (V / "tools" / "caught.json").exists() else {}
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    o.append("| %s | %s | %s | %s |" % (d.name, m["property"], m["needs"], caught.get(d.name, m["property"])))
o.append(BOTTOM)
(V / "DESIGN.md").write_text("\n".join(o))
print(len("\n".join(o)))
