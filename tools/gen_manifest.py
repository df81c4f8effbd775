#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module checks/<id>.py is claimed."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
NA = {}
NOTE = ("Bounded: every input, operation history and task order within the bounds in the evidence file is covered (all feasible paths, "
        "each branch and assertion decided by z3); nothing is claimed beyond them. Trusts the proxies (cross-checked by running path "
        "witnesses on plain values), z3, CPython and the environment stubs listed as assumptions.")
TECH = "concolic symbolic execution of the real code on z3 proxies; z3 decides every branch flip and assertion; counterexamples replayed"
over = {"C41": TECH + "; the assertions compare CPython's reference counts with the references that exist, on every path the solver finds feasible"}
checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)["id"]
    if (V / "checks" / (p.lower() + ".py")).exists():
        checks.append(dict(property=p, quick_cmd="python3-vt /verif/run.py %s quick" % p,
                           thorough_cmd="python3-vt /verif/run.py %s thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=over.get(p, TECH), level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=p, reason=NA.get(p, "no check built yet")))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, sys; sys.exit(0)'", checks=checks, not_applicable=na)
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed", len(na), "not")
