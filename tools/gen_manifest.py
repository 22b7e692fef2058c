"""Writes MANIFEST.json from the table of entries and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import TABLE, BOUNDS, OUTSIDE, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TABLE:
        checks.append(dict(
            property=i,
            quick_cmd=f"python3 tools/check.py {i}",
            thorough_cmd=f"python3 tools/check.py {i} --thorough",
            evidence_file=f"evidence/{i}.json",
            technique="symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3)",
            level="model_checking",
            level_note=f"Bounded: holds for every value within: {BOUNDS[i]}. Outside the claim: {OUTSIDE[i]}. Trusts rustc's "
                       "lowering, the executor in /verif/engine (checked against native replays of its paths on every run) and z3."))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/build.py", checks=checks, not_applicable=na,
               notes="No hooks: the harnesses use the public API only."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
