#!/usr/bin/env python3
"""Regenerates MANIFEST.json from harness/specs.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "harness"))
import specs
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NA = getattr(specs, "NOT_APPLICABLE", {})
m = {"version": 1, "setup_cmd": "bin/vp setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in specs.PROPS:
        m["checks"].append({"property": i, "quick_cmd": "bin/vp check %s --tier quick" % i, "thorough_cmd": "bin/vp check %s --tier thorough" % i,
            "technique": "bounded symbolic execution of the real C sources (CBMC), SAT verdict over all inputs within the bounds, counterexamples replayed natively",
            "level": "model_checking", "level_note": specs.PROPS[i].get("note", "Bounded: holds for every value inside the loop/size bounds listed per job in the evidence; unwinding assertions are on, so the loop bounds are checked, not assumed.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check registered yet")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
