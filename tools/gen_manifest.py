#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and jobs.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import jobs as J
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in J.TABLE:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           technique=J.TECH.get(i, J.TECH_DEFAULT), level=J.level(i), level_note=J.note(i)))
    else:
        na.append(dict(property=i, reason=J.NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="cd sa && cargo +nightly build --release --offline", checks=checks, not_applicable=na,
         notes="Static analysis only: an abstract interpreter over rustc's monomorphic MIR of the crate in /repo plus call-graph and feature-configuration rules. Nothing of /repo is executed.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
