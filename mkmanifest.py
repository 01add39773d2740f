#!/usr/bin/env python3
"""Regenerate MANIFEST.json from vlib/checks.py and properties.jsonl."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(D, "vlib"))
import checks as K
props = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
NA = {}
checks = []
for p in props:
    if p not in K.CHECKS:
        continue
    k = K.CHECKS[p]
    checks.append(dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p,
                       thorough_cmd="python3 run.py %s --tier thorough" % p,
                       technique=k["technique"], level=k.get("level", "exploration"), level_note=k["note"]))
na = [dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in K.CHECKS]
m = dict(version=1, setup_cmd="python3 prebuild.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks compile the unmodified sources with sanitizers and redirect the allocator "
               "symbols of the object files (objcopy), so no guard is needed.")
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not applicable")
