#!/usr/bin/env python3
"""setup_cmd: compile every harness once, so that the checks only recompile what changed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
import build as B
import checks as K
from concurrent.futures import ThreadPoolExecutor
err = []
def one(leg):
    try:
        B.build_leg(leg)
    except B.BuildError as e:
        err.append(str(e))
legs = [l for p in sorted(K.CHECKS) for l in K.CHECKS[p]["legs"]]
seen = set()
for l in legs:          # the library objects of each variant first
    if l["variant"] not in seen:
        seen.add(l["variant"])
        one(l)
with ThreadPoolExecutor(6) as ex:
    list(ex.map(one, legs))
for e in err[:3]:
    print(e)
print("built %d legs" % len(legs))
sys.exit(1 if err else 0)
