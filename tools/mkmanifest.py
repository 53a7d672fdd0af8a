#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from what lib/areas.py registers."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "lib"))
sys.dont_write_bytecode = True
import areas
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in areas.CHECKS:
        tech, level, note = areas.ABOUT[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i,
                           thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=areas.NOT_APPLICABLE.get(i, "no check registered yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harness builds the unmodified sources with a forced include (harness/shim.h). "
               "Every check writes only under /verif/.build, /verif/evidence, /verif/replay and a temporary directory.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
