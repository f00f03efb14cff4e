#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plans; properties without one are listed as not applicable (yet)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
V = plans.VERIF
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in plans.PLANS:
        na.append(dict(property=i, reason="no check yet"))
        continue
    t, note = plans.NOTES[i]
    checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i, technique=t, level="exploration", level_note=note))
json.dump(dict(version=1, setup_cmd="python3 tools/build.py plain asan tsan memcheck" + (" fuzz" if os.path.exists(os.path.join(V, "harness/fuzz.cpp")) else ""),
               checks=checks, not_applicable=na,
               notes="No hooks in /repo are needed. Every check builds the library from /repo's working tree (tools/build.py), replays a failure with `python3 tools/check.py <id> --replay <file>`, and takes VERIF_SEED."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
