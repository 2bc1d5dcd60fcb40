#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py (kept valid at all times)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks import CHECKS, NA_REASON
props = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
    checks=[], not_applicable=[],
    notes="Real sources of /repo/src compiled against an independent mini-MFEM (shim/); bounded-exhaustive exploration. See DESIGN.md.")
for pid in props:
    c = CHECKS.get(pid)
    if c:
        m["checks"].append(dict(property=pid,
            quick_cmd="python3 tools/run_check.py %s" % pid,
            thorough_cmd="python3 tools/run_check.py %s" % pid,
            technique=c["technique"], level="model_checking", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=pid, reason=NA_REASON.get(pid, "check not built yet")))
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
