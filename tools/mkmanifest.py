#!/usr/bin/env python3
"""write MANIFEST.json from config.py"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import config
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 setup.py", checks=[], not_applicable=[],
  notes="Contract-based deductive verification. Verus discharges contracts on functions extracted mechanically from /repo/src on every run; Kani proves the big two-stage tables on the public API; a search over the real crate turns a broken contract into a failing input. No hooks in /repo. See DESIGN.md; findings in KNOWN_FINDINGS.")
for i in ids:
    if i in config.PROPS:
        c = config.PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
            technique=c.get("technique", "contract-based deductive verification (Verus%s)" % (" + Kani full-domain contract proofs" if c.get("kani") else "") if c["modules"] else "contract proof of the real lookup over its full domain (Kani/CBMC, loop-free, no bound)"),
            level="proof", level_note=c.get("note", "Every obligation of the listed modules is generated from /repo's current source and discharged for all inputs; trusted: see evidence trusted_base and DESIGN.md."), theorems=[]))
        if not c.get("theorems"): del m["checks"][-1]["theorems"]
        else: m["checks"][-1]["theorems"] = c["theorems"]
    else: m["not_applicable"].append(dict(property=i, reason=config.NA.get(i, "check under construction")))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
