#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.realpath(__file__)); sys.path.insert(0, HERE)
import config
V = os.path.dirname(HERE)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = ("Every call recorded from the library built from /repo's working tree is checked by TLC to be a step of the TLA+ specification of libdfp (spec/), on boundary-biased, coverage-guided and specification-generated inputs and histories. "
        "Bounded by the inputs tried. Trusts TLC, the decoder in harness/val.c and the compiler's decimal support.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in config.CHECKS:
        checks.append({"property": i, "quick_cmd": "tools/check.py " + i, "thorough_cmd": "tools/check.py %s --thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": config.CHECKS[i].get("technique", "TLA+ specification, TLC trace validation of recorded library histories"), "level": "model_checking",
                       "level_note": config.CHECKS[i].get("note", NOTE)})
    else: na.append({"property": i, "reason": config.NA.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the library is driven through its public API. See DESIGN.md; known-findings.txt lists repaired and recorded defects."}, open(V + "/MANIFEST.json", "w"), indent=1)
