#!/usr/bin/env python3
"""prints the rows of DESIGN.md section 7 from seeded/*/meta.json (run by hand; no check uses it)"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); print("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"]))
