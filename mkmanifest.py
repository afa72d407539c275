#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks (run by hand after changes)."""
import json, sys
sys.dont_write_bytecode = True
from check import TABLE
from levels import NOTES, TECH

props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    if p in TABLE:
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s" % p,
            "thorough_cmd": "python3 check.py %s --thorough" % p,
            "technique": TECH[p],
            "level": TABLE[p][1],
            "level_note": NOTES[p],
        })
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specification in spec/, checked with TLC; conformance harness in harness/ (Rust); see DESIGN.md."}
open("MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
