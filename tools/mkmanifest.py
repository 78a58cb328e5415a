#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks

TRUST = ("Assumes the kernel's socket and process semantics as TLC, the harness and its libc interposers observe them; "
         "bounded by the model constants and the number of generated behaviours given in the evidence.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 lib/build.py",
     "checks": [], "not_applicable": [],
     "notes": "TLA+ with TLC throughout; see DESIGN.md. No hooks in /repo are needed: system calls are interposed at link level by the harness."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": checks.TECHNIQUE.get(i, "TLA+ model checking with TLC; TLC-generated behaviours replayed on the real code and recorded traces validated against the specification"),
            "level": "model_checking",
            "level_note": checks.NOTES.get(i, "") + TRUST})
    else:
        m["not_applicable"].append({"property": i, "reason": "not claimed yet: its specification module is being built (see DESIGN.md)"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
