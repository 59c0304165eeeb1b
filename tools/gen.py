#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i, p in PROPS.items():
        a = {"files": p["files"], "mechanism": p["mech"]}
        if p["state"]: a["state"] = p["state"]
        a["observe_at"] = p["observe"] or ["return value, message and parsed words of the public parser API"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = []
for i, p in PROPS.items():
    if not p["harnesses"]:
        continue
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                   "technique": "symbolic execution of the compiled real code (clang LLVM IR of /repo instrumented by engine/pass.cpp); z3 decides every branch and assertion",
                   "level": p["level"],
                   "level_note": "Holds for every input within: " + p["bounds"] + ". " + (p["note"] + " " if p["note"] else "") + "Path exploration is exhaustive within the stated bounds unless the run says otherwise; nothing is claimed outside them. Trusted: clang, the instrumentation and its runtime models, z3."})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": NOT_APPLICABLE,
           "notes": "No hooks in /repo; harnesses include /repo's headers and compile its sources."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
