#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(V, "tools", "checks.json")))
notes = json.load(open(os.path.join(V, "tools", "notes.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "See DESIGN.md. No hooks in /repo: the harness uses the exported API, the pkger command and generated programs only."}
for i in ids:
    if i not in checks:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
        continue
    n = notes.get(i, {})
    m["checks"].append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": n.get("technique", "property-based testing (rapid)"),
        "level": checks[i].get("level", "exploration"),
        "level_note": n.get("note", "Generated-input search; no proof of absence."),
    })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
