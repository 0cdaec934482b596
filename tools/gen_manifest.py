#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the harnesses and texts.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props, texts
HOOK = "1e21726895eeba74cc62950985d7c958d4efff5e"
specs = props.load(V)
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    if i in specs and i in texts.TEXT:
        s = specs[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
            "technique": s["technique"],
            "level": props.LEVEL,
            "level_note": "Holds for every value within the bounds (no proof beyond them): " + s["explanation"] + " Bounds: " + "; ".join(s["bounds"]) + "."
                          + (" Outside: " + "; ".join(s["outside"]) + "." if s["outside"] else "") + " Trusts Kani's MIR translation, CBMC and CaDiCaL.",
        })
    else:
        na.append({"property": i, "reason": texts.NOT_APPLICABLE.get(i, "Its harnesses are not built yet.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "cfg(kani)", "enable": "cargo kani compiles with --cfg kani", "source_commits": [HOOK]},
     "notes": "See DESIGN.md; known_findings.txt lists findings and repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", [x["property"] for x in na], "not")
