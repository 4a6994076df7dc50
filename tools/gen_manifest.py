#!/usr/bin/env python3
"""Writes ../MANIFEST.json from properties.jsonl and the checks which exist."""
import json, os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(root, "tools", "notes.py")).read())
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(root, "pbt", "props", pid.lower() + ".py")):
        tech, note = NOTES.get(pid, ("property-based testing (Hypothesis) of generated cases against an explicit oracle", "Exploration."))
        checks.append({
            "property": pid,
            "quick_cmd": "./check %s" % pid,
            "thorough_cmd": "./check %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": tech,
            "level": "fault_enumeration" if pid in ("K07", "K08") else "exploration",
            "level_note": note,
        })
    else:
        na.append({"property": pid, "reason": "no check has been built for it yet"})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Each check runs the code of /repo's working tree directly (pure Python, nothing to build). VERIF_REPO=<dir> points a check to another tree. Failing cases are shrunk and saved under replays/; ./check ID --replay FILE runs one again.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
