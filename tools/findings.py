#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix commits of /repo (run by hand)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property whose statement the defect broke, in commit order (oldest first)
PROPS = json.load(open(os.path.join(ROOT, "tools", "fix_properties.json")))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
fixed = []
for line in log:
    h, s = line.split(" ", 1)
    if s.startswith("fix:"):
        what = s[4:].strip()
        fixed.append(f"fixed: property={PROPS[what]} {h} {what}")
path = os.path.join(ROOT, "known_findings.json")
data = json.load(open(path)) if os.path.exists(path) else {"open": []}
data["fixed"] = fixed
json.dump(data, open(path, "w"), indent=1)
print(len(fixed), "fixed,", len(data["open"]), "open")
