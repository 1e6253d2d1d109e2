#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property in properties.jsonl that has a spec."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
import specs  # noqa: E402

checks, not_applicable = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)
    s = specs.SPECS.get(p["id"])
    if not s:
        not_applicable.append({"property": p["id"], "reason": specs.NOT_CLAIMED.get(
            p["id"], "Its check is not written yet.")})
        continue
    kinds = sorted({part.get("sanitizer", "address") for part in s["parts"].values()})
    note = "Random search, seeded, with shrinking: " + s["rule"].split("Non-trivial")[0].strip()
    note += " Built with sanitizers (%s)." % ", ".join(kinds)
    if s.get("assumptions"):
        note += " Assumes: " + "; ".join(s["assumptions"]) + "."
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 bin/check.py %s quick" % p["id"],
        "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": s["technique"],
        "level": "exploration",
        "level_note": note,
    })
manifest = {
    "version": 1,
    "setup_cmd": "python3 bin/setup.py",
    "checks": checks,
    "not_applicable": not_applicable,
    "notes": "No hooks in /repo.  A check builds the sources it needs from /repo's working tree into build/.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print("%d checks, %d not claimed" % (len(checks), len(not_applicable)))
