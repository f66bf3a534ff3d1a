#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks and properties.jsonl."""
import json

ENUM = "exhaustive enumeration of inputs within stated bounds against a reference model (bounded model checking of the real code)"
HIST = "exhaustive enumeration of operation histories within stated bounds on the real code against a reference model (stateless model checking)"
FAULT = "exhaustive enumeration of histories and crash points within stated bounds on the real code"

# property -> (package, technique, level, note)
CHECKS = {}


def add(pkg, ids, technique, level, note):
    for i in ids.split():
        CHECKS[i] = (pkg, technique, level, note)


exec(open("/verif/tools/checks.py").read())

props = [json.loads(l) for l in open("/verif/properties.jsonl")]
out = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": HOOKS,
    "checks": [],
    "not_applicable": [],
    "notes": NOTES,
}
for p in props:
    i = p["id"]
    if i in CHECKS:
        pkg, technique, level, note = CHECKS[i]
        out["checks"].append({
            "property": i,
            "quick_cmd": f"./run.sh {pkg} {i} quick",
            "thorough_cmd": f"./run.sh {pkg} {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": technique,
            "level": level,
            "level_note": note,
        })
    else:
        out["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "the check for this property is not built yet")})
with open("/verif/MANIFEST.json", "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not applicable")
