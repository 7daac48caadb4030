"""Writes MANIFEST.json from props.py."""
import json
import os

import props

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.ALL:
        tech, _, _ = props.ALL[i]
        checks.append(
            {
                "property": i,
                "quick_cmd": "./check %s quick" % i,
                "thorough_cmd": "./check %s thorough" % i,
                "technique": tech,
                "level": "exploration",
                "level_note": props.NOTES.get(i, props.NOTE),
                "evidence_file": "evidence/%s.json" % i,
            }
        )
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are runtime monitoring or sanitizer runs of the real code; see DESIGN.md.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
