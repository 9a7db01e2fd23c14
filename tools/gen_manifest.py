#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py (run: python3 tools/gen_manifest.py)."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks.registry import PROPERTIES, NOT_APPLICABLE      # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
missing = [i for i in ids if i not in PROPERTIES and i not in NOT_APPLICABLE]
assert not missing, missing
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": PROPERTIES[i]["technique"],
        "level": PROPERTIES[i]["level"],
        "level_note": PROPERTIES[i]["note"] if "note" in PROPERTIES[i] else PROPERTIES[i]["explain"],
    } for i in ids if i in PROPERTIES],
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE[i]} for i in ids if i not in PROPERTIES],
    "notes": "All checks read /repo's current sources on every run and never execute them. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
