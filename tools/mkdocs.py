#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the catalogue below (tools/catalogue.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
from catalogue import PROPS  # noqa: E402
from checks import CHECKS  # noqa: E402

with open(ROOT + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        row = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }
        if p.get("observe"):
            row["anchors"]["observe_at"] = p["observe"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(row) + "\n")

checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    assert p["id"] in CHECKS, p["id"]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "technique": p.get("technique", "property-based testing: generated inputs against an executable oracle, shrinking, libFuzzer on the same properties in the thorough tier"),
        "level": CHECKS[p["id"]]["level"],
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Every check builds the sources it needs from /repo's working tree into /verif/build (git-ignored); there are no hooks in /repo. Known findings: known_findings.txt."}
with open(ROOT + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not applicable")
