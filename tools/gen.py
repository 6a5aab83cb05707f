#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the table in props.py (run by hand after editing the table)."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import NOTES, PROPS  # noqa: E402

have = {os.path.basename(f)[:3].upper() for f in glob.glob(ROOT + "/contracts/c[0-9][0-9]_*.py")}
out, checks, na = [], [], []
for p in PROPS:
    files = p["files"]
    d = {
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p.get("over", ["inputs"]), "text": p["for_all"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": ["src/aws/osml/" + f for f in files],
                    "mechanism": [{"name": m.split("@")[0].strip(), "where": "src/aws/osml/" + m.split("@")[1].strip()} for m in p["mech"]],
                    "hook_needed": None},
    }
    assert len(p["title"]) <= 80, p["title"]
    if p["id"] not in have:
        if "na" in p:
            na.append({"property": p["id"], "reason": p["na"]})
            out.append(d)
        continue
    out.append(d)
    checks.append({
        "property": p["id"],
        "quick_cmd": f"/opt/venv/bin/python -m pvc.check {p['id']}",
        "thorough_cmd": f"/opt/venv/bin/python -m pvc.check {p['id']} --tier thorough",
        "technique": "contract-based deductive verification (contracts on the real functions, VCs from /repo's source, z3/cvc5/algebra)",
        "level": "proof",
        "level_note": p["note"],
    })
with open(ROOT + "/properties.jsonl", "w") as f:
    for d in out:
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m pvc.selftest", "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import jsonschema  # noqa: E402

jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
sc = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in out:
    jsonschema.validate(d, sc)
print(len(out), "properties", len(checks), "checks", [x["property"] for x in na])
