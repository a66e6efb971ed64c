#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the check modules present."""
import importlib.util
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    cid = p["id"]
    path = os.path.join(HERE, "harness", "checks", cid.lower() + ".py")
    if not os.path.exists(path):
        missing.append({"property": cid, "reason": "check not built yet"})
        continue
    text = open(path).read()
    m = re.search(r'^TECHNIQUE = \(?((?:\s*"[^"]*")+)\)?', text, re.M)
    tech = "".join(re.findall(r'"([^"]*)"', m.group(1))) if m else \
        "property-based testing (Hypothesis) against an independent reference formula"
    m = re.search(r'^LEVEL = "([^"]*)"', text, re.M)
    level = m.group(1) if m else "exploration"
    m = re.search(r'^NOTE = \(?((?:\s*"[^"]*")+)\)?', text, re.M)
    note = "".join(re.findall(r'"([^"]*)"', m.group(1))) if m else \
        ("Generated-input search: every clause of the statement is asserted on each generated case; no violation in "
         "the explored cases, no absence proof. Trusts numpy/scipy/h5py/dask and the oracle in harness/checks/%s.py."
         % cid.lower())
    checks.append({"property": cid,
                   "quick_cmd": f"/opt/venv/bin/python run_check.py {cid} --tier quick",
                   "thorough_cmd": f"/opt/venv/bin/python run_check.py {cid} --tier thorough",
                   "evidence_file": f"evidence/{cid}.json",
                   "technique": tech, "level": level, "level_note": note})
manifest = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": missing,
            "notes": "No hooks in /repo are needed: everything is observed through the public interface, real files in "
                     "scratch directories and a recorded HTTP layer. Repairs of genuine defects are listed in "
                     "KNOWN_FINDINGS.jsonl."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
    json.dump(manifest, fp, indent=1)
    fp.write("\n")
print(len(checks), "checks,", len(missing), "missing")
