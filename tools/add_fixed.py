"""add_fixed.py PROPERTY COMMIT TEXT: record a repaired defect."""
import json
import os
import sys
prop, commit, what = sys.argv[1:]
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.jsonl")
with open(path, "a") as fp:
    fp.write(json.dumps({"status": "fixed", "property": prop, "commit": commit, "what": what,
                         "line": f"fixed: property={prop} {commit[:7]} {what}"}) + "\n")
