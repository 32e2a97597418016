"""python tools/add_fixed.py C04 70b1d1d "what failed"  - records a repaired defect."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, commit, what = sys.argv[1:]
with open(os.path.join(here, "known_findings.jsonl"), "a", encoding="utf-8") as f:
    f.write(json.dumps({"property": pid, "status": "fixed", "commit": commit, "what": what,
        "record": f"fixed: property={pid} {commit} {what}"}) + "\n")
