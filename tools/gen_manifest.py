"""Writes MANIFEST.json and checks/rules.json from the check modules present."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

# property -> (technique, level note, rule of non-triviality)
INFO = json.load(open(os.path.join(here, "tools", "info.json")))

checks, na, rules = [], [], {}
for p in props:
    pid = p["id"]
    if pid in INFO and os.path.exists(os.path.join(here, "checks", pid.lower() + ".py")):
        i = INFO[pid]
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"bash run.sh {pid} --tier quick",
                "thorough_cmd": f"bash run.sh {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": i["technique"],
                "level": "exploration",
                "level_note": i["note"],
            }
        )
        rules[pid] = i["rule"]
    else:
        na.append({"property": pid, "reason": "the check for it is not finished yet"})
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
}
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
json.dump(rules, open(os.path.join(here, "checks", "rules.json"), "w"), indent=1)
