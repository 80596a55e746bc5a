"""Regenerate /verif/MANIFEST.json from properties.jsonl and the property modules."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
NOTES = json.load(open(os.path.join(HERE, "notes.json")))
checks, na = [], []
for l in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": f"harness/run.py {i} --tier quick",
                       "thorough_cmd": f"harness/run.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": "property-based testing: " + n.get("technique", "generated inputs against an independent reference"),
                       "level": "exploration",
                       "level_note": n.get("note", "Sampled inputs only; trusts the reference implementation named in DESIGN.md.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "harness/run.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks import /repo/src directly in fresh interpreter processes, so every run sees the current working tree."},
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
