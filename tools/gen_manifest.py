"""Writes MANIFEST.json from properties.jsonl and the checks present in props/."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(R, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"./check.py {i} --tier quick", "thorough_cmd": f"./check.py {i} --tier thorough",
                       "technique": NOTES[i][0], "level": "exploration", "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
doc = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo. Genuine defects found are repaired by fix: commits or listed in known_findings.json; see DESIGN.md."}
json.dump(doc, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
