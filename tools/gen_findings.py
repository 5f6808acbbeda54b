"""Writes known_findings.json; entries of status fixed suppress nothing."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], text=True).splitlines()
what = json.load(open(os.path.join(R, "tools", "fixes.json")))
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    if s not in what:
        raise SystemExit("no description for " + s)
    for prop in what[s]["properties"]:
        out.append({"id": f"fixed-{h}-{prop}", "property": prop, "status": "fixed", "commit": h,
                    "what": f"fixed: property={prop} {h} {what[s]['failed']}"})
out += json.load(open(os.path.join(R, "tools", "known.json")))
json.dump(out, open(os.path.join(R, "known_findings.json"), "w"), indent=1)
print(len(out), "entries")
