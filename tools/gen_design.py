"""Fills the tables of DESIGN.md from tools/fixes.json, the git log of /repo and seeded/."""
import glob, json, os, re, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict(l.split(" ", 1)[::-1] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines())
fixes = "| commit | properties | repair | what failed |\n|---|---|---|---|\n" + "".join(
    f"| {log.get(k, '?')} | {', '.join(v['properties'])} | {k[5:]} | {v['failed'].replace('|', '/')} |\n" for k, v in json.load(open(here + "/tools/fixes.json")).items())
seeded = "| change | property | needs | breaks |\n|---|---|---|---|\n"
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(f))
    seeded += f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |\n"
p = here + "/DESIGN.md"
s = open(p).read()
for name, t in (("fixes", fixes), ("seeded", seeded)):
    s = re.sub(f"<!-- {name} -->\n.*?<!-- end -->", lambda m: f"<!-- {name} -->\n{t}<!-- end -->", s, flags=re.S)
open(p, "w").write(s)
