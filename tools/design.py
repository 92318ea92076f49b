"""Writes DESIGN.md from its parts, the harness list and the planted bugs."""
import json, glob, os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
exec(open(H + "/design_props.py").read())
b = subprocess.run(["/opt/venv/bin/python", H + "/bounds.py"], capture_output=True, text=True, check=True).stdout
sec = {}
for part in b.split("**C")[1:]:
    sec["C" + part[:2]] = part.split("\n", 1)[1].strip()
out = [open(H + "/design_head.md").read()]
man = json.load(open(V + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
for p in sorted((json.loads(l) for l in open(V + "/properties.jsonl")), key=lambda p: p["id"]):
    out.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
    out.append("Why tests cannot settle it: %s.\n" % p["why_tests_cant"])
    if p["id"] in na:
        out.append("Not applicable: %s\n" % na[p["id"]])
        continue
    out.append(T[p["id"]] + "\n\n" + sec[p["id"]] + "\n")
out.append(open(H + "/design_tail.md").read())
out.append("| bug | property | needs | caught by |\n|---|---|---|---|")
caught = json.load(open(H + "/caught.json")) if os.path.exists(H + "/caught.json") else {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), caught.get(i, m["property"])))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
