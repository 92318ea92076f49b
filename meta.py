#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
TECH = "bounded symbolic execution of the elaborated HDL (regenerated from /repo), SMT (z3 QF_BV)"
NOTE = ("z3 decides every obligation for all symbolic input values within the stated bounds (cycles from reset, sizes, "
        "configurations: see DESIGN.md and the evidence file). Trusts z3, the Amaranth front end, the translator in "
        "symhdl (compared with pysim on every run) and the reference model in props/. Nothing is claimed outside the bounds.")

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, note=None, level="model_checking", tech=TECH):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a),
              dict(level=level, note=note, tech=tech)))

def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech)
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(HERE, "meta_table.py")).read())

def main():
    nas = {n["property"] for n in NA}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p, k in P:
        if p["id"] in nas:
            continue
        checks.append(dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"],
                           thorough_cmd="bash check.sh %s thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique=k["tech"], level=k["level"], level_note=(k["note"] + " " if k["note"] else "") + NOTE))
    man = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=NA)
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
main()
