#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, not by a check)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/HyperHDG/"
TECH = "TLA+ specification model-checked with TLC; TLC-generated and randomised call histories replayed into the C++ code; recorded traces validated against the specification"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, spec, note, tech=TECH):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, spec=spec, note=note, tech=tech))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 /verif/tools/setup.py",
     "hooks": {"guard": "VERIF_HOOKS", "enable": "no hooks are needed: every observation is made at the return of a public call", "source_commits": []},
     "checks": [{"property": p["id"],
                 "quick_cmd": "python3 /verif/check.py %s --tier quick" % p["id"],
                 "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % p["id"],
                 "evidence_file": "/verif/evidence/%s.json" % p["id"],
                 "technique": p["tech"],
                 "level": "model_checking",
                 "level_note": p["note"]} for p in P],
     "not_applicable": NOT_APPLICABLE,
     "notes": "Specifications in /verif/spec (TLA+), harnesses in /verif/harness, driver in /verif/lib and /verif/check.py."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for n in P:
    assert len(n["title"]) <= 80, n["title"]
