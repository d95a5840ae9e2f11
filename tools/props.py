#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("static analysis: path-sensitive value-provenance dataflow over rustc MIR of the current tree, specialised per "
        "opcode/type, compared with a semantic rule table")
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=True, note="", reason="", technique=TECH, state=None,
         observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                   why_tests_cant=why, anchors=a), claim, note, reason, technique))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p, claim, note, reason, technique in P:
    if claim:
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                       "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                       "technique": technique, "level": "other", "level_note": note})
    else:
        na.append({"property": p["id"], "reason": reason})
json.dump({"version": 1, "setup_cmd": "python3 -m engine.build", "checks": checks, "not_applicable": na,
           "notes": "Every check rebuilds the MIR dump of /repo's working tree when its content hash changed."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
