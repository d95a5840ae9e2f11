#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from the seeds, findings and properties."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read()


def part(name, body):
    global s
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    if f"@@{name}@@" in s:
        s = s.replace(f"@@{name}@@", f"{a}\n{body}\n{b}")
    else:
        s = re.sub(re.escape(a) + r".*?" + re.escape(b), lambda m: f"{a}\n{body}\n{b}", s, flags=re.S)


rows = ["| seed | property | caught by | needs | breaks |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/S*")):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m.get('caught_by', m['property'])} | {m['needs']} | {m['what_it_breaks']} |")
part("SEEDS", "\n".join(rows))
kf = [json.loads(l) for l in open(V + "/known_findings.jsonl") if l.strip()]
part("FIXED", "\n".join("* " + k["what"].replace("fixed: ", "") for k in kf if k["status"] == "fixed"))
na = json.load(open(V + "/MANIFEST.json"))["not_applicable"]
part("NA", "\n".join(f"* **{x.get('property', x.get('id'))}**: {x['reason']}" for x in na))
open(p, "w").write(s)
