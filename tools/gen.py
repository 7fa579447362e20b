#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the single table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "src/buzz/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level="proved", note="", na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=[B + f for f in files], mech=mech, level=level, note=note, na=na, observe=observe or []))

exec(open(os.path.join(H, "tools", "props.py")).read())

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=B + w) for n, w in p["mech"]])
        if p["observe"]: a["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=a)) + "\n")
T = "contract-based deductive verification: contracts and loop invariants on the functions compiled from /repo, every obligation discharged by symbolic execution over the generated LLVM IR and Z3"
def have(p):
    return any(x.startswith(p["id"].lower() + "_") for x in os.listdir(os.path.join(H, "contracts")))
m = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=[], not_applicable=[])
for p in P:
    if p["na"]: m["not_applicable"].append(dict(property=p["id"], reason=p["na"])); continue
    if not have(p):
        m["not_applicable"].append(dict(property=p["id"], reason="contracts not written yet")); continue
    m["checks"].append(dict(property=p["id"],
        quick_cmd="python3-vt /verif/engine/driver.py %s quick" % p["id"],
        thorough_cmd="python3-vt /verif/engine/driver.py %s thorough" % p["id"],
        technique=T, level=p["level"], level_note=p["note"]))
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
