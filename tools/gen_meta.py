#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "src/LNLib/Algorithm/"
C = "src/LNLib/Geometry/Curve/"
S = "src/LNLib/Geometry/Surface/"
V = "src/LNLib/Geometry/Volume/"
M = "src/LNLib/Mathematics/"
I = "src/LNLib/include/"
P = []


def prop(id, title, statement, quant, why, files, mech, technique, note, over=("inputs",)):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
                  files=files, mech=mech, technique=technique, note=note))


exec(open(os.path.join(HERE, "tools", "props_table.py")).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
    for p in P:
        fp.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=p["quantifier"], why_tests_cant=p["why_tests_cant"],
                                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                              observe_at=["return values and output arguments of the public static functions named under mechanism"], hook_needed=None))) + "\n")
checks = []
for p in P:
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"], thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"]))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
    json.dump(dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=[],
                   notes="Every check compiles /repo's current library sources with sanitizers together with one workload driver (harness/<id>.cpp) and judges each observed call with monitors that compare against independent long-double reference oracles. No hooks in /repo are needed: all guarantees are observable at the public functions. See DESIGN.md."), fp, indent=1)
