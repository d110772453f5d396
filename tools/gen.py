#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import P, NA
L = []
for p in sorted(P, key=lambda p: p["id"]):
    assert len(p["title"]) <= 80, p["id"]
    L.append(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["tests"],
                  anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"])))
for i, t, s, why, files in NA:
    L.append(dict(id=i, title=t, statement=s, quantifier=dict(over=["inputs"], text="every key, message and seed"), why_tests_cant="Tests sample a few executions.",
                  anchors=dict(files=files, mechanism=[])))
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in L))
C = []
for p in sorted(P, key=lambda p: p["id"]):
    assert os.path.exists(os.path.join(V, "checks", p["id"] + ".py")), p["id"]
    c = dict(property=p["id"], quick_cmd="VERIF_TIER=quick bin/check " + p["id"])
    if p["thorough"]:
        c["thorough_cmd"] = "VERIF_TIER=thorough bin/check " + p["id"]
    c.update(technique=p.get("technique") or "solver-based symbolic execution of the real code (SMT)", level="model_checking", level_note=p["note"].strip())
    C.append(c)
json.dump(dict(version=1, setup_cmd="bin/setup", checks=C, not_applicable=[dict(property=i, reason=why) for i, t, s, why, f in NA]),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
d = open(os.path.join(V, "tools", "DESIGN.head.md")).read()
d += "\n## Properties and how each is decided\n\n"
for p in sorted(P, key=lambda p: p["id"]):
    d += "### %s. %s\n\n%s\n\n*How.* %s\n\n*Why tests cannot settle it.* %s\n\n*Assurance.* %s\n\n" % (p["id"], p["title"], p["statement"], p["design"], p["tests"], p["note"].strip())
d += "## Not applicable\n\n"
for i, t, s, why, f in NA:
    d += "- **%s. %s.** %s\n" % (i, t, why)
d += "\n" + open(os.path.join(V, "tools", "DESIGN.tail.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(d)
