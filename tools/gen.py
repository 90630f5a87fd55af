#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the single source of both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
from props import PROPS
import importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("check", V + "/check.py")
check = importlib.util.module_from_spec(spec); spec.loader.exec_module(check)
with open(V + "/properties.jsonl", "w") as h:
    for p in PROPS:
        h.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["forall"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         state=[dict(name=n, meaning=m, where=w) for n, m, w in p.get("state", [])],
                         observe_at=p.get("observe", []), hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks, na = [], []
for p in PROPS:
    if p["id"] in check.REGISTRY:
        checks.append(dict(
            property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough",
            technique=p.get("technique", "TLA+ specification model-checked with TLC; runs of the real code validated against it by TLC"),
            level="model_checking", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p.get("na", "its specification and conformance harness are not built yet")))
json.dump(dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=na,
               notes="No hook in /repo: everything is observed through the public API. One entry point: check.py <property> [quick|thorough]."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
