#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below and in props_*.py (run by hand, output committed)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
PROPS = []
NA = []
def P(id, title, statement, over, text, why, files, mech, note, state=None, observe=None, technique=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=anchors, _note=note, _tech=technique))
def notclaimed(id, reason): NA.append({"property": id, "reason": reason})
exec(open(os.path.join(here, "props.py")).read())
PROPS.sort(key=lambda p: p["id"])
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
na = {x["property"] for x in NA}
checks = [{"property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
           "technique": p["_tech"] or "property-based testing (rapid generators, shrinking) against a reference model",
           "level": "exploration", "level_note": p["_note"]} for p in PROPS if p["id"] not in na]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NA,
     "notes": "No hooks in /repo: the harness uses exported API only. check.sh builds harness/ against /repo's working tree (a go.mod is overlaid, /repo has none)."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    sp = json.load(open("/root/.vp/PROPERTIES.schema.json")); sm = json.load(open("/root/.vp/MANIFEST.schema.json"))
    for p in PROPS: jsonschema.validate({k: v for k, v in p.items() if not k.startswith("_")}, sp)
    jsonschema.validate(m, sm)
    print(len(PROPS), "properties,", len(checks), "checks: valid")
except ImportError:
    print("jsonschema missing, not validated")
