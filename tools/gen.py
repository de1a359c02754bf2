#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for p in sorted(PROPS, key=lambda p: p["id"]):
    a = {"files": p["files"], "mechanism": p["mech"]}
    a.update(p["kw"].get("anchors", {}))
    q = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
         "why_tests_cant": p["why"], "anchors": a}
    assert len(q["title"]) <= 80, q["title"]
    assert q["statement"].count(". ") <= 2, q["statement"]
    props.append(q)
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), f
    if p["crate"] is None:
        na.append({"property": p["id"], "reason": p["note"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['crate']} {p['id']}",
                   "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['crate']} {p['id']}",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
hooks = json.load(open(os.path.join(V, "tools/hooks.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for p in props:
        o.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "./setup.sh", "hooks": hooks, "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as o:
    json.dump(man, o, indent=1, ensure_ascii=False)
    o.write("\n")
import jsonschema
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props:
    jsonschema.validate(p, s)
print(len(props), "properties", len(checks), "checks")
