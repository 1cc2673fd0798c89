#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py  (run from /verif)"""
import json, os, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
P = []
def prop(id, title, statement, over, quant, why, files, mech, tech=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note, na=na, observe=observe))
exec(open("tools/props.py").read())
props, checks, nas = [], [], []
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
    if p["observe"]: d["anchors"]["observe_at"] = p["observe"]
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), f
    props.append(d)
    if p["na"]:
        nas.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh " + p["id"],
                       "technique": "static analysis: " + p["tech"], "level": "other", "level_note": p["note"]})
open("properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in props))
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": nas}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    sp = json.load(open("/root/.vp/PROPERTIES.schema.json")); sm = json.load(open("/root/.vp/MANIFEST.schema.json"))
    for x in props: jsonschema.validate(x, sp)
    jsonschema.validate(m, sm)
    print("valid:", len(props), "properties", len(checks), "claimed")
except ImportError:
    print("no jsonschema; run with python3-vt")
